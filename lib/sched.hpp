// Controlled scheduler: simulated threads (fibers) with virtual time. Every synchronisation, sleep
// and I/O operation of the checked code is a scheduling point (symbols substituted in the checked
// objects). Which thread runs next when one cannot continue is a free choice of the explorer;
// preempting a thread that could continue, or letting a timer expire although threads could still
// run, costs a deviation.
#pragma once
#include "mc.hpp"
#include "shim.hpp"
#include <map>
namespace sched {
struct Thread {
  shim::Fiber* f = nullptr; int id = 0; std::string name; bool done = false, joined = false, daemon = false;
  std::function<bool()> ready; long long deadline = -1; bool timedout = false, blocked = false; const char* why = "";
  void* result = nullptr; bool idle = false;   // polls: goes last and is never preempted
  const void* waits = nullptr;                 // mutex it waits for
  bool killed = false, returned = false;       // ended from outside, its stack is unwound in the end
  long long late = 0;                          // virtual time that passed while it was able to run
};
struct Killed {};
struct Sched {
  mc::Ctx& c; std::vector<Thread*> th; Thread* cur = nullptr; Thread* next = nullptr; long long now = 1000000LL * 1000, start = 0; std::exception_ptr ex;
  bool verbose = false;
  bool time_choice = true;     // timers may expire before runnable threads have run (a deviation)
  bool delay_bounded = false;  // another thread than the first one costs a deviation
  bool free_choice = true;     // explore which thread continues when one cannot
  bool spurious = false;       // condition waits may return without a reason (a deviation)
  long long horizon = 3600LL * 1000000; uint64_t steps = 0, max_steps = 200000;
  std::function<void()> on_deadlock, on_step; bool running = false;
  std::map<const void*, int> mutex;                     // address -> id of the holder, 0 = free
  std::map<const void*, std::vector<Thread*>> cond;     // address -> threads waiting
  static Sched*& self() { static Sched* s = nullptr; return s; }
  explicit Sched(mc::Ctx& c_) : c(c_) {
    self() = this; start = now;
    c.escape = [this](std::exception_ptr e) { if (!cur || !shim::fiber_self()) return; if (!ex) ex = e; cur->done = true; shim::fiber_switch(nullptr); abort(); };
  }
  ~Sched() { for (auto t : th) { shim::fiber_free(t->f); delete t; } self() = nullptr; c.escape = nullptr; }
  void set_time(long long us) { now = start = us; }
  Thread* spawn(std::function<void()> fn, const std::string& name) {
    Thread* t = new Thread; t->id = th.size() + 1; t->name = name;
    t->f = shim::fiber_new([this, t, fn] { try { fn(); } catch (Killed&) {} catch (...) { if (!ex) ex = std::current_exception(); } t->done = t->returned = true; });
    th.push_back(t); return t;
  }
  Thread* find(int id) { return id > 0 && id <= (int)th.size() ? th[id - 1] : nullptr; }
  bool expired(Thread* t) { return t->deadline >= 0 && now >= t->deadline; }
  bool can(Thread* t) { return !t->done && (!t->blocked || (t->ready && t->ready()) || expired(t)); }
  // the current thread gives up the processor until ready() or the deadline (absolute, -1 = none); false = deadline
  bool block(const char* why, std::function<bool()> ready, long long deadline = -1) {
    Thread* t = cur; t->blocked = true; t->why = why; t->ready = std::move(ready); t->deadline = deadline;
    shim::fiber_switch(nullptr); if (t->killed) throw Killed();
    bool ok = t->ready && t->ready(); t->blocked = false; t->timedout = !ok; t->ready = nullptr; t->deadline = -1; return ok;
  }
  // scheduling point: others may run first
  void point() {
    Thread* t = cur; if (!t) return; count(); if (t->idle) return;
    std::vector<Thread*> r; others(t, r);
    if (r.empty()) return; int k = c.deviate(1 + r.size()); if (!k) return;
    next = r[k - 1]; if (!can(next)) advance(next->deadline); shim::fiber_switch(nullptr); if (t->killed) throw Killed();
  }
  void kill(Thread* t) { if (t == cur || t->done) return; t->killed = t->done = true; }
  void unwind() { for (auto t : th) if (t->killed && !t->returned) { cur = t; shim::fiber_switch(t->f); cur = nullptr; } }
  void count() { if (++steps > max_steps) c.fail("livelock", "more than " + std::to_string(max_steps) + " steps\n" + describe()); }
  void sleep(long long us, bool idle = false) { cur->idle = idle; count(); block("sleep", nullptr, now + (us < 0 ? 0 : us)); cur->idle = false; }
  // able to run, or kept from running by a mutex whose holder is
  bool delayed(Thread* t, int n) { if (n > 8 || t->done) return false; if (t == cur || can(t)) return true; if (!t->waits) return false; auto i = mutex.find(t->waits); Thread* h = i == mutex.end() ? nullptr : find(i->second); return h && delayed(h, n + 1); }
  void advance(long long to) { if (to <= now) return; for (auto t : th) if (t != cur && delayed(t, 0)) t->late += to - now; if (cur) cur->late += to - now; now = to; if (verbose) c.trace("%lld us", now - start); }
  // threads that may run instead of t; the one with the earliest timer is among them
  void others(Thread* t, std::vector<Thread*>& r) {
    Thread* e = nullptr;
    for (auto x : th) { if (x == t || x->done || x->idle) continue; if (can(x)) r.push_back(x); else if (time_choice && x->deadline > now && (!e || x->deadline < e->deadline)) e = x; }
    if (e) r.push_back(e);
  }
  std::string describe() { std::string s; for (auto t : th) s += "  " + t->name + ": " + (t->done ? "ended" : t->blocked ? std::string("blocked in ") + t->why : "runnable") + "\n"; return s; }
  // runs until every thread but the daemons has ended
  void run() {
    running = true;
    while (!ex) {
      Thread* t = next; next = nullptr;
      if (!t || !can(t)) {
        std::vector<Thread*> r; bool all = true; for (auto x : th) { if (!x->done && !x->daemon) all = false; if (can(x)) r.push_back(x); }
        if (all) break;
        if (r.empty()) {
          long long d = -1; for (auto x : th) if (!x->done && x->blocked && x->deadline >= 0 && (d < 0 || x->deadline < d)) d = x->deadline;
          if (d < 0) { if (on_deadlock) { on_deadlock(); break; } c.fail("deadlock", "no thread can continue\n" + describe()); }
          if (d - start > horizon) c.fail("hang", "still running after " + std::to_string(horizon / 1000000) + " s\n" + describe());
          advance(d); continue;
        }
        std::vector<Thread*> busy; for (auto x : r) if (!x->idle) busy.push_back(x); if (!busy.empty()) r = busy;
        t = r[r.size() < 2 || !free_choice ? 0 : delay_bounded ? c.deviate(r.size()) : c.choose(r.size())];
      }
      cur = t; shim::fiber_switch(t->f); cur = nullptr;
      if (!t->done && !t->blocked && !next) next = t;
      if (!ex && on_step) on_step();
    }
    running = false; unwind();
    if (ex) { auto e = ex; ex = nullptr; std::rethrow_exception(e); }
  }
};
inline Sched* S() { return Sched::self(); }
}
