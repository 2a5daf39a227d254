// P05: locks and signals of the client library, on simulated threads under every schedule.
#include "sched_pthread.hpp"
#include "threads.h"
using namespace mc; using sched::Sched; using std::string; using std::vector;
// ---- mutual exclusion -------------------------------------------------------------------------
struct SharedObj : Synchronized {
  void outer(std::function<void(int)> cs) { OBJECT_SYNCHRONIZE { cs(1); inner(cs); cs(1); } }
  void inner(std::function<void(int)> cs) { OBJECT_SYNCHRONIZE { cs(2); } }
  void thrower(std::function<void(int)> cs) { OBJECT_SYNCHRONIZE { cs(1); throw 5; } }
};
struct Excl {
  Ctx& c; Sched s; int inside = 0; uint64_t hist = 7;
  std::unique_ptr<Mutex> m; std::unique_ptr<SharedObj> o; int kind;
  Excl(Ctx& c, int kind) : c(c), s(c), kind(kind) { if (kind == 0) m.reset(new Mutex()); else if (kind == 1) m.reset(new RecursiveMutex()); else o.reset(new SharedObj()); }
  // the critical section: nobody else may come in while this thread is inside
  void cs(int depth) {
    int me = s.cur->id; c.step(); if (inside && inside != me) c.fail("exclusion", s.cur->name + " entered while " + s.find(inside)->name + " is inside");
    inside = me; c.trace("%s in", s.cur->name.c_str()); hist = hist * 31 + me * 4 + depth; c.state(hist); s.point();
    if (inside != me) c.fail("exclusion", "somebody entered while " + s.cur->name + " was inside");
  }
  void left() { inside = 0; }
  void op(int k) {
    if (o) {
      auto f = [this](int d) { cs(d); };
      switch (k) {
        case 0: { Lock l(*o); cs(1); left(); } break;
        case 1: { Lock l(*o); f(1); o->inner(f); f(1); left(); } break;
        case 2: { Lock l(*o); o->outer(f); f(1); left(); } break;
        case 3: { Lock l(*o); try { o->thrower(f); } catch (int) {} f(1); left(); } break;
        default: { Lock l(*o); o->outer(f); left(); l.unlock(); l.lock(); f(1); left(); } break;
      }
      return;
    }
    bool rec = kind == 1;
    switch (k) {
      case 0: m->acquire(); cs(1); left(); m->release(); break;
      case 1: { Lock l(*m); cs(1); left(); l.unlock(); if (l) c.fail("guard", "unlocked guard reports locked"); l.lock(); if (!l) c.fail("guard", "locked guard reports unlocked"); cs(1); left(); } break;
      case 2: try { Lock l(*m); cs(1); left(); throw 1; } catch (int) {} break;
      case 3: { Lock l(*m); l.lock(); cs(1); left(); l.unlock(); l.unlock(); } break;
      case 4:
        if (rec) { m->acquire(); cs(1); { Lock l(*m); cs(2); m->acquire(); cs(3); m->release(); cs(2); } cs(1); left(); m->release(); }
        else for (int i = 0; i < 2; i++) MUTEX_SYNCHRONIZE(*m) { cs(1); left(); if (i) break; }
        break;
      case 5:   // releasing what somebody else holds has no effect on a recursive lock
        if (rec) { m->release(); Lock l(*m); cs(1); left(); }
        else { MUTEX_SYNCHRONIZE(*m) { cs(1); left(); continue; } }
        break;
    }
  }
  int ops() { return o ? 5 : 6; }
  void run(vector<vector<int>> prog) {
    int n = 0; for (auto& p : prog) { n++; s.spawn([this, p] { for (int k : p) op(k); }, "thread " + std::to_string(n)); }
    s.run();
    // free at the end
    s.spawn([this] { op(0); }, "last"); s.run(); c.outcome(kind == 0 ? "mutex" : kind == 1 ? "recursive" : "synchronized");
    m.reset(); o.reset();
  }
};
// ---- signals ------------------------------------------------------------------------------------
struct Sig {
  Ctx& c; Sched s; std::unique_ptr<Signal> g; int outstanding = 0, waiting = 0, returned = 0, timeouts = 0; uint64_t hist = 9;
  struct W { bool in = false; long long begin = 0; int notes = 0; }; int notifying = 0; std::map<int, W> w; int notes = 0;
  explicit Sig(Ctx& c) : c(c), s(c) { g.reset(new Signal()); }
  int blocked() { int n = 0; for (auto& x : w) if (x.second.in) { auto t = s.find(x.first); if (t->blocked && !strcmp(t->why, "condition")) n++; } return n; }
  void wait(long t) {
    int me = s.cur->id; W& x = w[me]; x.in = true; x.begin = s.now; x.notes = notes - notifying; s.cur->late = 0; c.step();
    if (t < 0) g->wait(); else g->wait(t);
    x.in = false; long long d = s.now - x.begin; c.trace("%s returns after %lld us", s.cur->name.c_str(), d);
    bool timed = t >= 0 && d >= t * 1000LL;
    if (outstanding > 0) outstanding--;
    else if (!timed && notes == x.notes) c.fail("early", s.cur->name + " returned from wait(" + std::to_string(t) + ") after " + std::to_string(d) + " us without a notification");
    if (t >= 0 && d > t * 1000LL + s.cur->late) c.fail("late", s.cur->name + " returned from wait(" + std::to_string(t) + ") after " + std::to_string(d) + " us");
    hist = hist * 31 + me * 7 + timed; c.state(hist); c.outcome(timed ? "timeout" : "notified");
  }
  void notify() { c.step(); notes++; int b = blocked(); if (b - outstanding > 0) outstanding++; hist = hist * 31 + 5; notifying++; g->notify(); notifying--; }
  void run() {
    s.on_deadlock = [this] { if (outstanding > 0) c.fail("lost", "a notification released no thread that waited for it\n" + s.describe()); for (auto& x : w) if (!x.second.in && !s.find(x.first)->done) c.fail("deadlock", "a thread outside of wait is blocked\n" + s.describe()); c.outcome("waits-forever"); };
    s.run(); if (outstanding > 0) for (auto& x : w) if (x.second.in) c.fail("lost", "a notification released no thread that waited for it");
    bool all = true; for (auto t : s.th) all = all && t->done; if (!all) { s.cond.clear(); s.mutex.clear(); } g.reset();
  }
};
static const long TO[] = {-1, 5, 20};
int main(int argc, char** argv) {
  Main m("P05"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); };
  bool T = m.thorough; int B = T ? 4 : 2, B3 = T ? 3 : 2;
  m.bounds = {"mutex, recursive mutex, synchronized object: 2 threads with every pair of programs of 1 or 2 operations and 3 threads with every triple of 1 operation, out of 6 (explicit, guard, relock, exception, nested, break out of the block, foreign release), at most " + std::to_string(B) + "/" + std::to_string(B3) + " preemptions",
              string("signals: 2 waiters with every timeout out of none, 5 ms, 20 ms, waiting once or twice") + (T ? "" : " (the second one: none or 5 ms, once)") + ", and a notifier with every sequence of 3 steps out of notify, pause 3 ms, pause 10 ms; at most 2 preemptions, early timers and spurious wakeups",
              "2 waiters (none or 5 ms) and 2 notifiers, each after 0, 2.5 or 5 ms; at most " + std::to_string(T ? 2 : 1) + " preemptions, early timers and spurious wakeups",
              "timeouts: every start in {0, 1, 500000, 999998, 999999} us within a second x every timeout in {1, 2, 10, 500, 999, 1000, 1001, 1500, 2000, 10000, 60000, 2^31, 10^12} ms, undisturbed, with a spurious wakeup, and with a notification at the half"};
  m.assumptions = {"preemption only at synchronisation and time calls"};
  static const char* KN[] = {"mutex", "recursive", "object"};
  for (int k = 0; k < 3; k++) {
    m.add(string("exclusion2-") + KN[k], B, 3, [k](Ctx& c) { Excl e(c, k); vector<vector<int>> p(2); for (int t = 0; t < 2; t++) { int n = 1 + c.choose(2); for (int i = 0; i < n; i++) p[t].push_back(c.choose(e.ops())); } e.run(p); });
    m.add(string("exclusion3-") + KN[k], B3, 3, [k](Ctx& c) { Excl e(c, k); vector<vector<int>> p(3); for (int t = 0; t < 3; t++) p[t].push_back(c.choose(e.ops())); e.run(p); });
  }
  m.add("signal", 2, 4, [T](Ctx& c) {
    Sig x(c); x.s.spurious = true;
    for (int i = 0; i < 2; i++) { bool f = T || !i; long t = TO[c.choose(f ? 3 : 2)]; int n = f ? 1 + c.choose(2) : 1; x.s.spawn([&x, t, n] { for (int j = 0; j < n; j++) x.wait(t); }, "waiter " + std::to_string(i + 1)); }
    vector<int> p; for (int i = 0; i < 3; i++) p.push_back(c.choose(3));
    x.s.spawn([&x, p] { for (int k : p) if (k == 0) x.notify(); else x.s.sleep(k == 1 ? 3000 : 10000); }, "notifier");
    x.run();
  });
  m.add("signal-notifiers", T ? 2 : 1, 3, [](Ctx& c) {
    Sig x(c); x.s.spurious = true;
    for (int i = 0; i < 2; i++) { long t = TO[c.choose(2)]; x.s.spawn([&x, t] { x.wait(t); }, "waiter " + std::to_string(i + 1)); }
    for (int i = 0; i < 2; i++) { int k = c.choose(3); x.s.spawn([&x, k] { if (k) x.s.sleep(k * 2500); x.notify(); }, "notifier " + std::to_string(i + 1)); }
    x.run();
  });
  m.add("timeouts", 1, 2, [](Ctx& c) {
    static const long long ST[] = {0, 1, 500000, 999998, 999999}; static const long MS[] = {1, 2, 10, 500, 999, 1000, 1001, 1500, 2000, 10000, 60000, 2147483648L, 1000000000000L};
    Sig x(c); x.s.set_time(1000000LL * 1700000000LL + ST[c.choose(5)]); long t = MS[c.choose(13)]; int how = c.choose(3); x.s.horizon = 4000000000000000LL; x.s.time_choice = false; x.s.spurious = how == 1; if (how != 1) c.budget = 0;
    if (how == 2) x.s.spawn([&x, t] { x.s.sleep(t * 500LL); x.notify(); }, "notifier");
    x.s.spawn([&x, t] { x.wait(t); long long d = x.s.now - x.s.start; (void)d; }, "waiter");
    long long end = x.s.start + t * 1000LL; x.run(); if (how != 2 && x.s.now != end) c.fail("late", "wait(" + std::to_string(t) + ") took " + std::to_string(x.s.now - x.s.start) + " us");
    if (how == 2 && x.s.now != x.s.start + t * 500LL) c.fail("late", "notified wait(" + std::to_string(t) + ") took " + std::to_string(x.s.now - x.s.start) + " us");
  });
  return m.run();
}
