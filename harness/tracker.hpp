// A simulated tracker process (a fiber with descriptors of its own) and a driver for TrackerProcess.
#pragma once
#include "newcount.hpp"
#include "ref.hpp"
#include "vos.hpp"
#include <trax/client.hpp>
#include <memory>
namespace tk {
using namespace mc; using std::string; using std::vector; using sched::Sched;
struct Tracker {
  OS& o; Proc& p; int in = 0, out = 1, err = 2; string buf; bool connected = true;
  Tracker(OS& o_, Proc& p_) : o(o_), p(p_) {
    if (const char* s = p.getenv("TRAX_SOCKET")) { int fd = o.open(std::make_shared<vos::Sock>()); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_port = htons(atoi(s)); connected = vo_connect(fd, (struct sockaddr*)&a, sizeof a) == 0; in = out = fd; }
    else { if (const char* s = p.getenv("TRAX_IN")) in = atoi(s); if (const char* s = p.getenv("TRAX_OUT")) out = atoi(s); }
  }
  bool alive() { return p.alive(); }
  void say(const string& s, int fd = -1) { if (fd < 0) fd = out; size_t k = 0; while (k < s.size() && alive()) { ssize_t r = vo_send(fd, s.data() + k, s.size() - k, MSG_NOSIGNAL); if (r < 0) return; k += r; } }
  bool line(string& l) { for (;;) { size_t k = buf.find('\n'); if (k != string::npos) { l = buf.substr(0, k); buf.erase(0, k + 1); return true; } char b[4096]; ssize_t r = vo_read(in, b, sizeof b); if (r <= 0) return false; buf.append(b, r); } }
  void exit(int code) { o.end(p, code << 8); }
  void crash(int sig) { o.end(p, sig); }
};
static const char* HELLO = "@@TRAX:hello trax.version=3 \"trax.name=sim\" trax.region=rectangle;polygon; trax.image=path;memory;\n";
// answers every request until it is told to quit
static void answer(Tracker& t) { t.say(HELLO); string l; while (t.alive() && t.line(l)) { if (l.compare(0, 11, "@@TRAX:quit") == 0) break; if (l.compare(0, 7, "@@TRAX:") == 0) t.say("@@TRAX:state \"1,2,3,4\"\n"); } }
// a log stream that notices two threads writing at the same time
struct Log : std::ostream {
  struct Buf : std::streambuf {
    Ctx* c; string s; sched::Thread* in = nullptr;
    void write(const char* p, size_t n) { auto t = S() ? S()->cur : nullptr; if (in && in != t) c->fail("log", "two threads write to the log at the same time"); in = t; if (t) S()->point(); s.append(p, n); if (t) S()->point(); in = nullptr; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { write(p, n); return n; }
    int overflow(int ch) override { char b = ch; if (ch != EOF) write(&b, 1); return 0; }
  } buf;
  explicit Log(Ctx& c) : std::ostream(nullptr) { buf.c = &c; rdbuf(&buf); }
  string str() const { return buf.s; }
};
struct World {
  Ctx& c; Sched s; OS o; std::function<void(Tracker&)> behaviour = answer; int term = 0; std::function<void(Proc&)> spawned; bool delayed_kill = false;
  explicit World(Ctx& c_) : c(c_), s(c_), o(c_) {
    o.on_spawn = [this](Proc& p) {
      p.on_term = term; Proc* q = &p; if (spawned) spawned(p); if (!behaviour) return 0;
      p.t = s.spawn([this, q] { Tracker t(o, *q); behaviour(t); if (q->alive()) o.end(*q, 0); }, "tracker " + std::to_string(p.pid)); p.t->daemon = true; return 0;
    };
    o.on_signal = [this](Proc& p, int sig) {
      Proc* q = &p; if (sig == SIGTERM && p.on_term == 1) return; int st = sig == SIGTERM && p.on_term == 2 ? 0 : sig; bool later = sig == SIGKILL ? delayed_kill : p.on_term == 3;
      if (later) { auto t = s.spawn([this, q, st] { s.sleep(50000); o.end(*q, st); }, "end of " + std::to_string(p.pid)); t->daemon = true; } else o.end(*q, st);
    };
  }
  // runs a program in the caller's thread; afterwards nothing may be left
  void run(std::function<void()> f) {
    s.spawn(f, "caller"); s.run();
    for (auto t : s.th) if (t->name.compare(0, 6, "thread") == 0 && !t->joined) c.fail("thread", t->name + " was started but never joined");
    string l = o.leftover(); if (!l.empty()) c.fail("leak", "in the end: " + l);
    for (auto& m : s.mutex) if (m.second) c.fail("mutex", "a mutex is still locked in the end");
  }
};
}
