// P09: several supervised trackers in one program, one after another, interleaved, and from two
// threads at the same time; everything that a session does has to be its own.
#include "tracker.hpp"
using namespace tk; using trax::TrackerProcess;
enum { ANSWER, SILENT, EXIT0, CRASH, CLOSES, GARBAGE, NOSTART, ACTIONS };
static const char* ACTION[] = {"answers", "falls silent", "exits", "crashes", "closes its streams", "sends an unknown message", "cannot be started"};
enum { HELLO_, INITIALIZE, FRAME, IDLE, QUIT, STAGES };
static const char* STAGE[] = {"before the introduction", "on initialize", "on frame", "after its first answer", "on quit"};
enum { MAKE, ASK, INIT, WAIT, NEXT, WAIT2, RESET, REINIT, DROP, OPS };
static const char* OP[] = {"construct", "query", "initialize", "wait", "frame", "wait", "reset", "initialize", "destroy"};
enum { NO, YES, THREW };
struct World2 : World {
  struct Side {
    World2& w; int id, mode, stage = 0, action = ANSWER; string who, dir, cwd; Log log; vector<int> seq, results; std::unique_ptr<TrackerProcess> p; int states = 0; bool failed = false;
    Side(World2& w, int id, int mode) : w(w), id(id), mode(mode), who(id ? "BB" : "AA"), dir(id ? "sub" : "/data"), cwd(id ? "/home/user/sub" : "/data"), log(w.c) {}
    ~Side() { p.release(); }
    bool healthy() { return action == ANSWER; }
    string image() { return "/image-of-" + who; }
    int step(int op) {
      w.caller[w.s.cur] = id; w.c.step(); int r; try { r = run(op) ? YES : NO; } catch (const std::exception& x) { w.c.trace("%s: %s", who.c_str(), x.what()); r = THREW; }
      w.c.trace("%s %s -> %s", who.c_str(), OP[op], r == YES ? "true" : r == NO ? "false" : "exception"); results.push_back(r); return r;
    }
    bool run(int op) {
      trax::ImageList l; l.set(trax::Image::create_path(image()), TRAX_CHANNEL_COLOR); trax::Properties pr; pr.set("who", who);
      switch (op) {
        case MAKE: { std::map<string, string> e; e["WHO"] = who; e["ONLY_" + who] = "1"; p.reset(new TrackerProcess("tracker of " + who, e, 2 + id, (trax::ConnectionMode)mode, trax::VERBOSITY_DEFAULT, dir, &log)); return true; }
        case ASK: if (!p->query()) return false; { auto m = p->metadata(); if (m.tracker_name() != "sim-" + who) w.c.fail("result", "the description of " + who + " names " + m.tracker_name()); } return true;
        case INIT: case REINIT: return p->initialize(l, trax::Region::create_rectangle(1 + id, 2, 3, 4), pr);
        case NEXT: return p->frame(l, pr);
        case WAIT: case WAIT2: {
          trax::Region r; trax::Properties q; if (!p->wait(r, q)) return false; float x = 0, y = 0, ww = 0, h = 0; if (r.type() == TRAX_REGION_RECTANGLE) r.get(&x, &y, &ww, &h);
          if (x != 10 + id || h != 40 + id || q.get("who", string()) != who) w.c.fail("result", "wait() of " + who + " returned what its tracker has not sent"); return true; }
        case RESET: return p->reset();
        case DROP: p.reset(); return true;
      }
      return false;
    }
  };
  std::unique_ptr<Side> side[2]; bool strict_sockets = true; std::map<sched::Thread*, int> caller;
  World2(Ctx& c, int mode0, int mode1) : World(c) {
    s.delay_bounded = true; o.strict = true; side[0].reset(new Side(*this, 0, mode0)); side[1].reset(new Side(*this, 1, mode1));
    auto start = o.on_spawn; o.on_spawn = [this, start](Proc& p) { Side* x = of(p); if (x->action == NOSTART) { check(p); return ENOENT; } return start(p); };
    o.owner = [this] { auto i = caller.find(s.cur); return i == caller.end() ? -1 : i->second; };
    spawned = [this](Proc& p) { check(p); }; behaviour = [this](Tracker& t) { tracker(t); };
  }
  Side* of(Proc& p) { const char* w = p.getenv("WHO"); if (!w) c.fail("environment", "the environment of a tracker is missing"); for (auto& x : side) if (x->who == w) return x.get(); c.fail("environment", string("the environment of a tracker says ") + w); return nullptr; }
  // what a process gets when it starts
  void check(Proc& p) {
    Side* x = of(p); string other = x->id ? "AA" : "BB"; if (p.argv.size() != 3 || p.argv[2] != x->who) c.fail("environment", "the command of " + other + " is run in the environment of " + x->who);
    if (p.getenv("ONLY_" + other) || !p.getenv("ONLY_" + x->who)) c.fail("environment", "a variable of " + other + " is in the environment of the tracker of " + x->who);
    if (p.cwd != x->cwd) c.fail("directory", "the tracker of " + x->who + " starts in " + p.cwd + " instead of " + x->cwd);
    const char *so = p.getenv("TRAX_SOCKET"), *in = p.getenv("TRAX_IN"), *out = p.getenv("TRAX_OUT"); if (!!so != (x->mode == 2) || !!in != (x->mode == 1) || !!out != (x->mode == 1)) c.fail("environment", "the tracker of " + x->who + " is told to connect in a way that is not its own");
    for (auto& f : p.fds) if (f.second && f.second->owner >= 0 && f.second->owner != x->id && (strict_sockets || f.second->what.compare(0, 4, "pipe") == 0)) c.fail("descriptor", "the tracker of " + x->who + " inherits a " + f.second->what + " (descriptor " + std::to_string(f.first) + ") of the other session");
  }
  bool act(Tracker& t, Side* x, int at) {
    if (x->action == ANSWER || at != x->stage || x->failed) return false; x->failed = true;
    auto hang = [&] { s.block("doing nothing", [&] { return !t.alive(); }); };
    switch (x->action) { case EXIT0: t.exit(0); break; case CRASH: t.crash(SIGSEGV); break; case GARBAGE: t.say("@@TRAX:bogus\n"); hang(); break; case CLOSES: vo_close(t.in); if (t.out != t.in) vo_close(t.out); hang(); break; default: hang(); } return true;
  }
  void tracker(Tracker& t) {
    Side* x = of(t.p); if (!t.connected) c.fail("connection", "the tracker of " + x->who + " cannot connect"); if (act(t, x, HELLO_)) return; t.say("the output of " + x->who + "\n", 1); t.say("the errors of " + x->who + "\n", 2);
    t.say("@@TRAX:hello trax.version=3 \"trax.name=sim-" + x->who + "\" trax.region=rectangle;polygon; trax.image=path;memory;\n"); string l;
    while (t.alive() && t.line(l)) {
      if (l.compare(0, 7, "@@TRAX:")) c.fail("request", x->who + " receives " + l);
      if (l.compare(0, 11, "@@TRAX:quit") == 0) { if (act(t, x, QUIT)) return; break; }
      bool ini = l.compare(0, 17, "@@TRAX:initialize") == 0, fr = l.compare(0, 12, "@@TRAX:frame") == 0;
      if ((ini || fr) && (l.find(x->image()) == string::npos || l.find("who=" + x->who) == string::npos || (ini && l.find(x->id ? "2.0000" : "1.0000") == string::npos))) c.fail("request", x->who + " receives the request " + l);
      if (ini) { if (act(t, x, INITIALIZE)) return; answer(t, x); if (act(t, x, IDLE)) return; } else if (fr) { if (act(t, x, FRAME)) return; answer(t, x); }
    }
  }
  void answer(Tracker& t, Side* x) { x->states++; t.say(format("@@TRAX:state \"%d,20,30,%d\" \"who=%s\"\n", 10 + x->id, 40 + x->id, x->who.c_str())); }
  static string format(const char* f, ...) { char b[256]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
  void finish() {
    if (o.cwd != "/home/user") c.fail("directory", "the program is left in " + o.cwd);
    for (auto& x : side) {
      if (x->seq.empty()) continue; string other = x->id ? "AA" : "BB", text = x->log.str(); if (text.find(other) != string::npos) c.fail("log", "text of " + other + " in the log of " + x->who + ": " + text);
      int got = 0; for (size_t i = 0; i < x->results.size(); i++) if (x->seq[i] == WAIT || x->seq[i] == WAIT2) got += x->results[i] == YES; if (got > x->states) c.fail("result", x->who + " has received more answers than its tracker has sent");
      if (x->healthy()) { for (size_t i = 0; i < x->results.size(); i++) if (x->results[i] != YES) c.fail("result", x->who + " " + OP[x->seq[i]] + (x->results[i] == NO ? " returned false" : " threw an exception") + " although its tracker is well"); if ((x->mode != 1 && text.find("the output of " + x->who) == string::npos) || text.find("the errors of " + x->who) == string::npos) c.fail("log", "the log of " + x->who + " is missing what its tracker has printed: " + text); for (auto& q : o.procs) if (of(*q) == x.get() && (q->signals || q->status)) c.fail("quit", "the tracker of " + x->who + ", which is well, was ended by a signal"); }
    }
  }
};
static const vector<vector<int>> SEQ = {{MAKE, INIT, WAIT, NEXT, WAIT2, DROP}, {MAKE, INIT, WAIT, RESET, REINIT, WAIT2, DROP}, {MAKE, ASK, DROP}};
static void pick(World2& w, Ctx& c, int fail, int seq0, int seq1) { w.side[0]->action = fail % ACTIONS; w.side[0]->stage = fail / ACTIONS; w.side[0]->seq = SEQ[seq0]; w.side[1]->seq = SEQ[seq1]; if ((w.side[0]->action == ANSWER || w.side[0]->action == NOSTART) && w.side[0]->stage) throw Prune(); c.trace("modes %d and %d; AA %s %s", w.side[0]->mode, w.side[1]->mode, ACTION[fail % ACTIONS], STAGE[fail / ACTIONS]); }
// one thread, the calls of the two sessions in every order
static void mixed(Ctx& c, int mode0, int mode1, int fail, int seq0, int seq1) {
  World2 w(c, mode0, mode1); pick(w, c, fail, seq0, seq1); uint64_t h = (mode0 * 100 + fail) * 10 + seq0;
  w.run([&] { size_t k[2] = {0, 0}; for (;;) { int x = -1; bool more[2]; for (int i = 0; i < 2; i++) more[i] = k[i] < w.side[i]->seq.size(); if (more[0] && more[1]) x = c.choose(2); else if (more[0] || more[1]) x = more[1]; else break; h = h * 3 + x; w.side[x]->step(w.side[x]->seq[k[x]++]); } });
  w.finish(); c.outcome(fail ? "one fails" : "both well"); c.state(h * 31 + mode1);
}
// two threads, one for each session
static void threads(Ctx& c, int mode0, int mode1, int fail, int seq0, int seq1, int late) {
  World2 w(c, mode0, mode1); pick(w, c, fail, seq0, seq1); w.strict_sockets = false;
  auto all = [&w](int i) { for (int op : w.side[i]->seq) w.side[i]->step(op); };
  w.run([&] { sched::Thread* t = w.s.spawn([&] { all(1); }, "second caller"); if (late) w.s.sleep(late); all(0); w.s.block("waiting for the second caller", [t] { return t->done; }); });
  w.finish(); c.outcome(fail ? "one fails" : "both well"); c.state(fnvs(std::to_string(w.s.now) + " " + std::to_string(w.s.steps)));
}
int main(int argc, char** argv) {
  Main m("P09"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); }; bool T = m.thorough;
  static const int MF[] = {0, NOSTART, HELLO_ * ACTIONS + SILENT, INITIALIZE * ACTIONS + CRASH, FRAME * ACTIONS + SILENT, IDLE * ACTIONS + CLOSES, QUIT * ACTIONS + GARBAGE};
  m.bounds = {string("one thread: all orders of the calls of two sessions (6 or 7 calls each) in nine pairs of connection modes, both well or one of them failing in ") + (T ? "6 ways at 5 points, nine pairs of programs" : "one of 6 ways"),
    T ? "two threads: nine pairs of connection modes, three programs, with one preemption, early timer or unusual order of threads anywhere, one of the sessions failing in 6 ways at 5 points; both well: with two" : "two threads: pairs of connection modes, one preemption, early timer or unusual order of threads anywhere, both well or one crashing"};
  m.add("mixed", 0, 4, [=](Ctx& c) { int mode0 = c.choose(3), mode1 = c.choose(3), fail = T ? c.choose(STAGES * ACTIONS) : MF[c.choose(7)], seq0 = 0, seq1 = 0; if (T) { seq0 = c.choose(3); seq1 = c.choose(3); } else if (!fail) seq1 = c.choose(2); mixed(c, mode0, mode1, fail, seq0, seq1); });
  m.add("threads", 1, 4, [=](Ctx& c) { int mode0 = c.choose(3), mode1 = c.choose(3); static const int F[] = {0, INITIALIZE * ACTIONS + CRASH}; int fail = T ? c.choose(STAGES * ACTIONS) : F[c.choose(2)], seq0 = T ? c.choose(3) : 0, seq1 = T ? c.choose(3) : 0, late = T ? c.choose(3) * 130000 : 0; threads(c, mode0, mode1, fail, seq0, seq1, late); });
  if (T) m.add("twice", 2, 5, [=](Ctx& c) { int mode0 = c.choose(3), mode1 = c.choose(3); threads(c, mode0, mode1, 0, 2, 2, 0); });
  return m.run();
}
