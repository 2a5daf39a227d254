// P01: supervised trackers; the real TrackerProcess with its watchdog and logger threads, the
// tracker being a simulated process, under a controlled scheduler with virtual time.
#include "tracker.hpp"
using namespace tk; using trax::TrackerProcess;
enum { ANSWER, SILENT, EXIT0, EXIT3, CRASH, GARBAGE, QUITS, SINK, CLOSES, FLOOD, HALF, LATE, CHATTY, ACTIONS };
static const char* ACTION[] = {"answers", "falls silent", "exits", "exits with code 3", "crashes", "sends an unknown message", "quits", "reads only", "closes its streams", "prints for ever", "stops in the middle of a line", "connects when it is too late", "prints a lot and answers"};
enum { HELLO_, INITIALIZE, FRAME, IDLE, QUIT, CONNECT, STAGES };
static const char* STAGE[] = {"before the introduction", "on initialize", "on frame", "after its first answer", "on quit", "before connecting"};
static int polls = -1; static bool abort_now() { return polls >= 0 && polls-- == 0; }
static bool carry_on() { return false; }
struct Session {
  Ctx& c; World w; int mode, stage, action; int timeout = 2, states = 0, got = 0; bool multi = false, healthy; Log log; long long worst = 0; int bound = 8;
  Session(Ctx& c, int mode, int stage, int action, int term) : c(c), w(c), mode(mode), stage(stage), action(action), healthy(action == ANSWER || action == CHATTY || stage == QUIT), log(c) {
    w.s.delay_bounded = true; w.term = term == 4 ? 1 : term; w.delayed_kill = term == 4; w.o.strict = true;
    w.spawned = [this](Proc& p) { if (this->stage == CONNECT && p.pid == 1001) { vector<string> e; for (auto& x : p.env) if (x.compare(0, 12, "TRAX_SOCKET=")) e.push_back(x); p.env = e; } };
    w.behaviour = [this](Tracker& t) { tracker(t); };
    c.trace("%s %s, SIGTERM %d, mode %d", ACTION[action], STAGE[stage], term, mode);
  }
  bool act(Tracker& t, int at) {
    if (action == CHATTY && at == stage) { string x; while (x.size() < 70000) x += "printed by the tracker\n"; for (int fd = mode == 2 ? 1 : 2; fd < 3; fd++) t.say(x, fd); return false; }
    if (action == ANSWER || action == CHATTY || t.p.pid != 1001 || (at != stage && !(at == HELLO_ && stage == CONNECT))) return false;
    if (action == LATE) { w.s.sleep(2250000); int fd = w.o.open(std::make_shared<vos::Sock>()); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_port = htons(w.o.last_port); if (vo_connect(fd, (struct sockaddr*)&a, sizeof a) == 0) t.say(hello(), fd); }
    auto hang = [&] { w.s.block("doing nothing", [&] { return !t.alive(); }); };
    switch (action) {
      case EXIT0: t.exit(0); break; case EXIT3: t.exit(3); break; case CRASH: t.crash(SIGSEGV); break; case QUITS: t.say("@@TRAX:quit\n"); t.exit(0); break;
      case GARBAGE: t.say("@@TRAX:bogus\n"); hang(); break; case HALF: t.say("@@TRAX:sta"); hang(); break; case SINK: { string l; while (t.line(l)) {} hang(); break; }
      case CLOSES: vo_close(t.in); if (t.out != t.in) vo_close(t.out); hang(); break; case FLOOD: while (t.alive()) { t.say("x"); w.s.sleep(150000); } break; default: hang();
    }
    return true;
  }
  void tracker(Tracker& t) {
    if (act(t, HELLO_)) return; t.say(hello()); string l;
    while (t.alive() && t.line(l)) {
      if (l.compare(0, 11, "@@TRAX:quit") == 0) { if (act(t, QUIT)) return; break; }
      if (l.compare(0, 17, "@@TRAX:initialize") == 0) { if (act(t, INITIALIZE)) return; states++; t.say(answer()); if (act(t, IDLE)) return; }
      else if (l.compare(0, 12, "@@TRAX:frame") == 0) { if (act(t, FRAME)) return; states++; t.say(answer()); }
    }
  }
  string hello() { return multi ? "@@TRAX:hello trax.version=4 \"trax.name=sim\" trax.region=rectangle;polygon; trax.image=path;memory; trax.multiobject=1\n" : "@@TRAX:hello trax.version=3 \"trax.name=sim\" trax.region=rectangle;polygon; trax.image=path;memory;\n"; }
  string answer() { return "@@TRAX:state \"1,2,3,4\"\n"; }
  long long late() { long long l = 0; for (auto t : w.s.th) l += t->late; return l; }
  enum { NO, YES, THREW };
  int call(const char* what, std::function<bool()> f) {
    long long t = w.s.now, l = late(); int r; c.step(); try { r = f() ? YES : NO; } catch (const std::exception& x) { c.trace("%s: %s", what, x.what()); r = THREW; }
    long long d = w.s.now - t - (late() - l); c.trace("%s -> %s, %lld us", what, r == YES ? "true" : r == NO ? "false" : "exception", d); worst = std::max(worst, d);
    if (d > (timeout + bound) * 1000000LL) c.fail("time", string(what) + " took " + std::to_string(d / 1000000) + " s with a timeout of " + std::to_string(timeout) + " s"); return r;
  }
  bool good(int r, const char* what, bool must) { if (must && r != YES) c.fail("result", string(what) + (r == NO ? " returned false" : " threw an exception") + " although the tracker is well"); return r == YES; }
  trax::Image picture(bool big) { return big ? trax::Image::create_memory(200, 150, TRAX_IMAGE_MEMORY_RGB) : trax::Image::create_path("/image"); }
  bool initialize(TrackerProcess& p, bool must, bool big = false) {
    trax::ImageList l; l.set(picture(big), TRAX_CHANNEL_COLOR); trax::Region r = trax::Region::create_rectangle(1, 2, 3, 4);
    return good(call("initialize", [&] { if (!multi) return p.initialize(l, r, trax::Properties()); trax::ObjectList o(1); o.set(0, r); return p.initialize(l, o, trax::Properties()); }), "initialize()", must);
  }
  bool frame(TrackerProcess& p, bool must, bool big = false) { trax::ImageList l; l.set(picture(big), TRAX_CHANNEL_COLOR); return good(call("frame", [&] { return multi ? p.frame(l, trax::ObjectList(0), trax::Properties()) : p.frame(l, trax::Properties()); }), "frame()", must); }
  bool wait(TrackerProcess& p, bool must) {
    trax::Properties pr; trax::Region r; trax::ObjectList o(0);
    bool ok = good(call("wait", [&] { return multi ? p.wait(o, pr) : p.wait(r, pr); }), "wait()", must); if (!ok) return false;
    if (++got > states) c.fail("result", "wait() returned a state that was never sent"); if (multi) { if (o.size() != 1) c.fail("result", "wait() returned " + std::to_string(o.size()) + " objects"); r = o.get(0); }
    if (r.type() != TRAX_REGION_RECTANGLE) c.fail("result", "wait() returned the wrong type of region"); float x = 0, y = 0, ww = 0, h = 0; r.get(&x, &y, &ww, &h); if (x != 1 || y != 2 || ww != 3 || h != 4) c.fail("result", "wait() returned the wrong region"); return true;
  }
  void look(TrackerProcess& p, bool must) { int r = call("ready", [&] { return p.ready(); }); if (r == THREW || (must && r != YES)) c.fail("ready", "ready() is false although the tracker is well"); if (call("tracking", [&] { return p.tracking(); }) == THREW) c.fail("ready", "tracking() throws"); if (call("multiobject", [&] { return p.multiobject(); }) == THREW) c.fail("ready", "multiobject() throws"); }
  // a new instance of the tracker works in any case
  void recover(TrackerProcess& p, bool by_reset) {
    got = states; int n = w.o.spawns; c.outcome("recovered");
    if (by_reset) good(call("reset", [&] { return p.reset(); }), "reset()", true); if (by_reset && w.o.spawns != n + 1) c.fail("result", "reset() did not start the tracker again"); if (by_reset) look(p, true);
    initialize(p, true); wait(p, true); frame(p, true); wait(p, true); good(call("metadata", [&] { return p.metadata().tracker_name() == "sim"; }), "metadata()", true);
  }
  void done(const char* s) { c.outcome(s); if (healthy && string(s) == "failed") c.fail("result", "failed"); }
  bool session(TrackerProcess& p, bool query, bool big, int pause) {
    auto rest = [&] { if (pause) w.s.sleep(pause); };
    if (query) { if (!good(call("query", [&] { return p.query(); }), "query()", healthy)) return false; look(p, healthy); rest(); }
    if (!initialize(p, healthy, big)) return false; rest(); if (!wait(p, healthy)) return false; rest(); look(p, healthy);
    if (!frame(p, healthy, big)) return false; rest(); if (!wait(p, healthy)) return false; rest(); return true;
  }
};
enum { PLAIN, PAUSES, DIRECT, QUERY, BIG, RESET, AGAIN, ABORT, UNUSED, PROGS };
static const char* PROG[] = {"session", "session with pauses", "initialize without query", "query only", "large images", "session and reset", "session until it fails, then initialize again", "session that a watchdog callback ends", "nothing"};
static void scenario(Ctx& c, int mode, int stage, int action, int term, int prog, bool multi) {
  if ((stage == CONNECT && mode != 2) || (action == LATE && stage != CONNECT)) throw Prune(); if ((action == ANSWER && stage) || ((action == ANSWER || action == CHATTY) && term) || (action == CHATTY && (stage == CONNECT || stage == QUIT))) throw Prune(); if (prog == UNUSED && (action || mode)) throw Prune();
  Session s(c, mode, stage, action, term); s.multi = multi; c.trace("%s%s", PROG[prog], multi ? ", several objects" : ""); int others = 0; if (prog == ABORT) { polls = c.choose(12) * 3; others = polls / 3 % 4; c.trace("callbacks that do not end it: %s%s", others & 1 ? "before " : "", others & 2 ? "after" : ""); s.timeout = 60; s.bound = stage == CONNECT ? 8 : 8 - 60; s.healthy = false; }
  s.w.run([&] {
    std::unique_ptr<TrackerProcess> p(new TrackerProcess("tracker", map<string, string>(), s.timeout, (trax::ConnectionMode)mode, multi ? trax::VERBOSITY_DEBUG : trax::VERBOSITY_DEFAULT, "", &s.log)); if (prog == ABORT) { if (others & 1) p->register_watchdog(carry_on); p->register_watchdog(abort_now); if (others & 2) p->register_watchdog(carry_on); }
    if (prog != UNUSED) {
      if (prog == QUERY) { s.good(s.call("query", [&] { return p->query(); }), "query()", s.healthy); }
      else {
        bool ok = s.session(*p, prog != DIRECT, prog == BIG, prog == PAUSES ? 350000 : 0); if (ok) { if (prog == RESET) s.recover(*p, true); else c.outcome("complete"); }
        else { c.outcome(string(ACTION[action])); if (prog == AGAIN) { if (s.call("ready", [&] { return p->ready(); }) == Session::YES) s.call("reset", [&] { return p->reset(); }); s.recover(*p, false); } else if (prog != PLAIN && prog != ABORT) { s.recover(*p, true); } }
      }
    }
    s.call("destruction", [&] { p.reset(); return true; });
  });
  if (action == ANSWER && prog != ABORT) for (auto& q : s.w.o.procs) if (q->signals || q->status) c.fail("quit", "a tracker that is well was ended by a signal instead of being told to quit");
  c.state(fnvs(std::to_string(s.w.s.now) + " " + std::to_string(s.w.s.steps) + " " + std::to_string(prog * 1000 + action * 10 + stage)));
}
// the tracker has not read anything yet and there is little or no room for more
static void tight(Ctx& c, int mode, int term, int cap, int after) {
  Session s(c, mode, INITIALIZE, SILENT, term); s.w.o.cap = cap; s.timeout = 5;
  s.w.behaviour = [&](Tracker& t) { if (t.p.pid != 1001) { tk::answer(t); return; } t.say(HELLO); s.w.s.block("doing nothing", [&] { return !t.alive(); }); };
  s.w.run([&] {
    std::unique_ptr<TrackerProcess> p(new TrackerProcess("tracker", map<string, string>(), s.timeout, (trax::ConnectionMode)mode, trax::VERBOSITY_DEFAULT, "", &s.log));
    s.good(s.call("query", [&] { return p->query(); }), "query()", true); bool ok = s.initialize(*p, false); c.outcome(ok ? "request fits" : "request does not fit");
    if (after == 1) s.w.s.sleep(350000); if (after == 2) s.call("reset", [&] { return p->reset(); }); s.call("destruction", [&] { p.reset(); return true; });
  });
  c.state(fnvs(std::to_string(s.w.s.now) + " " + std::to_string(cap)));
}
int main(int argc, char** argv) {
  Main m("P01"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); polls = -1; }; bool T = m.thorough;
  m.bounds = {"three connection modes x 6 points of the session x 12 ways of behaving there x 5 reactions to SIGTERM and SIGKILL x 9 programs, single and multiple objects, without preemption",
    T ? "single objects, two reactions to SIGTERM: with one preemption, early timer or unusual order of threads anywhere; four ways of failing, two programs: with two" : "four ways of failing, two programs: with one preemption, early timer or unusual order of threads anywhere"};
  m.add("all", 0, 4, [=](Ctx& c) { int mode = c.choose(3), stage = c.choose(STAGES), action = c.choose(ACTIONS), term = c.choose(5), prog = c.choose(PROGS), multi = c.choose(2); scenario(c, mode, stage, action, term, prog, multi); });
  m.add("tight", 0, 4, [=](Ctx& c) { int cap = 1 + c.choose(100), mode = c.choose(3), term = c.choose(5), after = c.choose(3); tight(c, mode, term, cap, after); });
  auto few = [=](Ctx& c) { static const int A[] = {ANSWER, SILENT, CRASH, GARBAGE}, P[] = {AGAIN, RESET}; int mode = c.choose(2) * 2, action = A[c.choose(4)], stage = c.choose(STAGES), prog = P[c.choose(2)], term = action == SILENT ? c.choose(2) : 0; scenario(c, mode, stage, action, term, prog, false); };
  if (!T) m.add("preempted", 1, 4, few);
  else { m.add("preempted", 1, 4, [=](Ctx& c) { int mode = c.choose(3), action = c.choose(ACTIONS), stage = c.choose(STAGES), prog = c.choose(PROGS), term = c.choose(2); scenario(c, mode, stage, action, term, prog, false); }); m.add("twice", 2, 5, few); }
  return m.run();
}
