// P04: what the tracker prints reaches the log completely, line by line.
#include "tracker.hpp"
#include <array>
using namespace tk; using trax::TrackerProcess;
static const int LEN[] = {0, 1, 40, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 5000};
static const size_t LIMIT = 255;   // longer lines are cut
static string text(char tag, int n, int len) { string s; for (int i = 0; i < len; i++) s += i == 0 ? tag : char('a' + (n * 7 + i) % 26); return s; }
struct Story {
  Ctx& c; World w; int mode, verbosity; Log log; string err, out, in; size_t seen = 0;   // everything printed to both streams, everything received
  Story(Ctx& c, int mode, int verbosity) : c(c), w(c), mode(mode), verbosity(verbosity), log(c) { w.s.delay_bounded = true; w.o.strict = true; }
  void print(Tracker& t, const string& s, int cut, int pause) { if (cut < 0 || cut >= (int)s.size()) cut = s.size(); emit(t, s.substr(0, cut)); if (pause) w.s.sleep(pause); emit(t, s.substr(cut)); }
  void emit(Tracker& t, const string& s) { if (!t.alive()) return; int fd = mode == 2 && (err.size() & 1) ? 1 : t.err; err += s; t.say(s, fd); }   // with sockets both streams are logged
  void say(Tracker& t, const string& s) { out += s; t.say(s); }
  bool line(Tracker& t, string& l) { if (!t.line(l)) return false; in += l + "\n"; return true; }
  static vector<string> lines(const string& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t k = s.find('\n', i); if (k == string::npos) k = s.size(); v.push_back(s.substr(i, std::min(k - i, LIMIT))); i = k + 1; } return v; }
  // the log consists of exactly the lines of the three streams, each stream in order (unread: lines of the conversation that nobody waited for)
  void check() {
    string l = log.str(); if (!l.empty() && l.back() != '\n') c.fail("line", "the log ends in the middle of a line: ..." + esc(l.substr(l.size() > 60 ? l.size() - 60 : 0)));
    vector<string> all; { size_t i = 0; while (i < l.size()) { size_t k = l.find('\n', i); string x = l.substr(i, k - i); if (verbosity != trax::VERBOSITY_DEBUG || x.compare(0, 8, "CLIENT: ")) all.push_back(x); i = k + 1; } }
    if (verbosity == trax::VERBOSITY_SILENT) { if (!all.empty()) c.fail("silent", "something is logged although no output is wanted: " + esc(all[0].substr(0, 60))); return; }
    vector<string> e = lines(err), o = lines(out), i = lines(in); std::set<std::array<size_t, 3>> cur{{0, 0, 0}}, best = cur; size_t n = 0;
    for (; n < all.size(); n++) { std::set<std::array<size_t, 3>> nx; for (auto p : cur) { if (p[0] < e.size() && e[p[0]] == all[n]) nx.insert({p[0] + 1, p[1], p[2]}); if (p[1] < o.size() && o[p[1]] == all[n]) nx.insert({p[0], p[1] + 1, p[2]}); if (p[2] < i.size() && i[p[2]] == all[n]) nx.insert({p[0], p[1], p[2] + 1}); } std::set<std::array<size_t, 3>> sk; for (auto p : nx) while (p[1] < o.size() && o[p[1]][0] == 'O') { p[1]++; sk.insert(p); } nx.insert(sk.begin(), sk.end()); if (nx.empty()) break; cur = nx; }
    if (n < all.size()) c.fail("line", "line " + std::to_string(n) + " of the log is not the next line of any stream: " + esc(all[n].substr(0, 80)) + (all[n].size() > 80 ? "... (" + std::to_string(all[n].size()) + " characters)" : ""));
    size_t be = 0; for (auto p : cur) if (p[1] >= seen && p[2] == i.size()) be = std::max(be, p[0] + 1);
    if (!be) c.fail("missing", "lines of the conversation are missing from the log"); if (be != e.size() + 1) c.fail("missing", "the log has " + std::to_string(be - 1) + " of " + std::to_string(e.size()) + " lines of the error stream");
  }
  void run(std::function<void(Tracker&)> behaviour, std::function<void(TrackerProcess&)> f, int timeout = 30) {
    w.behaviour = behaviour;
    w.run([&] { std::unique_ptr<TrackerProcess> p(new TrackerProcess("tracker", map<string, string>(), timeout, (trax::ConnectionMode)mode, (trax::VerbosityMode)verbosity, "", &log)); try { f(*p); } catch (const std::exception& x) { c.trace("%s", x.what()); c.outcome("exception"); } p.reset(); });
    check(); c.step(); c.state(fnvs(log.str()));
  }
  bool start(TrackerProcess& p) { trax::ImageList l; l.set(trax::Image::create_path("/image"), TRAX_CHANNEL_COLOR); return p.initialize(l, trax::Region::create_rectangle(1, 2, 3, 4), trax::Properties()); }
  bool frame(TrackerProcess& p) { trax::ImageList l; l.set(trax::Image::create_path("/image"), TRAX_CHANNEL_COLOR); return p.frame(l, trax::Properties()); }
  bool wait(TrackerProcess& p) { trax::Region r; trax::Properties pr; return p.wait(r, pr); }
};
static const char* STATE = "@@TRAX:state \"1,2,3,4\"\n";
int main(int argc, char** argv) {
  Main m("P04"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); }; bool T = m.thorough;
  m.bounds = {"two lines of 12 lengths around 0, 255, 1024 and 5000 characters on the error stream, terminated or not, whole or cut at 7 places with pauses of 0, 0.15 and 1.2 s, at five points of the session, three connection modes, three verbosities",
              "lines of the same lengths on the conversation stream around and between messages, unfinished lines before the end, simultaneous output on the error stream, one unusual order of threads or preemption anywhere", "200 kB on the error stream, every byte value"};
  m.add("stderr", 0, 4, [=](Ctx& c) {
    int a = LEN[c.choose(12)], b = LEN[c.choose(12)], cut = c.choose(8), pause = cut ? (int[]){0, 150000, 1200000}[c.choose(3)] : 0, end = c.choose(2), point = c.choose(5), mode = T ? c.choose(3) : point % 3, verb = T ? c.choose(3) : a == 1 ? c.choose(3) : 1;
    Story s(c, mode, verb); string x = text('E', 1, a) + "\n" + text('F', 2, b) + (end ? "\n" : ""); int at = cut ? (int[]){0, 1, a / 2, a, a + 1, a + 2, (int)x.size() - 1}[cut - 1] : -1;
    c.trace("lines of %d and %d characters%s, cut at %d for %d us, point %d, mode %d", a, b, end ? "" : " (unfinished)", at, pause, point, mode); s.seen = 2;
    s.run([&](Tracker& t) {
      if (point == 0) s.print(t, x, at, pause); s.say(t, HELLO); if (point == 1) s.print(t, x, at, pause); string l; if (!s.line(t, l)) return; if (point == 2) s.print(t, x, at, pause); s.say(t, STATE); if (point == 3) s.print(t, x, at, pause); s.line(t, l); if (point == 4) s.print(t, x, at, pause);
    }, [&](TrackerProcess& p) { if (!p.query() || !s.start(p) || !s.wait(p)) c.fail("session", "the session failed"); if (point == 3) s.w.s.sleep(2000000); c.outcome(end ? "terminated" : "unfinished"); });
  });
  auto conversation = [=](Ctx& c, bool all, bool few = false) {
    static const int FEW[] = {0, 3, 255, 256, 1200}; int na = few ? 1 + 2 * c.choose(2) : c.choose(all ? 12 : 5), a = all ? LEN[na] : FEW[na], point = few ? 1 + 2 * c.choose(3) : c.choose(6), pieces = c.choose(few ? 2 : 3), last = c.choose(3), mode = all ? c.choose(3) : 0; Story s(c, mode, all ? 1 + c.choose(2) : point == 5 ? 2 : 1);
    string noise = text('N', 3, a) + "\n"; c.trace("a line of %d characters at point %d in %d pieces, end %d, mode %d", a, point, pieces, last, mode); s.seen = 3 + (point < 3);
    auto talk = [&](Tracker& t, const string& x) { size_t k = pieces == 0 ? x.size() : pieces == 1 ? x.size() / 2 : 1; s.say(t, x.substr(0, k)); if (k < x.size()) { s.print(t, "error " + std::to_string(s.err.size()) + "\n", 3, 0); s.say(t, x.substr(k)); } };
    s.run([&](Tracker& t) {
      if (point == 0) talk(t, noise); talk(t, HELLO); if (point == 1) talk(t, noise); string l; if (!s.line(t, l)) return; if (point == 2) talk(t, noise); talk(t, STATE); s.print(t, "between\n", 2, 0); if (!s.line(t, l)) return; talk(t, STATE);
      if (!s.line(t, l)) return; if (last == 1) { talk(t, text('P', 4, 200)); s.print(t, "unfinished", -1, 0); } if (last == 2) { s.print(t, "x", -1, 0); s.say(t, "@@TRAX:sta"); t.crash(SIGSEGV); return; } if (point == 3) talk(t, noise); talk(t, STATE); if (point == 4) talk(t, noise); while (s.line(t, l) && l.compare(0, 11, "@@TRAX:quit")) {} if (point == 5) s.print(t, noise, -1, 0);
    }, [&](TrackerProcess& p) {
      if (!p.query() || !s.start(p) || !s.wait(p) || !s.frame(p) || !s.wait(p) || !s.frame(p)) c.fail("session", "the session failed"); bool ok = s.wait(p); if (ok) s.seen += 1 + (point == 3); if (ok && last == 2) c.fail("session", "an unfinished message was accepted"); c.outcome(ok ? "complete" : "failed"); if (last == 0 && !ok) c.fail("session", "the last wait failed");
    }, 3);
  };
  m.add("conversation", 0, 4, [=](Ctx& c) { conversation(c, true); });
  m.add("preempted", 1, 4, [=](Ctx& c) { conversation(c, false, !T); }); if (T) m.add("twice", 2, 5, [=](Ctx& c) { conversation(c, false, true); });
  m.add("flood", 0, 2, [=](Ctx& c) {
    int len = (int[]){0, 10, 99, 300, 70000}[c.choose(5)], kill = c.choose(3), mode = c.choose(3); Story s(c, mode, 1); s.seen = 1; string x; for (int i = 0; x.size() < 200000; i++) x += text('E', i, len + (len ? i % 3 : 0)) + (i % 50000 == 49999 && !len ? "x\n" : "\n"); if (!len) x = x.substr(0, 3000);
    s.run([&](Tracker& t) { s.print(t, x, -1, 0); s.say(t, HELLO); string l; while (s.line(t, l) && l.compare(0, 11, "@@TRAX:quit")) {} if (kill == 1) s.print(t, x.substr(0, 60000), -1, 0); if (kill == 2) { s.print(t, x.substr(0, 60000), -1, 0); t.crash(SIGSEGV); } }, [&](TrackerProcess& p) { if (!p.query()) c.fail("session", "the session failed"); c.outcome("flood"); });
  });
  m.add("bytes", 0, 1, [=](Ctx& c) {
    int b = c.choose(256), where = c.choose(2); if (b == '\n') throw Prune(); Story s(c, 0, 1); s.seen = 2 + where; string x = "Ea" + string(1, (char)b) + "b" + string(1, (char)b) + "\n";
    s.run([&](Tracker& t) { if (where == 0) s.print(t, x, -1, 0); s.say(t, HELLO); string l; s.line(t, l); if (where) s.say(t, x); s.say(t, STATE); while (s.line(t, l) && l.compare(0, 11, "@@TRAX:quit")) {} }, [&](TrackerProcess& p) { if (!s.start(p) || !s.wait(p)) c.fail("session", "the session failed"); c.outcome("byte"); });
  });
  m.add("again", 0, 3, [=](Ctx& c) {
    int a = LEN[c.choose(12)], which = c.choose(3), how = c.choose(3); Story s(c, 0, 1); s.seen = 0;
    auto finish = [&] { if (s.err.size() && s.err.back() != '\n') s.err += "\n"; if (s.out.size() && s.out.back() != '\n') s.out += "\n"; };
    s.run([&](Tracker& t) {
      int k = s.w.o.spawns; string l; if (which != 1) s.print(t, text('E', k, a), -1, 0); s.say(t, HELLO);
      if (s.line(t, l) && how == 0) { s.say(t, STATE); if (which) s.say(t, text('O', k, a)); s.line(t, l); finish(); t.exit(which); return; }
      finish(); if (how == 1) t.crash(SIGKILL);
    }, [&](TrackerProcess& p) { for (int i = 0; i < 2; i++) { try { if (i ? p.reset() : p.query()) if (s.start(p) && s.wait(p) && s.frame(p)) { s.wait(p); s.w.s.sleep(300000); } } catch (const std::exception&) {} } c.outcome("twice"); });
  });
  return m.run();
}
