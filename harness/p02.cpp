// P02: the tracker is started with exactly the requested command line, environment, directory and
// connection.
#include "tracker.hpp"
#include "process.h"
using namespace tk;
extern char** environ;
static string show(const vector<string>& v) { string s; for (auto& x : v) s += "[" + mc::esc(x) + "]"; return s; }
// splits on runs of spaces, a double quote at the start of a token groups up to the next one; false = malformed
static bool split(const string& s, vector<string>& out, bool& unspecified) {
  size_t i = 0; unspecified = false;
  for (;;) {
    while (i < s.size() && s[i] == ' ') i++; if (i >= s.size()) break;
    if (s[i] == '"') { size_t k = s.find('"', i + 1); if (k != string::npos && s[k - 1] == '\'') unspecified = true; if (k == string::npos) return false; out.push_back(s.substr(i + 1, k - i - 1)); i = k + 1; }
    else { size_t k = s.find(' ', i); if (k == string::npos) k = s.size(); out.push_back(s.substr(i, k - i)); i = k; }
  }
  return !out.empty();
}
static void command(Ctx& c, const string& s) {
  World w(c); w.behaviour = nullptr; vector<string> want; bool unspec, ok = split(s, want, unspec); if (unspec) throw Prune();
  long base = mc_new_live;
  w.run([&] {
    std::unique_ptr<Process> p; bool threw = false; try { p.reset(new Process(s, false)); } catch (const std::exception&) { threw = true; }
    if (threw != !ok) c.fail("parse", (ok ? "refused: " : "accepted although malformed: ") + mc::esc(s)); if (!ok) { c.outcome("malformed"); return; }
    if (!p->start()) c.fail("start", "not started: " + mc::esc(s)); Proc& q = *w.o.procs[0];
    if (q.argv != want) c.fail("arguments", mc::esc(s) + " started with " + show(q.argv) + " instead of " + show(want)); if (q.program != want[0]) c.fail("program", mc::esc(s) + " starts " + q.program); if (!q.path) c.fail("path", "the program is not looked up in PATH");
    c.outcome(want.size() == 1 ? "no arguments" : "arguments"); p.reset();
  });
  c.step(); c.state(fnvs(s)); shim::check_balanced(c);
}
typedef std::map<string, string> Env;
static Env envmap(Ctx& c, const vector<string>& v) { Env e; for (auto& x : v) { size_t k = x.find('='); if (k == string::npos) continue; if (e.count(x.substr(0, k))) c.fail("environment", "variable " + x.substr(0, k) + " is given twice"); e[x.substr(0, k)] = x.substr(k + 1); } return e; }
struct Environ { vector<string> v; vector<char*> p; char** old; Environ(vector<string> w) : v(w), old(environ) { for (auto& s : v) p.push_back(&s[0]); p.push_back(nullptr); environ = p.data(); } ~Environ() { environ = old; } };
int main(int argc, char** argv) {
  Main m("P02"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); };
  bool T = m.thorough; int L = T ? 8 : 7;
  m.bounds = {"every command of up to " + std::to_string(L) + " characters out of letter, space, double quote, backslash, single quote, equals sign" + string(T ? "" : " (5 for the last two positions)"),
              "tokens of 1000..1050, 2047, 2048, 4095, 4096, 70000 characters, quoted or not, as program or argument; 1..300 tokens",
              "every subset of 7 inherited variables (with =, empty, without =, TRAX_SOCKET, TRAX_IN, TRAX_OUT) x every subset of 3 given ones x three connection modes x four working directories, through a whole TrackerProcess",
              "every subset of closed standard descriptors", "0..10 busy ports x " + string(T ? "26" : "10") + " positions of the port search around its wrap-around"};
  m.add("commands", 0, 4, [=](Ctx& c) { static const char A[] = "a \"\\'="; int n = c.choose(L + 1); string s; for (int i = 0; i < n; i++) s += A[c.choose(T || i < 5 ? 6 : 4)]; command(c, s); });
  m.add("long", 0, 2, [=](Ctx& c) {
    int k = c.choose(56), q = c.choose(2), first = c.choose(2); size_t n = k < 51 ? 1000 + k : (size_t[]){2047, 2048, 4095, 4096, 70000}[k - 51]; string t(n, 'x'); if (q) { t[n / 2] = ' '; t = "\"" + t + "\""; } command(c, first ? t : "p " + t + " z");
  });
  m.add("many", 0, 1, [=](Ctx& c) { int n = 1 + c.choose(300), q = c.choose(3); string s; for (int i = 0; i < n; i++) s += q == 2 ? "\"\"" : q ? "\"b\" " : "b "; command(c, s); });
  m.add("environment", 0, 3, [=](Ctx& c) {
    static const char* INH[] = {"A=1", "B=", "C=x=y", "TRAX_SOCKET=9", "TRAX_IN=55", "TRAX_OUT=56", "NOEQ"}; static const char* DIRS[] = {"", "/data", "sub", "/nowhere"};
    int bits = 0; vector<string> inh; for (int i = 0; i < 7; i++) if (c.choose(2)) { inh.push_back(INH[i]); bits |= 1 << i; } int given = c.choose(8), mode = c.choose(3), dir = c.choose(4);
    Env user; if (given & 1) user["A"] = "2"; if (given & 2) user["D"] = "d e=f"; if (given & 4) user["B"] = "";
    Env want; for (auto& x : inh) { string s = x; size_t k = s.find('='); if (k == string::npos || s.compare(0, 5, "TRAX_") == 0) continue; want[s.substr(0, k)] = s.substr(k + 1); } for (auto& x : user) want[x.first] = x.second;
    World w(c); w.s.free_choice = false; Environ e(inh); std::stringstream log; c.step(); c.state(bits * 1000 + given * 100 + mode * 10 + dir);
    w.run([&] {
      try {
        trax::TrackerProcess p("tracker \"x y\" z", user, 5, (trax::ConnectionMode)mode, trax::VERBOSITY_DEFAULT, DIRS[dir], &log);
        if (!p.query()) c.fail("query", "the tracker was not started"); if (!p.ready()) c.fail("connection", "the tracker is not ready");
        Proc& q = *w.o.procs[0]; Env got = envmap(c, q.env); int port = 0; for (auto& f : w.o.fds) if (auto s = std::dynamic_pointer_cast<vos::Sock>(f.second)) port = s->port;
        if (mode == trax::CONNECTION_SOCKETS) want["TRAX_SOCKET"] = std::to_string(port); if (mode == trax::CONNECTION_EXPLICIT) { want["TRAX_IN"] = got["TRAX_IN"]; want["TRAX_OUT"] = got["TRAX_OUT"]; }
        for (auto& x : want) if (!got.count(x.first) || got[x.first] != x.second) c.fail("environment", "variable " + x.first + " is " + (got.count(x.first) ? got[x.first] : "not set") + " instead of " + x.second);
        for (auto& x : got) if (!want.count(x.first)) c.fail("environment", "unexpected variable " + x.first + "=" + x.second);
        if (q.argv != vector<string>{"tracker", "x y", "z"}) c.fail("arguments", show(q.argv)); static const char* CWD[] = {"/home/user", "/data", "/home/user/sub", nullptr}; if (CWD[dir] && q.cwd != CWD[dir]) c.fail("directory", "started in " + q.cwd);
        if (w.o.cwd != "/home/user") c.fail("directory", "the working directory of the program changed to " + w.o.cwd);
        if (p.metadata().tracker_name() != "sim") c.fail("connection", "wrong tracker name " + p.metadata().tracker_name()); if (w.o.spawns != 1) c.fail("start", "started more than once"); c.outcome(mode == 0 ? "standard" : mode == 1 ? "dedicated" : "sockets");
        if (p.query()) c.fail("query", "query() starts a tracker that is running"); if (w.o.spawns != 1) c.fail("start", "started more than once");
      } catch (const std::exception& x) { c.fail("exception", x.what()); }
    });
  });
  m.add("closed", 0, 1, [=](Ctx& c) {
    World w(c); w.s.delay_bounded = true; Environ e({"A=1"}); std::stringstream log; int k = c.choose(8); for (int i = 0; i < 3; i++) if (k >> i & 1) w.o.fds.erase(i); int mode = c.choose(2) * 2;
    w.run([&] { try { trax::TrackerProcess p("tracker", Env(), 5, (trax::ConnectionMode)mode, trax::VERBOSITY_DEFAULT, "", &log); if (!p.query() || !p.ready()) c.fail("connection", "no connection with closed standard descriptors"); c.outcome("closed"); } catch (const std::exception& x) { c.fail("exception", x.what()); } });
  });
  m.add("ports", 0, 1, [=](Ctx& c) {
    World w(c); Environ e({"A=1"}); std::stringstream log; int busy = c.choose(11), near = c.choose(T ? 26 : 10); if (!T) near = (int[]){0, 1, 2, 9, 10, 12, 13, 14, 15, 23}[near]; w.s.free_choice = false; static const int MODE = trax::CONNECTION_SOCKETS; c.step(); c.state(busy * 100 + near);
    {  // brings the port search to the wanted position; it lives as long as the program
      int target = near < 13 ? 65535 - near : 9090 + near - 13, before = target == 9090 ? 65535 : target - 1; struct Stop {}; bool all = true; w.o.last_port = 0;
      w.o.fault = [&](const char* what) -> int { if (strcmp(what, "bind")) return 0; int d = target - w.o.last_port; if (w.o.last_port == before || (d > 0 && d < 12)) throw Stop(); return EADDRINUSE; };
      for (int i = 0; all; i++) { if (i > 20000) c.fail("ports", "the search never reaches port " + std::to_string(target)); try { trax::TrackerProcess p("tracker", Env(), 5, (trax::ConnectionMode)MODE, trax::VERBOSITY_SILENT, "", &log); } catch (const std::exception&) {} catch (const Stop&) { if (w.o.last_port == before) all = false; } }
      w.o.fault = nullptr; for (auto i = w.o.fds.begin(); i != w.o.fds.end();) if (i->first > 2) i = w.o.fds.erase(i); else ++i;
    }
    w.run([&] {
      w.o.fault = [&](const char* what) { if (strcmp(what, "bind") || busy == 0) return 0; busy--; return EADDRINUSE; }; int want = busy;
      try {
        trax::TrackerProcess p("tracker", Env(), 5, (trax::ConnectionMode)MODE, trax::VERBOSITY_DEFAULT, "", &log); if (want >= 10) c.fail("ports", "no free port, but no error");
        p.query(); if (!p.ready()) c.fail("connection", "not ready"); const char* s = w.o.procs[0]->getenv("TRAX_SOCKET"); if (!s || atoi(s) != w.o.last_port) c.fail("ports", "TRAX_SOCKET=" + string(s ? s : "") + ", but the socket is bound to port " + std::to_string(w.o.last_port)); c.outcome("bound");
      } catch (const std::exception& x) { if (want < 10) c.fail("exception", x.what()); c.outcome("no port"); }
    });
  });
  return m.run();
}
