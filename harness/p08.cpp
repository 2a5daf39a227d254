// P08: the test utility puts a tracker through the protocol and its exit code tells whether the tracker
// passed.  The real program text is compiled here; its tracker process is replaced by a scripted one.
#include <opencv2/core/core.hpp>
#include <opencv2/imgcodecs/imgcodecs.hpp>
#include "faketracker.hpp"

#define main tester_main
#define exit(x) mc_exit(x)
#define TrackerProcess FakeTracker
extern "C" void mc_free(void*);
#define free(x) mc_free(x)   // what the resources have allocated is counted
#include "tester.cpp"
#undef main
#undef free
#undef exit
#undef TrackerProcess

static string BASE, JPEG;
static string dir() { static string d; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); d = BASE + "/" + to_string(owner); mkdir(d.c_str(), 0700); } return d; }
static string slurp_fd(int fd) { fflush(stdout); std::cout.flush(); off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); ssize_t q = pread(fd, &s[0], n, 0); (void)q; return s; }
static void apart(Ctx& c, const std::function<void()>& f) {
  int p[2]; if (pipe(p)) c.fail("harness", "pipe"); pid_t pid = fork();
  if (!pid) { close(p[0]); string s = "ok"; try { f(); } catch (mc::Violation& v) { s = v.key + "\n" + v.msg; } catch (Exit& x) { s = "harness\nexit"; } size_t n = write(p[1], s.data(), s.size()); (void)n; _exit(0); }
  close(p[1]); string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(pid, &st, 0);
  if (s == "ok") return; if (s.empty()) c.fail("crash", "the program crashed, status " + to_string(st)); size_t q = s.find('\n'); c.fail(s.substr(0, q), s.substr(q + 1));
}
static int call(Ctx& c, vector<string> a) {
  vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); optind = 0; opterr = 0; connection = trax::CONNECTION_DEFAULT; verbosity = trax::VERBOSITY_DEFAULT; int code = -1;
  try { code = tester_main((int)a.size(), v.data()); } catch (Exit& e) { code = e.code; } catch (mc::Violation&) { throw; } catch (mc::Prune&) { throw; }
  catch (std::exception& x) { c.fail("exception", string("the program ends with an uncaught exception: ") + x.what()); }
  c.step(); if (S.live) c.fail("left", "the tracker process is left behind"); return code;
}
static string text() { string s; for (auto& x : S.log) s += x.what + " " + x.images + (x.region.empty() ? "" : " [" + x.region + "]") + (x.props.empty() ? "" : " {" + x.props + "}") + "\n"; return s; }
static vector<string> split(const string& s, char d) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l, d)) r.push_back(l); return r; }
// the picture in any form that the tracker accepts
static void picture(Ctx& c, int formats, const trax::ImageList& l) {
  if (!l.has(TRAX_CHANNEL_COLOR) || l.has(TRAX_CHANNEL_DEPTH) || l.has(TRAX_CHANNEL_IR)) c.fail("image", "wrong channels: " + show(l)); trax::Image i = l.get(TRAX_CHANNEL_COLOR);
  if (!(i.type() & formats)) c.fail("image", "the tracker cannot take the image: " + show(i));
  static cv::Mat m; if (m.empty()) m = cv::imdecode(cv::Mat(1, JPEG.size(), CV_8U, &JPEG[0]), cv::IMREAD_COLOR);
  switch (i.type()) {
    case TRAX_IMAGE_PATH: if (bytes(i.get_path()) != JPEG) c.fail("image", "the file does not have the picture: " + i.get_path()); break;
    case TRAX_IMAGE_BUFFER: { int n, f; const char* p = i.get_buffer(&n, &f); if (string(p, n) != JPEG || f != TRAX_IMAGE_BUFFER_JPEG) c.fail("image", "the buffer does not have the picture"); break; }
    case TRAX_IMAGE_MEMORY: {
      int w, h, f; i.get_memory_header(&w, &h, &f); if (w != m.cols || h != m.rows || f != TRAX_IMAGE_MEMORY_RGB) c.fail("image", "the picture is " + to_string(w) + "x" + to_string(h));
      for (int y = 0; y < h; y++) { const unsigned char* r = (const unsigned char*)i.get_memory_row(y); for (int x = 0; x < w; x++) for (int k = 0; k < 3; k++) if (std::abs(r[3 * x + k] - m.at<cv::Vec3b>(y, x)[2 - k]) > 40) c.fail("image", "the pixels of the picture are wrong in column " + to_string(x) + " of row " + to_string(y) + ": " + to_string(r[3 * x + k]) + " instead of " + to_string(m.at<cv::Vec3b>(y, x)[2 - k])); }
      break; }
    default: c.fail("image", "no image: " + show(i));
  }
}

// a run: in session s the waits succeed until the tracker does end[s] at wait at[s]; -1: never
struct Plan { int sessions = 1, formats = TRAX_IMAGE_PATH; bool multi = false; vector<string> extra; string props; bool own_switch = false; };
struct Fault { string what; int at, fate; };                       // the at-th call of the kind
enum { FRAMES = 20 };
struct Seen { int code; string last; };
static Seen run(Ctx& c, const Plan& p, const Fault& fault, const vector<int>& quit) {
  S = Script(); S.formats = p.formats; S.multi = p.multi; map<string, int> n; int session = -1, waits = 0; bool failed = false, ended = false; Seen r;
  auto fate = [&](const string& what) { r.last = what; return fault.what == what && n[what]++ == fault.at ? (failed = true, fault.fate) : (int)ANSWER; };
  S.ask = [&](const char* w) { string what = w; if (what == "reset") what = "query"; if (failed) c.fail("calls", "the tracker is used although it failed\n" + text()); if (what == "initialize") { session++; waits = 0; ended = false; } return fate(what); };
  S.seen = [&](const trax::ImageList& l) { picture(c, p.formats, l); };
  S.reply = [&]() -> pair<int, trax::Region> {
    if (failed || ended) c.fail("calls", "the tracker is used although the session is over\n" + text());
    int k = fate("wait"); if (k != ANSWER) return {k, trax::Region()}; if (session < (int)quit.size() && quit[session] == waits) { ended = true; waits++; return {QUIT, trax::Region()}; }
    waits++; return {ANSWER, trax::Region::create_rectangle(1, 2, 3, 4)};
  };
  vector<string> a = {"traxtest"}; if (p.sessions != 1 && !p.own_switch) { a.push_back("-I"); a.push_back(to_string(p.sessions)); } for (auto& x : p.extra) a.push_back(x); a.push_back("--"); a.push_back("tracker"); a.push_back("with argument");
  r.code = call(c, a); string t = text();
  if ((r.code != 0) != failed) c.fail("exit", "exit code " + to_string(r.code) + (failed ? " although the tracker failed" : " although the tracker did nothing wrong") + "\n" + t);
  // the conversation: every session starts with an initialization, a frame is sent after the answer to the previous one, all answers are awaited
  int s = -1, frames = 0, added = 0; bool due = false, over = true; string region;
  for (auto& x : S.log) {
    if (x.what == "initialize") {
      if (due) c.fail("conversation", "an initialization while an answer is due\n" + t); s++; frames = added = 0; due = true; over = false; auto o = split(x.region, '|'); if (o.size() < 1 || (o.size() > 1) != p.multi) c.fail("objects", x.region);
      for (auto& q : o) { std::istringstream i(q + "\n"); trax::Region g; i >> g; if (g.type() != TRAX_REGION_RECTANGLE) c.fail("objects", q); float l, u, w, h; g.get(&l, &u, &w, &h); if (l < 0 || u < 0 || w < 1 || h < 1 || l + w > 320 || u + h > 240) c.fail("objects", q + " is not in the image"); }
      if (x.props != p.props) c.fail("parameters", x.props + " instead of " + p.props);
    } else if (x.what == "frame") {
      if (due || over) c.fail("conversation", "a frame is sent while an answer is due or the session is over\n" + t); due = true; frames++; if (!x.region.empty()) added++; if (!x.region.empty() && !p.multi) c.fail("objects", "a new object for a tracker of one object");
      if (x.props != (x.region.empty() ? "" : p.props)) c.fail("parameters", "with a frame: " + x.props);
    } else if (x.what == "wait") { if (!due) c.fail("conversation", "an answer is awaited that is not due\n" + t); due = false; if (s < (int)quit.size() && quit[s] == frames) over = true; }
    bool last = &x == &S.log.back(), next = !last && ((&x)[1].what == "initialize" || (&x)[1].what == "reset");
    if (s >= 0 && (last || next) && !failed && x.what != "reset" && x.what != "query") { if (due) c.fail("conversation", "the answer to the last frame is not awaited\n" + t); if (!over && frames != FRAMES) c.fail("conversation", to_string(frames) + " frames in a session\n" + t); if (!over && p.multi && !added) c.fail("objects", "no object is added"); }
  }
  if (!failed && s + 1 != p.sessions) c.fail("sessions", to_string(s + 1) + " sessions instead of " + to_string(p.sessions) + "\n" + t);
  return r;
}

int main(int argc, char** argv) {
  Main m("P08"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); S = Script(); }; unsetenv("POSIXLY_CORRECT");
  BASE = string(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + "/mcp08-" + to_string(getpid()); mkdir(BASE.c_str(), 0700); pid_t self = getpid(); JPEG = bytes(string(getenv("MC_REPO") ? getenv("MC_REPO") : "/repo") + "/support/client/res/static.jpg");
  bool T = m.thorough;
  m.bounds = {"every failure of a start, initialization, frame or answer, by return value or exception, at every position of the run x one object or many x buffer, memory or path images",
              "-I 1.." + to_string(T ? 3 : 2) + ": every sequence of sessions that the tracker ends at any of its answers or not at all, one failure in any call (with the most sessions: the first or last two calls of a kind)", "every set of image formats", "every sequence of up to " + to_string(T ? 3 : 2) + " of 18 switches"};
  static const int FATES[] = {DIES, THROWS}; static const int FM[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_BUFFER, TRAX_IMAGE_MEMORY, TRAX_IMAGE_URL};
  m.add("faults", 0, 2, [=](Ctx& c) {
    setenv("TMPDIR", dir().c_str(), 1); Plan p; p.formats = FM[c.choose(3)]; p.multi = c.choose(2); static const char* W[] = {"none", "query", "initialize", "frame", "wait"}; int w = c.choose(5); Fault f = {W[w], w < 1 ? 0 : w < 3 ? 0 : c.choose(w == 3 ? FRAMES : FRAMES + 1), w ? FATES[c.choose(2)] : 0};
    c.trace("image form %d%s, failure: %s %d", p.formats, p.multi ? ", many objects" : "", W[w], f.at); c.state(to_string(p.formats) + W[w] + to_string(f.at) + to_string(p.multi)); run(c, p, f, {}); c.outcome(W[w]);
  });
  m.add("sessions", 0, 2, [=](Ctx& c) {
    setenv("TMPDIR", dir().c_str(), 1); Plan p; p.sessions = 1 + c.choose(T ? 3 : 2); p.multi = c.choose(2); p.formats = TRAX_IMAGE_BUFFER; vector<int> q; string s; for (int i = 0; i < p.sessions; i++) { q.push_back(c.choose(FRAMES + 2) - 1); s += " " + to_string(q.back()); }
    int w = c.choose(5); static const char* W[] = {"none", "query", "initialize", "frame", "wait"}; Fault f = {W[w], 0, w ? FATES[c.choose(2)] : 0}; int restarts = 1; for (size_t i = 0; i + 1 < q.size(); i++) restarts += q[i] >= 0;
    auto cnt = [&](bool waits) { int n = 0; for (int v : q) n += v < 0 ? FRAMES + waits : v + waits; return n; }; int have = w == 1 ? 1 : w == 2 ? p.sessions : w == 3 ? cnt(false) : w == 4 ? cnt(true) : 1; if (!have) throw Prune();
    if (p.sessions == (T ? 3 : 2) && have > 4) { static const int B[] = {0, 1}; int k = c.choose(4); f.at = k < 2 ? B[k] : have - 1 - B[k - 2]; } else f.at = c.choose(have);
    c.trace("sessions end at%s, failure: %s %d", s.c_str(), W[w], f.at); c.state(s + W[w] + to_string(f.at)); run(c, p, f, q); c.outcome(W[w]);
  });
  m.add("formats", 0, 1, [=](Ctx& c) {
    int mask = c.choose(16); Plan p; p.formats = 0; for (int i = 0; i < 4; i++) if (mask >> i & 1) p.formats |= FM[i]; p.multi = c.choose(2); bool dirless = c.choose(2); string d = dirless ? dir() + "/nothing" : dir(); setenv("TMPDIR", d.c_str(), 1); c.state(mask + 1);
    bool path = p.formats & TRAX_IMAGE_PATH, other = p.formats & (TRAX_IMAGE_BUFFER | TRAX_IMAGE_MEMORY), possible = other || (path && !dirless); c.trace("formats %x%s", p.formats, dirless ? ", no temporary directory" : "");
    if (possible) { run(c, p, {"none", 0, 0}, {}); c.outcome("possible"); return; }
    S = Script(); S.formats = p.formats; S.ask = [](const char*) { return (int)ANSWER; }; S.reply = [] { return std::make_pair((int)ANSWER, trax::Region::create_special(1)); }; int code = call(c, {"traxtest", "--", "tracker"});
    if (!code) c.fail("exit", "exit code 0 although there is no image for the tracker"); for (auto& x : S.log) if (x.what == "initialize") c.fail("image", "the tracker gets an image that it cannot take or that is not there\n" + text()); c.outcome("impossible");
  });
  auto tokens = [](const string& s) { vector<string> r; size_t i = 0; while (i < s.size()) { if (isspace((unsigned char)s[i])) { i++; continue; } string t; while (i < s.size() && !isspace((unsigned char)s[i])) { if (s[i] == '"') { i++; while (i < s.size() && s[i] != '"') t += s[i++]; i++; } else t += s[i++]; } r.push_back(t); } return r; };
  m.add("switches", 0, 2, [=](Ctx& c) {
    struct O { vector<string> arg; int what; string a, b; }; enum { NONE, VERB, CONN, TIME, ENV, PROP, REP };
    static const vector<O> OPT = {{{}, NONE}, {{"-d"}, VERB, "2"}, {{"-x"}, CONN, "1"}, {{"-X"}, CONN, "2"}, {{"-t", "5"}, TIME, "5"}, {{"-t", "0"}, TIME, "0"}, {{"-t", "-4"}, TIME, "0"}, {{"-I", "2"}, REP, "2"}, {{"-I", "0"}, REP, "1"}, {{"-I3"}, REP, "3"},
      {{"-e", "A=1"}, ENV, "A", "1"}, {{"-e", "B=x=y z"}, ENV, "B", "x=y z"}, {{"-e", "A="}, ENV, "A", ""}, {{"-p", "k=v"}, PROP, "k", "v"}, {{"-p", "long.key=a=b \"c\" \\"}, PROP, "long.key", "a=b \"c\" \\"}, {{"-pk=w"}, PROP, "k", "w"}, {{"-dX"}, CONN, "2"}, {{"-e", "novalue"}, NONE}};
    int N = T ? 3 : 2; map<string, string> env, props; int conn = 0, time = 30; Plan p; p.formats = TRAX_IMAGE_BUFFER; string story;
    for (int i = 0; i < N; i++) {
      auto& o = OPT[c.choose(OPT.size())]; if (o.arg.empty()) break; for (auto& x : o.arg) { p.extra.push_back(x); story += x + " "; }
      if (o.what == CONN) conn = atoi(o.a.c_str()); if (o.what == TIME) time = atoi(o.a.c_str()); if (o.what == ENV) env[o.a] = o.b; if (o.what == PROP) props[o.a] = o.b; if (o.what == REP) p.sessions = atoi(o.a.c_str());
    }
    for (auto& x : props) p.props += x.first + "=" + x.second + ";"; p.own_switch = true; p.multi = c.choose(2); c.trace("%s", story.c_str()); c.state(story);
    apart(c, [&] {
      int fd = memfd_create("out", 0); dup2(fd, 1); run(c, p, {"none", 0, 0}, {});
      if (S.made != 1 || tokens(S.command) != vector<string>{"tracker", "with argument"}) c.fail("command", S.command);
      if (S.env != env) c.fail("environment", story); if (S.timeout != time) c.fail("timeout", story + ": " + to_string(S.timeout)); if (S.connection != conn) c.fail("connection", story + ": " + to_string(S.connection));
    });
    c.outcome("switches");
  });
  m.add("refused", 0, 1, [=](Ctx& c) {
    int k = c.choose(7); c.step(); c.state(k + 1);
    apart(c, [&] {
      int fd = memfd_create("out", 0); dup2(fd, 1); S = Script(); S.ask = [](const char*) { return (int)ANSWER; }; S.reply = [] { return std::make_pair((int)QUIT, trax::Region()); }; setenv("TMPDIR", dir().c_str(), 1);
      static const vector<vector<string>> A = {{"-h"}, {"-h", "--", "tracker"}, {}, {"-d"}, {"-Z", "--", "tracker"}, {"-e"}, {"-I"}}; vector<string> a = {"traxtest"}; for (auto& x : A[k]) a.push_back(x);
      int code = call(c, a); string o = slurp_fd(fd); if ((code != 0) != (k > 1)) c.fail("refused", "exit code " + to_string(code)); if (S.made) c.fail("refused", "a tracker was started"); if (o.find("Usage") == string::npos) c.fail("refused", "no help is printed");
    });
    c.outcome("refused");
  });
  int r = m.run(); if (getpid() == self) { string cmd = "find '" + BASE + "' -mindepth 1 -delete; rmdir '" + BASE + "'"; int x = system(cmd.c_str()); (void)x; }
  return r;
}
