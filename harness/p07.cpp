// P07: the command line client runs an experiment on a sequence the way its switches say and writes
// what happened in every frame.  The real program text is compiled here; its tracker process is
// replaced by a scripted one (the real one is the subject of P01-P05).
#include <opencv2/core/core.hpp>
#include <opencv2/highgui/highgui.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/imgcodecs/imgcodecs.hpp>
#include "faketracker.hpp"
#include <trax/opencv.hpp>

// ---------------------------------------------------------------- the program under check
#define TRAX_BUILD_OPENCV
#define main cli_main
#define exit(x) mc_exit(x)
#define TrackerProcess FakeTracker
#define timer_clock fake_clock
#define timer_elapsed fake_elapsed
#define timer_init() (void)0
#include "cli.cpp"
#undef main
#undef exit
#undef TrackerProcess
#undef timer_clock
#undef timer_elapsed
#undef timer_init

// ---------------------------------------------------------------- files
static string BASE;
static string dir() { static string d; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); d = BASE + "/" + to_string(owner); mkdir(d.c_str(), 0700); } return d; }
static map<string, string> cache; static pid_t cache_owner = 0;
static string put(const string& name, const string& content) {
  if (cache_owner != getpid()) { cache.clear(); cache_owner = getpid(); }
  string f = dir() + "/" + name; auto it = cache.find(name); if (it != cache.end() && it->second == content) return f;
  std::ofstream o(f, std::ios::binary | std::ios::trunc); o << content; o.close(); cache[name] = content; return f;
}
static string slurp_fd(int fd) { fflush(stdout); std::cout.flush(); off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); pread(fd, &s[0], n, 0); ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); return s; }

// an experiment: what is on the command line and in the files
struct Exp {
  vector<string> images;       // lines
  vector<string> gt, init;     // lines, "" = nothing
  bool use_init = false, end_images = true, end_gt = true; int reinit = 0; double thr = -1; string thr_text; bool timings = true; vector<string> extra; string want_props;
  vector<pair<int, int>> size; // of the image of a frame, for bounds
};
struct Result { int code = 0; vector<string> out, time; bool wrote = false, timed = false; string text; };
static vector<string> lines(const string& s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
static string join(const vector<string>& v, const char* d = "\n") { string s; for (auto& x : v) s += x + d; return s; }
static int call_cli(vector<string> a) {
  vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); optind = 0; opterr = 0;
  try { return cli_main((int)a.size(), v.data()); } catch (Exit& e) { return e.code; }
}
static string trim(string s, bool end) { if (!end && !s.empty()) s.pop_back(); return s; }
static Result run(Ctx& c, const Exp& e) {
  S.log.clear(); S.live = S.made = S.waits = 0; S.watchdog = nullptr; vtime = 1000; 
  string im = put("images", trim(join(e.images), e.end_images)), gt = put("groundtruth", trim(join(e.gt), e.end_gt)), in = put("init", join(e.init)), out = dir() + "/output", tm = dir() + "/timings"; static const string OLD(600, '9'); cache.erase("output"); cache.erase("timings"); put("output", OLD); if (e.timings) put("timings", OLD);
  vector<string> a = {"traxclient", "-I", im, "-G", gt, "-O", out}; if (e.use_init) { a.push_back("-S"); a.push_back(in); } if (e.reinit) { a.push_back("-r"); a.push_back(to_string(e.reinit)); } if (!e.thr_text.empty()) { a.push_back("-f"); a.push_back(e.thr_text); }
  if (e.timings) { a.push_back("-T"); a.push_back(tm); } for (auto& x : e.extra) a.push_back(x); a.push_back("--"); a.push_back("tracker"); a.push_back("with argument");
  Result r;
  try { r.code = call_cli(a); } catch (mc::Violation&) { throw; } catch (mc::Skip&) { throw; } catch (mc::Prune&) { throw; }
  catch (std::exception& x) { c.fail("exception", string("the program ends with an uncaught exception: ") + x.what()); }
  c.step(); if (S.live) c.fail("left", "the tracker process is left behind");
  string o = bytes(out); r.wrote = o != OLD; if (r.wrote) { vector<trax::Region> t; trax::load_trajectory(out, t); for (auto& x : t) r.out.push_back(show(x)); }
  if (e.timings) { string t = bytes(tm); r.timed = t != OLD; if (r.timed) r.time = lines(t); }
  return r;
}

// ---------------------------------------------------------------- the reference
static trax::Region region(const string& line) { trax::Region r; if (!line.empty()) { std::istringstream i(line + "\n"); i >> r; } return r; }
static string norm(const string& line) { static map<string, string> m; auto it = m.find(line); if (it != m.end()) return it->second; return m[line] = show(region(line)); }
static string code(int k) { return show(trax::Region::create_special(k)); }
struct Rep { int fate; string status; double overlap; };
struct Want { bool ok = true; vector<Call> calls; vector<string> out, time; vector<int> begin, fate; vector<pair<int, trax::Region>> replies; string story; };
// ask: fate of the start, the initialization or the frame;  reply: fate of a wait;  images: the call the line of the list ends in
typedef std::function<int(const char*)> Ask; typedef std::function<Rep(size_t)> Reply;
static Want reference(const Exp& e, const string& props, Ask ask, Reply reply, std::function<string(size_t)> images) {
  Want w; size_t n = std::min(e.images.size(), e.gt.size()), f = 0; auto& init = e.use_init ? e.init : e.gt; int k = 0;
  auto empty = [&](size_t i) { return i >= init.size() || init[i].empty(); };
  auto put = [&](const string& o, long t) { w.out.push_back(o); w.time.push_back(to_string(t)); };
  auto err = [&] { w.ok = false; return w; };
  w.calls.push_back({"start"}); int b = ask("start"); w.begin.push_back(b); if (b != ANSWER) return err();
  while (f < n) {
    if (empty(f)) { put(code(0), 0); f++; continue; }
    string im = images(f); if (im.empty()) return err();
    w.calls.push_back({"initialize", im, norm(init[f]), props}); int a = ask("initialize"); w.fate.push_back(a); if (a != ANSWER) return err();
    bool first = true, lost = false; long spent = S.cost_init;
    for (;;) {
      w.calls.push_back({"wait"}); Rep r = reply(f); w.replies.push_back({r.fate, region(r.status)}); spent += S.cost_wait + k++;
      if (r.fate == DIES || r.fate == THROWS) return err();
      if (r.fate == QUIT || (e.thr >= 0 && r.overlap <= e.thr)) { lost = true; break; }
      put(first ? code(1) : norm(r.status), spent); first = false; if (++f == n) break;
      im = images(f); if (im.empty()) return err();
      w.calls.push_back({"frame", im, "", ""}); a = ask("frame"); w.fate.push_back(a); if (a != ANSWER) return err(); spent = S.cost_frame;
    }
    if (!lost) break;
    put(code(2), 0); f++;
    for (int j = 1; (!e.reinit || j < e.reinit) && f < n; j++, f++) put(code(0), 0);
    if (!e.reinit) break;
    bool more = false; for (size_t j = f; j < n; j++) if (!empty(j)) more = true;
    if (more) { w.calls.push_back({"reset"}); b = ask("reset"); w.begin.push_back(b); if (b != ANSWER) return err(); }
  }
  return w;
}
static string text(const vector<Call>& v) { string s; for (auto& x : v) s += x.what + (x.images.empty() ? "" : " " + x.images) + (x.region.empty() ? "" : " [" + x.region + "]") + (x.props.empty() ? "" : " {" + x.props + "}") + "\n"; return s; }
static vector<Call> essential(vector<Call> v) { vector<Call> r; for (auto& x : v) if (x.what != "query") r.push_back(x); while (!r.empty() && r.back().what == "reset") r.pop_back(); return r; }
static bool same(const string& a, const string& b) { return a == b; }
// images may differ in form: then forms tells what is acceptable for the frame
static void compare(Ctx& c, const Exp& e, const Want& w, const Result& r, std::function<bool(const string& want, const string& got)> forms = same) {
  auto got = essential(S.log), want = essential(w.calls); if (!w.ok && !want.empty() && w.calls.back().what == "reset") { want = w.calls; got.clear(); for (auto& x : S.log) if (x.what != "query") got.push_back(x); }
  bool eq = got.size() == want.size(); for (size_t i = 0; eq && i < got.size(); i++) eq = got[i].what == want[i].what && got[i].region == want[i].region && got[i].props == want[i].props && forms(want[i].images, got[i].images);
  string ctx = "images:\n" + join(e.images) + "groundtruth:\n" + join(e.gt) + (e.use_init ? "initialization:\n" + join(e.init) : "") + "threshold " + e.thr_text + " reinitialize " + to_string(e.reinit) + "\n";
  if (!eq) c.fail("calls", ctx + "the tracker should see\n" + text(want) + "and sees\n" + text(got));
  if (w.ok != (r.code == 0)) c.fail("exit", ctx + "exit code " + to_string(r.code) + (w.ok ? " after a complete run" : " although the run failed") + "\n" + text(got));
  if (!w.ok || w.out.empty()) return;
  if (!r.wrote || r.out != w.out) c.fail("output", ctx + text(got) + "output should be\n" + join(w.out) + "and is\n" + (r.wrote ? join(r.out) : "not written"));
  if (e.timings && (!r.timed || r.time != w.time)) c.fail("timing", ctx + text(got) + "timings should be\n" + join(w.time) + "and are\n" + (r.timed ? join(r.time) : "not written"));
}
static Result perform(Ctx& c, const Exp& e, const Want& w) {
  size_t b = 0, f = 0, k = 0; S.ask = [&](const char* what) { bool s = !strcmp(what, "query") || !strcmp(what, "reset"); auto& v = s ? w.begin : w.fate; size_t& i = s ? b : f; return i < v.size() ? v[i++] : (int)ANSWER; };
  S.reply = [&]() -> pair<int, trax::Region> { if (k < w.replies.size()) return w.replies[k++]; return {QUIT, trax::Region()}; };
  return run(c, e);
}
// gives the outcome of a piece of work that is done in a process of its own
static void apart(Ctx& c, const std::function<void()>& f) {
  int p[2]; if (pipe(p)) c.fail("harness", "pipe"); pid_t pid = fork();
  if (!pid) { close(p[0]); string s = "ok"; try { f(); } catch (mc::Violation& v) { s = v.key + "\n" + v.msg; } catch (Exit& x) { s = "harness\nexit"; } size_t n = write(p[1], s.data(), s.size()); (void)n; _exit(0); }
  close(p[1]); string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(pid, &st, 0);
  if (s == "ok") return; if (s.empty()) c.fail("crash", "the program crashed, status " + to_string(st)); size_t q = s.find('\n'); c.fail(s.substr(0, q), s.substr(q + 1));
}

// ---------------------------------------------------------------- scenarios
static string gtline(size_t f) { return to_string(10 + 100 * f) + ",10,10,10"; }
static string initline(size_t f) { return to_string(11 + 100 * f) + ",12,13,14"; }
static Rep status(size_t f, int k) {   // the tracker's answer in a frame: where the object is, half way off, elsewhere
  string x = to_string(100 * f + (k == 0 ? 10 : k == 1 ? 15 : 60)); return {ANSWER, x + ",10,10,10", k == 0 ? 1 : k == 1 ? 50. / 150 : 0};
}
static string imline(size_t f) { return "/data/im" + to_string(f) + ".jpg"; }
static const char* THR[] = {"", "0", "0.4", "1", "-3", "8"}; static const double THRV[] = {-1, 0, .4, 1, 0, 1};
static string plain(const Exp& e, size_t f) { return "color=path " + e.images[f] + ";"; }
static void options(Exp& e, int t, int r) { e.thr_text = THR[t]; e.thr = THRV[t]; e.reinit = r; }

// image files
struct File { string name, data; int w, h; vector<unsigned char> rgb; };
static vector<File> FILES; static const char* KINDS[] = {"png", "jpeg", "jpeg-exif", "jpeg-progressive", "jpeg-comment", "gif", "gif-big", "ppm", "short", "jpeg-cut"}; static const int NK = 10;
static bool sized(int k) { return k < 7; } static bool decodable(int k) { return k < 5 || k == 7; }
static string fpath(int k, int s) { return BASE + "/" + KINDS[k] + to_string(s); }
static void make_files() {
  for (int k = 0; k < NK; k++) for (int s = 0; s < 3; s++) {
    int w = s == 1 ? 40 : s == 2 ? 300 : 600, h = s == 2 ? 40 : 600; if (k == 6) w += 0;
    cv::Mat m(h, w, CV_8UC3); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m.at<cv::Vec3b>(y, x) = cv::Vec3b(x * 7 + y, y * 3, x ^ y);
    vector<unsigned char> b; string d;
    if (k == 0) cv::imencode(".png", m, b); else if (k == 7) cv::imencode(".ppm", m, b); else if (k == 3) cv::imencode(".jpg", m, b, {cv::IMWRITE_JPEG_PROGRESSIVE, 1}); else if (k < 5 || k == 9) cv::imencode(".jpg", m, b);
    d.assign(b.begin(), b.end());
    auto seg = [](int marker, const string& body) { string r = "\xff"; r += (char)marker; r += (char)((body.size() + 2) >> 8); r += (char)((body.size() + 2) & 255); return r + body; };
    if (k == 2) d = d.substr(0, 2) + seg(0xE1, string("Exif\0\0", 6) + string(700, '\xC0')) + d.substr(20);
    if (k == 4) d = d.substr(0, 20) + seg(0xFE, "a remark that is longer than the header of the file") + d.substr(20);
    if (k == 9) d = d.substr(0, 60);
    if (k == 5 || k == 6) { d = k == 5 ? "GIF89a" : "GIF87a"; for (int v : {w, h}) { d += (char)(v & 255); d += (char)(v >> 8); } d += string(40, '\x21'); }
    if (k == 8) d = "BM 23 bytes of no image";
    std::ofstream(fpath(k, s), std::ios::binary) << d;
  }
}
static string pixels(const string& f) {
  static map<string, string> m; auto it = m.find(f); if (it != m.end()) return it->second;
  cv::Mat b = cv::imread(f); string s; for (int y = 0; y < b.rows; y++) for (int x = 0; x < b.cols; x++) { auto v = b.at<cv::Vec3b>(y, x); s += (char)v[2]; s += (char)v[1]; s += (char)v[0]; }
  return m[f] = "memory " + to_string(b.cols) + "x" + to_string(b.rows) + " " + hex(s);
}
static string buffer_of(const string& f) { static map<string, string> m; auto it = m.find(f); if (it != m.end()) return it->second; return m[f] = "buffer " + hex(bytes(f)); }

int main(int argc, char** argv) {
  Main m("P07"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); S = Script(); };
  unsetenv("TRAX_BOUNDED_OVERLAP"); unsetenv("TRAX_REGION_LEGACY"); unsetenv("POSIXLY_CORRECT");
  BASE = string(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + "/mcp07-" + to_string(getpid()); mkdir(BASE.c_str(), 0700); make_files();
  bool T = m.thorough; int L = T ? 6 : 5; pid_t self = getpid();
  auto ok = [](const char*) { return (int)ANSWER; };
  m.bounds = {"every experiment of up to " + to_string(L) + " frames: frames with and without initialization x threshold none, 0, 0.4, 1 x -r none, 1, 2, 3 x every sequence of answers (on the object, half off, elsewhere, the tracker quits)",
              "every combination of 0.." + to_string(L) + " images, groundtruth and initialization lines, terminated or not", "every failure of a start, initialization, frame or wait, by return value or exception, in experiments of up to " + to_string(L) + " frames",
              "every set of channels and image formats x image lists of 1..4 columns x existing or missing files", "bounded overlap: " + to_string(NK) + " kinds of image file x 3 sizes per frame x path, buffer and memory", "every switch, alone and in combination"};
  m.add("flow", 0, 4, [=](Ctx& c) {
    Exp e; int n = 1 + c.choose(L), t = c.choose(4), r = c.choose(4); options(e, t, r); e.use_init = c.choose(2); unsigned mask = e.use_init || t == 0 ? c.choose(1 << n) : 0;
    for (int i = 0; i < n; i++) { e.images.push_back(imline(i)); bool none = mask >> i & 1; if (!e.use_init) e.gt.push_back(none ? "" : gtline(i)); else { e.gt.push_back(gtline(i)); e.init.push_back(none ? "" : initline(i)); } }
    if (!e.gt.empty() && e.gt.back().empty() && n > 1 && !e.use_init) {}
    string seq; Want w = reference(e, "", ok, [&](size_t f) { int k = c.choose(t ? 4 : 2); seq += "sheq"[t ? k : k ? 3 : 0]; if (t ? k == 3 : k == 1) return Rep{QUIT, "", 0}; return status(f, k); }, [&](size_t f) { return plain(e, f); });
    c.trace("%d frames, initializations missing %x, threshold '%s', -r %d, answers %s", n, mask, THR[t], r, seq.c_str()); c.state(join(w.out, ",") + text(w.calls)); Result q = perform(c, e, w); compare(c, e, w, q); c.outcome(w.ok ? "complete" : "failed");
  });
  m.add("lengths", 0, 3, [=](Ctx& c) {
    Exp e; int a = c.choose(L + 1), b = c.choose(L + 1); e.use_init = c.choose(2); int s = e.use_init ? c.choose(L + 1) : 0, r = c.choose(2); e.end_images = c.choose(2); e.end_gt = c.choose(2); options(e, 0, r); e.timings = c.choose(2);
    if (std::min(a, b) == 0) throw Prune();
    for (int i = 0; i < a; i++) e.images.push_back(imline(i)); for (int i = 0; i < b; i++) e.gt.push_back(gtline(i)); for (int i = 0; i < s; i++) e.init.push_back(i == 1 ? "" : initline(i));
    Want w = reference(e, "", ok, [&](size_t f) { if (c.choose(2)) return Rep{QUIT, "", 0}; return status(f, 1); }, [&](size_t f) { return plain(e, f); });
    c.state(join(w.out, ",") + to_string(a) + "," + to_string(b) + "," + to_string(s)); Result q = perform(c, e, w); compare(c, e, w, q); c.outcome("lengths");
  });
  m.add("faults", 0, 3, [=](Ctx& c) {
    Exp e; int n = 1 + c.choose(L), r = c.choose(3), skip = n > 1 ? c.choose(2) : 0; options(e, 2, r); e.use_init = true;
    for (int i = 0; i < n; i++) { e.images.push_back(imline(i)); e.gt.push_back(gtline(i)); e.init.push_back(i == 0 && skip ? "" : initline(i)); }
    Want w = reference(e, "", [&](const char* what) { static const int F[] = {ANSWER, DIES, THROWS}; int k = c.choose(3); if (k) c.trace("%s fails", what); return F[k]; }, [&](size_t f) { int k = c.choose(5); static const int F[] = {ANSWER, ANSWER, QUIT, DIES, THROWS}; if (k > 1) return Rep{F[k], "", 0}; return status(f, k ? 2 : 0); }, [&](size_t f) { return plain(e, f); });
    c.state(text(w.calls)); Result q = perform(c, e, w); compare(c, e, w, q); c.outcome(w.ok ? "complete" : "failed");
  });
  m.add("images", 0, 2, [=](Ctx& c) {
    static const int FM[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_BUFFER, TRAX_IMAGE_MEMORY, TRAX_IMAGE_URL}, CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}; static const char* N[] = {"color", "depth", "ir"};
    int ch = 1 + c.choose(7), fm = 1 + c.choose(15), cols = 1 + c.choose(4), n = 2, gone = c.choose(2 * std::min(cols, 3) + 1); S.channels = S.formats = 0; for (int i = 0; i < 3; i++) if (ch >> i & 1) S.channels |= CH[i]; for (int i = 0; i < 4; i++) if (fm >> i & 1) S.formats |= FM[i];
    for (int i = 0; i < 3; i++) if ((ch >> i & 1) && i >= cols) throw Prune();   // a channel that the list does not have
    Exp e; options(e, 0, 0); vector<vector<string>> p(n);
    for (int f = 0; f < n; f++) { string l; for (int k = 0; k < cols; k++) { string x = gone && (gone - 1) / std::min(cols, 3) == f && (gone - 1) % std::min(cols, 3) == k ? BASE + "/nothing" : fpath(k & 1 ? 4 : f ? 1 : 0, (k + f) % 3); p[f].push_back(x); l += (k ? ";" : "") + x; } e.images.push_back(l); e.gt.push_back(gtline(f)); }
    // every form of an image that the tracker accepts
    auto forms = [&](size_t f, int k) { vector<string> r; bool there = !access(p[f][k].c_str(), R_OK); if (fm & 1) r.push_back("path " + p[f][k]); if ((fm & 2) && there) r.push_back(buffer_of(p[f][k])); if ((fm & 4) && there) r.push_back(pixels(p[f][k])); return r; };
    auto want = [&](size_t f) { string s = "frame " + to_string(f); for (int k = 0; k < 3; k++) if ((ch >> k & 1) && forms(f, k).empty()) return string(); return s; };
    Want w = reference(e, "", ok, [&](size_t f) { return status(f, 0); }, want);
    auto fits = [&](const string& want, const string& got) {
      if (want.empty()) return got.empty(); size_t f = atoi(want.c_str() + 6), q = 0;
      for (int k = 0; k < 3; k++) if (ch >> k & 1) { bool any = false; for (auto& x : forms(f, k)) { string t = string(N[k]) + "=" + x + ";"; if (got.compare(q, t.size(), t) == 0) { q += t.size(); any = true; break; } } if (!any) return false; }
      return q == got.size();
    };
    c.trace("channels %d, formats %d, %d columns, missing file %d", ch, fm, cols, gone); c.state(((uint64_t)ch << 20) + (fm << 10) + cols * 100 + gone + 1); Result q = perform(c, e, w); compare(c, e, w, q, fits); c.outcome(w.ok ? "images" : "images-refused");
  });
  m.add("bounded", 0, 2, [=](Ctx& c) {
    static const int FM[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_BUFFER, TRAX_IMAGE_MEMORY}; static const char* V[] = {"true", "TRUE", "false", "1", ""};
    int fm = c.choose(3), k = c.choose(NK), n = T ? 3 : 2, v = k == 0 ? c.choose(5) : 0, axis = c.choose(2), chan = c.choose(3); if ((fm == 2 && !decodable(k)) || (fm == 1 && k >= 5 && k < 9)) throw Prune(); /* a buffer holds a JPEG or PNG file */ S.formats = FM[fm]; S.channels = 1 << chan;
    Exp e; options(e, 2, c.choose(2)); vector<int> size; for (int f = 0; f < n; f++) { size.push_back(c.choose(3)); e.images.push_back(string(chan, ';') + fpath(k, size[f])); e.gt.push_back(axis ? "10,35,10,10" : "35,10,10,10"); }
    auto shown = [&](size_t f) { string x = fpath(k, size[f]); static const char* N[] = {"color", "depth", "ir"}; return string(N[chan]) + "=" + (fm == 0 ? "path " + x : fm == 1 ? buffer_of(x) : pixels(x)) + ";"; };
    Want w = reference(e, "", ok, [&](size_t f) {   // a third of the union is common, half of what lies inside of the image
      bool inside = v < 2 && size[f] == (axis ? 2 : 1) && (fm == 2 || sized(k)); return Rep{ANSWER, axis ? "10,30,10,10" : "30,10,10,10", inside ? .5 : 1. / 3}; }, shown);
    c.trace("%s, form %d, TRAX_BOUNDED_OVERLAP=%s", KINDS[k], fm, V[v]); c.state(text(w.calls) + V[v] + join(w.out)); if (*V[v]) setenv("TRAX_BOUNDED_OVERLAP", V[v], 1); Result q;
    try { q = perform(c, e, w); } catch (...) { unsetenv("TRAX_BOUNDED_OVERLAP"); throw; } unsetenv("TRAX_BOUNDED_OVERLAP"); compare(c, e, w, q); c.outcome(KINDS[k]);
  });
  auto tokens = [](const string& s) { vector<string> r; size_t i = 0; while (i < s.size()) { if (isspace((unsigned char)s[i])) { i++; continue; } string t; while (i < s.size() && !isspace((unsigned char)s[i])) { if (s[i] == '"') { i++; while (i < s.size() && s[i] != '"') t += s[i++]; i++; } else t += s[i++]; } r.push_back(t); } return r; };
  m.add("switches", 0, 3, [=](Ctx& c) {
    struct O { vector<string> arg; int what; string a, b; }; enum { NONE, VERB, CONN, TIME, ENV, PROP };
    static const vector<O> OPT = {{{}, NONE}, {{"-d"}, VERB, "2"}, {{"-s"}, VERB, "0"}, {{"-x"}, CONN, "1"}, {{"-X"}, CONN, "2"}, {{"-t", "5"}, TIME, "5"}, {{"-t", "0"}, TIME, "0"}, {{"-t", "-4"}, TIME, "0"},
      {{"-e", "A=1"}, ENV, "A", "1"}, {{"-e", "B=x=y z"}, ENV, "B", "x=y z"}, {{"-e", "A="}, ENV, "A", ""}, {{"-p", "k=v"}, PROP, "k", "v"}, {{"-p", "long.key=a=b \"c\" \\"}, PROP, "long.key", "a=b \"c\" \\"}, {{"-pk=w"}, PROP, "k", "w"}, {{"-p", "e="}, PROP, "e", ""}};
    bool query = c.choose(2); int N = T ? 4 : 3; vector<string> extra; map<string, string> env, props; int verb = 1, conn = 0, time = 30; string story;
    for (int i = 0; i < N; i++) { auto& o = OPT[c.choose(OPT.size())]; if (o.what == NONE) break; for (auto& x : o.arg) { extra.push_back(x); story += x + " "; } if (o.what == VERB) verb = atoi(o.a.c_str()); if (o.what == CONN) conn = atoi(o.a.c_str()); if (o.what == TIME) time = atoi(o.a.c_str()); if (o.what == ENV) env[o.a] = o.b; if (o.what == PROP) props[o.a] = o.b; }
    string want; for (auto& p : props) want += p.first + "=" + p.second + ";"; int fate = query ? c.choose(3) : 0, intr = c.choose(2);
    c.trace("%s%s, the start %s", query ? "-Q " : "", story.c_str(), fate == 0 ? "succeeds" : "fails"); c.state(story + to_string(query * 4 + fate)); c.step();
    apart(c, [&] {
      int fd = memfd_create("out", 0); dup2(fd, 1); Exp e; e.extra = extra; string ran;
      if (query) {
        e.extra.push_back("-Q"); S.ask = [&](const char* w) { ran += w; if (intr) raise(SIGINT); return fate == 0 ? (int)ANSWER : fate == 1 ? (int)DIES : (int)THROWS; }; e.timings = false; Result q;
        vector<string> a = {"traxclient", "-I", "/nonexistent/images", "-G", "/nonexistent/gt"}; for (auto& x : e.extra) a.push_back(x); a.push_back("--"); a.push_back("tracker"); a.push_back("with argument");
        try { q.code = call_cli(a); } catch (std::exception& x) { c.fail("exception", x.what()); }
        string out = slurp_fd(fd); if ((q.code == 0) != (fate == 0)) c.fail("query", story + ": exit code " + to_string(q.code)); if (S.live) c.fail("left", "the tracker process is left behind");
        if (essential(S.log).size() != 1) c.fail("query", "the tracker sees\n" + text(S.log)); if (ran.empty()) c.fail("query", "the tracker is not asked to introduce itself");
        if (fate == 0) for (auto* x : {"Name", "What it does", "Its family"}) if (out.find(x) == string::npos) c.fail("query", "the introduction is not printed: " + mc::esc(out));
      } else {
        for (int f = 0; f < 2; f++) { e.images.push_back(imline(f)); e.gt.push_back(gtline(f)); }
        Want w = reference(e, want, [](const char*) { return (int)ANSWER; }, [&](size_t f) { return status(f, 0); }, [&](size_t f) { return plain(e, f); }); size_t k = 0; bool before = false, after = true;
        S.ask = [](const char*) { return (int)ANSWER; }; S.reply = [&] { if (k == 0 && intr) { before = S.watchdog && S.watchdog(); raise(SIGINT); after = S.watchdog && S.watchdog(); } return w.replies[k++]; };
        Result q = run(c, e); compare(c, e, w, q); if (before || !after) c.fail("interrupt", "the program is not stopped by an interrupt");
      }
      if (!S.watchdog) c.fail("interrupt", "no watchdog is registered"); if (S.watchdog() != (bool)intr) c.fail("interrupt", "watchdog: " + to_string(S.watchdog()));
      if (S.made != 1 || tokens(S.command) != vector<string>{"tracker", "with argument"}) c.fail("command", S.command);
      if (S.env != env) c.fail("environment", story); if (S.timeout != time) c.fail("timeout", story + ": " + to_string(S.timeout)); if (S.connection != conn) c.fail("connection", story + ": " + to_string(S.connection)); if (S.verbosity != verb) c.fail("verbosity", story + ": " + to_string(S.verbosity));
    });
    c.outcome(query ? "query" : "switches");
  });
  m.add("refused", 0, 1, [=](Ctx& c) {
    int k = c.choose(8); c.step(); c.state(k + 1);
    apart(c, [&] {
      int fd = memfd_create("out", 0); dup2(fd, 1); string im = put("images", "/a.jpg\n"), gt = put("groundtruth", "1,2,3,4\n"); S.ask = [](const char*) { return (int)ANSWER; }; S.reply = [] { return std::make_pair((int)ANSWER, region("1,2,3,4")); };
      vector<string> a = {"traxclient", "-O", dir() + "/output", "-G", gt}; bool bad = true; string out = dir() + "/output"; unlink(out.c_str()); vector<string> cmd = {"--", "tracker"};
      switch (k) {
        case 0: a.push_back("-I"); a.push_back(dir() + "/no-such"); break;
        case 1: a.push_back("-I"); a.push_back(im); cmd.clear(); break;
        case 2: a.push_back("-I"); a.push_back(im); a.push_back("-Z"); break;
        case 3: a.push_back("-h"); bad = false; break;
        case 4: a.push_back("-I"); a.push_back(im); a.push_back("-h"); cmd.clear(); bad = false; break;
        case 5: a.push_back("-Q"); cmd.clear(); break;
        case 6: a.push_back("-I"); a.push_back(im); a.push_back("-e"); cmd.clear(); break;    // (its value is missing)
        case 7: a.push_back("-Z"); cmd.clear(); break;
      }
      for (auto& x : cmd) a.push_back(x); int code = 0; try { code = call_cli(a); } catch (std::exception& x) { c.fail("exception", x.what()); }
      string o = slurp_fd(fd); if ((code != 0) != bad) c.fail("refused", join(a, " ") + ": exit code " + to_string(code)); if (S.made || !S.log.empty()) c.fail("refused", join(a, " ") + ": a tracker was started"); if (k && o.find("Usage") == string::npos) c.fail("refused", join(a, " ") + ": no help");
      if (!access(out.c_str(), F_OK)) c.fail("refused", "an output was written");
    });
    c.outcome("refused");
  });
  int r = m.run(); if (getpid() == self) { string cmd = "find '" + BASE + "' -mindepth 1 -delete; rmdir '" + BASE + "'"; int x = system(cmd.c_str()); (void)x; }
  return r;
}
