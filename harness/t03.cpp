// T03: the MATLAB/Octave functions.  traxserver and traxclient are compiled against a strict stand-in for
// the MEX interface; traxserver talks to a real C client, traxclient drives a scripted tracker.
#include "newcount.hpp"
#include "ref.hpp"
#include <bits/stdc++.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <unistd.h>
#include "mex/mex.hpp"
#include "octave/config.h"
#include "octave/quit.h"
#include "octave/sighandlers.h"
#include "octave/version.h"
#include <trax/client.hpp>
using namespace mc; using ref::string; using ref::vector; using ref::Props; using std::map; using std::pair; using std::to_string;
#undef TRAX_ENVIRONMENT
#include "helpers.h"

// ---------------------------------------------------------------- the scripted tracker of traxclient
enum Answer { ANSWER, QUIT, THROWS };
struct Script {
  std::function<int(const char*)> ask; std::function<trax::Region(int)> reply; trax::Metadata meta; long cost = 40; int waits = 0, live = 0, made = 0;
  vector<string> log; string command, directory; map<string, string> env; int timeout = -1, connection = -1, verbosity = -1; std::ostream* out = nullptr; trax::WatchdogCallback* watchdog = nullptr; string said; bool up = false, on = false, interrupt = false;
};
static Script* S = nullptr; static long vtime = 0;
static string show(const trax::Region& r) { if (r.empty()) return "empty"; std::ostringstream o; o << r; string s = o.str(); while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static string show(const trax::Image& i) {
  switch (i.type()) {
    case TRAX_IMAGE_PATH: return "path " + i.get_path(); case TRAX_IMAGE_URL: return "url " + i.get_url();
    case TRAX_IMAGE_MEMORY: { int w, h, f; i.get_memory_header(&w, &h, &f); string s = "mem " + to_string(w) + "x" + to_string(h) + " " + to_string(f) + ":"; int b = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; for (int y = 0; y < h; y++) { const char* r = i.get_memory_row(y); for (int x = 0; x < w * b; x++) s += to_string((unsigned char)r[x]) + ","; } return s; }
    case TRAX_IMAGE_BUFFER: { int l, f; const char* p = i.get_buffer(&l, &f); return "buf " + string(p, l); }
  } return "none";
}
static string show(const trax::ImageList& l) { string s; for (int c : {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}) if (l.has(c)) s += to_string(c) + "=" + show(l.get(c)) + ";"; return s; }
static void each(const char* k, const char* v, const void* o) { (*(Props*)o)[k] = v; }
static Props props(const trax::Properties& q) { trax::Properties p(q); Props m; p.enumerate(each, &m); return m; }
namespace trax {
class FakeTracker {
 public:
  FakeTracker(const string& command, const map<string, string> environment = map<string, string>(), int timeout = 10, ConnectionMode connection = CONNECTION_DEFAULT, VerbosityMode verbosity = VERBOSITY_DEFAULT, string directory = string(), std::ostream* log = NULL) {
    S->command = command; S->env = environment; S->timeout = timeout; S->connection = connection; S->verbosity = verbosity; S->directory = directory; S->out = log; S->made++; say("start"); S->live++;
    if (S->ask("start") != ANSWER) { S->live--; throw std::runtime_error("Unable to start"); }
  }
  ~FakeTracker() { S->live--; }
  FakeTracker(const FakeTracker&) = delete;
  Metadata metadata() { if (!S->up) throw std::runtime_error("Tracker not initialized yet."); return S->meta; }
  bool ready() const { return S->up; }
  bool tracking() const { return S->up && S->on; }
  bool query() { if (S->up) return true; return begin("query"); }
  bool initialize(const ImageList& image, const Region& region, const Properties& properties = Properties()) { query(); if (!S->up) throw std::runtime_error("Tracker process not alive"); S->on = false; return fate("initialize", "initialize " + ::show(image) + ::show(region) + ref::dprops(::props(properties))); }
  bool frame(const ImageList& image, const Properties& properties = Properties()) { need(); return fate("frame", "frame " + ::show(image) + ref::dprops(::props(properties))); }
  bool wait(Region& region, Properties& properties) {
    need(); vtime += S->cost; say("wait"); int n = S->waits++;
    switch (S->ask("wait")) { case ANSWER: region = S->reply(n); properties = Properties(); properties.set("n", n); properties.set("a.b", std::string("x y")); return true; case QUIT: S->on = false; return false; }
    S->on = S->up = false; throw std::runtime_error("Unable to retrieve response");
  }
  bool reset() { S->up = S->on = false; return begin("reset"); }
  void register_watchdog(WatchdogCallback* callback) { S->watchdog = callback; }
  bool multiobject() const { return false; }
 private:
  void say(const string& w) { S->log.push_back(w); if (S->out) { *S->out << w.substr(0, w.find(' ')) << "\n"; S->said += w.substr(0, w.find(' ')) + "\n"; } }
  void need() { if (!S->up) throw std::runtime_error("Tracker process not alive"); if (!S->on) throw std::runtime_error("Tracker not initialized yet."); }
  bool begin(const char* what) { say(what); int a = S->ask(what); if (a == ANSWER) return S->up = true; if (a == THROWS) throw std::runtime_error("Unable to connect"); return false; }
  bool fate(const char* what, const string& w) { vtime += 3; say(w); int a = S->ask(what); if (a == ANSWER) return S->on = true; S->up = false; if (a == THROWS) throw std::runtime_error("broken"); return false; }
};
static timer_state fake_clock() { return (timer_state)vtime; }
static double fake_elapsed(timer_state begin) { return (double)(vtime - (long)begin); }
}
namespace server_side {
#include "traxserver.cpp"
}
#define TrackerProcess FakeTracker
#define timer_clock fake_clock
#define timer_elapsed fake_elapsed
namespace client_side {
#include "traxclient.cpp"
}
#undef TrackerProcess
#undef timer_clock
#undef timer_elapsed

// ---------------------------------------------------------------- calling a MEX function
typedef vector<mxArray*> Arrays;
static mxArray* str(const string& s) { return mx::text(s); }
static mxArray* dbl(const vector<double>& v, bool column = false) { auto* a = mx::make(mxDOUBLE_CLASS, column ? vector<mwSize>{v.size(), 1} : vector<mwSize>{1, v.size()}); if (!v.empty()) memcpy(a->data, v.data(), v.size() * sizeof(double)); return a; }
static mxArray* num(double v) { return dbl({v}); }
static mxArray* mat(mxClassID cls, vector<mwSize> d) { auto* a = mx::make(cls, d); for (size_t i = 0; i < mx::count(a); i++) { double v = 1 + i % 7; switch (cls) { case mxDOUBLE_CLASS: ((double*)a->data)[i] = v; break; case mxSINGLE_CLASS: ((float*)a->data)[i] = v; break; case mxUINT16_CLASS: case mxINT16_CLASS: ((uint16_t*)a->data)[i] = 256 * v + 3; break; case mxINT32_CLASS: ((int*)a->data)[i] = v; break; default: if (mx::size_of(cls) == 1) a->data[i] = (char)(cls == mxLOGICAL_CLASS ? i % 2 : v); } } return a; }
static mxArray* cell(mwSize m, mwSize n, const Arrays& e) { auto* a = mx::make(mxCELL_CLASS, {m, n}); for (size_t i = 0; i < e.size(); i++) { a->el[i] = e[i]; if (e[i]) e[i]->parent = a; } return a; }
static mxArray* row(const Arrays& e) { return cell(1, e.size(), e); }
static mxArray* strukt(const vector<pair<string, mxArray*>>& f, mwSize n = 1) { auto* a = mx::make(mxSTRUCT_CLASS, {n, n ? 1u : 0u}); for (auto& x : f) { a->names.push_back(x.first); } a->el.assign(f.size() * n, nullptr); for (size_t i = 0; i < f.size() && n; i++) { a->el[i] = f[i].second; if (f[i].second) f[i].second->parent = a; } return a; }
struct Called { bool ok = true; string error; Arrays out; };
typedef void (*Mex)(int, mxArray*[], int, const mxArray*[]);
// arguments stay with the caller's pool until mx::reset; outputs belong to the caller
static Called call(Mex f, int nl, const Arrays& in) {
  Called r; std::set<mxArray*> before; int n = (int)in.size();
  std::unique_ptr<const mxArray*[]> prhs(new const mxArray*[n]); std::unique_ptr<mxArray*[]> plhs(new mxArray*[nl ? nl : 1]);
  for (int i = 0; i < n; i++) { mx::give(in[i]); prhs[i] = in[i]; } for (int i = 0; i < (nl ? nl : 1); i++) plhs[i] = nullptr; before = mx::live;
  try { f(nl, plhs.get(), n, prhs.get()); } catch (const mx::Error& e) { r.ok = false; r.error = e.what(); }
  // everything that the function made and does not return is released when it returns
  std::set<mxArray*> keep; std::function<void(mxArray*)> mark = [&](mxArray* a) { if (!a) return; mx::ok(a, "return"); if (!keep.insert(a).second) mx::misuse("an array returned twice"); for (auto* e : a->el) mark(e); };
  if (r.ok) for (int i = 0; i < (nl ? nl : 1); i++) { if (plhs[i] && plhs[i]->given) mx::misuse("an argument returned"); mark(plhs[i]); r.out.push_back(plhs[i]); }
  Arrays gone; for (auto* a : mx::live) if (!before.count(a) && !keep.count(a)) gone.push_back(a);
  for (auto* a : gone) if (mx::live.count(a)) { mxArray* t = a; while (t->parent && !before.count(t->parent) && !keep.count(t->parent)) t = t->parent; mx::drop(t); }
  if (!r.ok) r.out.assign(nl ? nl : 1, nullptr);
  return r;
}
static Called server(int nl, const Arrays& in) { return call(server_side::mexFunction, nl, in); }
static void assigned(Ctx& c, const Called& r, int nl) { if (r.ok) for (int i = 0; i < nl; i++) if (!r.out[i]) c.fail("unassigned", "output " + to_string(i + 1) + " was not assigned"); }
static string got_region; static Props got_props;
struct Scope {   // checks that a scenario leaves nothing behind
  Ctx& c; long live0; Scope(Ctx& k) : c(k) { { string e; mx::printed.swap(e); string f; got_region.swap(f); Props q; got_props.swap(q); } mx::on_call = nullptr; client_side::exit_cache = client_side::octave_interrupted = false; mx::reset(); live0 = mc_new_live; }
  void done() { { string e; mx::printed.swap(e); } { string e; got_region.swap(e); Props q; got_props.swap(q); } mx::reset(); shim::vfd_reset(); shim::check_balanced(c); if (mc_new_live != live0) c.fail("leak-new", to_string(mc_new_live - live0) + " blocks of operator new left"); }
};

// ---------------------------------------------------------------- traxserver and its peer, a real C client
struct Peer {
  std::shared_ptr<shim::Pipe> up = std::make_shared<shim::Pipe>(), down = std::make_shared<shim::Pipe>(); std::shared_ptr<shim::Reader> rd, sr; std::shared_ptr<shim::Writer> wr, sw; trax_handle* k = nullptr; int fi, fo; ref::Log log;
  Peer() { rd = std::make_shared<shim::Reader>(down); wr = std::make_shared<shim::Writer>(up); fi = shim::vfd_open(rd); fo = shim::vfd_open(wr); map(); }
  void map() { sr = std::make_shared<shim::Reader>(up); sw = std::make_shared<shim::Writer>(down); shim::vfd_map(0, sr); shim::vfd_map(1, sw); }
  bool connect() { k = trax_client_setup_file(fi, fo, trax_logger_setup(ref::logcb, &log, 0)); return k; }
  ~Peer() { if (k) trax_cleanup(&k); }
  Peer(const Peer&) = delete;
};
static Called setup_all(int channels = 7) { Arrays ch; if (channels & 1) ch.push_back(str("color")); if (channels & 2) ch.push_back(str("depth")); if (channels & 4) ch.push_back(str("ir")); return server(1, {str("setup"), row({str("rectangle"), str("polygon"), str("mask")}), row({str("path"), str("url"), str("memory"), str("buffer")}), str("channels"), row(ch)}); }
static bool truth(const mxArray* a) { return a && mxIsLogicalScalarTrue(a); }
static const char JPEG[] = "\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01 data"; static const char PNG[] = "\x89PNG\r\n\x1a\n more";
struct Pic { trax_image* i; string want; };   // the array that the image must become
static string dims(size_t h, size_t w, int k = 1) { return to_string(h) + "x" + to_string(w) + (k > 1 ? "x" + to_string(k) : ""); }
static Pic memory(int w, int h, int f, int content) {
  int b = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1, chans = f == TRAX_IMAGE_MEMORY_RGB ? 3 : 1; Pic p{trax_image_create_memory(w, h, f), ""};
  auto val = [&](int x, int y, int k) -> unsigned { unsigned v = content == 0 ? 1 + x + 5 * y + 40 * k : content == 1 ? 255 - (x + 5 * y + 40 * k) : 128 + (x ^ (y * 3)) + k; return f == TRAX_IMAGE_MEMORY_GRAY16 ? (v * 251) & 0xffff : v & 255; };
  for (int y = 0; y < h; y++) { char* r = trax_image_write_memory_row(p.i, y); for (int x = 0; x < w; x++) for (int k = 0; k < chans; k++) { unsigned v = val(x, y, k); if (b == 2) ((uint16_t*)r)[x] = v; else r[x * b + k] = (char)v; } }
  p.want = dims(h, w, chans) + (b == 2 ? "uint16[" : "uint8["); for (int k = 0; k < chans; k++) for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) p.want += to_string(val(x, y, k)) + ","; p.want += "]"; return p;
}
static Pic picture(int k) {
  switch (k) {
    case 0: return {trax_image_create_path("/a b.png"), "'/a b.png'"};
    case 1: return {trax_image_create_url("http://host/x y.png"), "'http://host/x y.png'"};
    case 2: return memory(2, 3, TRAX_IMAGE_MEMORY_RGB, 0);
    case 3: return memory(3, 1, TRAX_IMAGE_MEMORY_GRAY16, 0);
    case 4: return memory(2, 2, TRAX_IMAGE_MEMORY_GRAY8, 1);
    default: { const char* s = k == 5 ? JPEG : PNG; int n = k == 5 ? sizeof JPEG - 1 : sizeof PNG - 1; string w; for (int i = 0; i < n; i++) w += to_string((unsigned char)s[i]) + ","; return {trax_image_create_buffer(n, s), string("1x1<format='") + (k == 5 ? "jpeg" : "png") + "',data=" + dims(n, 1) + "uint8[" + w + "],>"}; }
  }
}
static bool same_images(const mxArray* a, const vector<string>& want) {
  string all = "1x" + to_string(want.size()) + "{"; for (auto& w : want) all += w + ","; all += "}";
  string s = mx::show(a); return s == all || (want.size() == 1 && s == want[0]);
}
struct Reg { trax_region* r; string want; };
static string nums(const vector<double>& v) { string s = "1x" + to_string(v.size()) + "double["; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%.9g,", x); s += b; } return s + "]"; }
static trax_region* rmask(int x, int y, int w, int h, unsigned bits) { trax_region* r = trax_region_create_mask(x, y, w, h); for (int i = 0; i < h; i++) { char* p = trax_region_write_mask_row(r, i); for (int j = 0; j < w; j++) p[j] = (bits >> (i * w + j)) & 1; } return r; }
// a mask anchored at the origin that holds the mask's pixels at coordinates that a matrix has
static bool same_mask(const mxArray* a, int x, int y, int w, int h, unsigned bits, string& why) {
  size_t H = std::max(0, y + h), W = std::max(0, x + w); why = "mask of " + dims(H, W) + " expected, got " + mx::show(a); if (!a) return !(H * W); if (!H || !W) return !mx::count(a);
  if (a->cls != mxUINT8_CLASS || a->dims != vector<mwSize>{H, W}) return false;
  for (size_t i = 0; i < H; i++) for (size_t j = 0; j < W; j++) { int my = (int)i - y, mxx = (int)j - x; int v = my >= 0 && mxx >= 0 ? (bits >> (my * w + mxx)) & 1 : 0; if ((a->data[j * H + i] != 0) != v) { why += " at " + dims(i, j); return false; } } return true;
}
static bool valid_name(const string& s) { if (s.empty() || (!isalpha((unsigned char)s[0]) && s[0] != '_')) return false; for (char ch : s) if (!isalnum((unsigned char)ch) && ch != '_') return false; return true; }
static void check_props(Ctx& c, const mxArray* a, const Props& want, bool as_struct) {
  string got = mx::show(a); auto bad = [&](const string& w) { c.fail("properties", w + ": " + ref::dprops(want) + " became " + got); }; if (!a) bad("no properties");
  if (as_struct) {
    if (a->cls != mxSTRUCT_CLASS || mx::count(a) != 1 || a->names.size() != want.size()) bad("not a structure with a field for each property");
    std::multiset<string> v, w; std::set<string> names; for (size_t i = 0; i < a->names.size(); i++) { if (!valid_name(a->names[i])) bad("illegal field name " + a->names[i]); if (!names.insert(a->names[i]).second) bad("field twice"); v.insert(mx::show(a->el[i])); auto it = want.find(a->names[i]); if (it != want.end() && mx::show(a->el[i]) != "'" + it->second + "'") bad("another property's value in " + a->names[i]); }
    for (auto& p : want) { w.insert("'" + p.second + "'"); if (valid_name(p.first) && !names.count(p.first)) bad("field " + p.first + " is missing"); } if (v != w) bad("values differ");
  } else {
    if (a->cls != mxCELL_CLASS || a->dims != vector<mwSize>{want.size(), 2}) bad("not a cell with a row for each property");
    std::map<string, string> m; for (size_t i = 0; i < want.size(); i++) m[mx::show(a->el[i])] = mx::show(a->el[i + want.size()]); for (auto& p : want) if (m["'" + p.first + "'"] != "'" + p.second + "'") bad("property " + p.first);
  }
}
static const vector<Props>& PROPS() { static const vector<Props> p = {{}, {{"a", "1"}}, {{"alpha", ""}, {"B_2", "x \"y\"\n"}}, {{"a.b", "1"}, {"a_b", "2"}}, {{"1st", "u"}, {"_x", "v"}, {".y", "w"}, {"z", "t"}}, {{string(60, 'k'), string(5000, 'v')}, {"utf", "\xc3\xa9"}}}; return p; }

static bool send(Peer& p, bool init, const vector<pair<int, trax_image*>>& im, trax_region* r, const Props& q) {   // from the client
  trax_image_list* l = trax_image_list_create(); for (auto& x : im) trax_image_list_set(l, x.second, x.first); trax_object_list* o = nullptr; if (init) { o = trax_object_list_create(1); trax_object_list_set(o, 0, r); } trax_properties* k = ref::mkprops(q);
  int rc = init ? trax_client_initialize(p.k, l, o, k) : trax_client_frame(p.k, l, o, k); trax_properties_release(&k); if (o) trax_object_list_release(&o); trax_image_list_clear(l); trax_image_list_release(&l); return rc == TRAX_OK;
}
static int receive(Peer& p) {   // the client's view of a reply
  got_region.clear(); got_props.clear(); trax_object_list* o = nullptr; trax_properties* q = trax_properties_create(); int rc = trax_client_wait(p.k, &o, q); got_props = ref::rprops(q);
  if (o) { if (trax_object_list_count(o) == 1) { got_region = ref::dregion(trax_object_list_get(o, 0)); for (auto& x : ref::rprops(trax_object_list_properties(o, 0))) got_props[x.first] = x.second; } trax_object_list_release(&o); }
  trax_properties_release(&q); return rc;
}
static const int CHS[] = {1, 2, 4};
static void connected(Ctx& c, Peer& p, int channels = 7) { Called r = setup_all(channels); if (!r.ok) c.fail("setup", "the set-up was refused: " + r.error); if (!truth(r.out[0])) c.fail("setup", "the set-up returned " + mx::show(r.out[0])); if (!p.connect()) c.fail("setup", "the client cannot connect: " + p.down->data); }
static void end_session(Ctx& c) { Called r = server(0, {str("quit")}); r = server(3, {str("wait")}); if (r.ok) c.fail("quit", "a session goes on after quit"); }

// images: every image on every channel set
static void images(Ctx& c, int N) {
  Scope s(c);
  { Peer p; int sets[] = {1, 2, 4, 3, 5, 6, 7}; int what = c.choose(2), channels, kind = 0, w = 0, h = 0, f = 0, content = 0;
    if (what == 0) { channels = sets[c.choose(7)]; kind = c.choose(7); } else { channels = 1 + c.choose(2); w = 1 + c.choose(N); h = 1 + c.choose(N); f = (int[]){TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB}[c.choose(3)]; content = c.choose(3); if (channels == 2) channels = 3; }
    c.trace("channels %d, kind %d, memory %dx%d format %d content %d", channels, kind, w, h, f, content); connected(c, p, channels);
    for (int k = 0; k < 2; k++) { vector<pair<int, trax_image*>> im; vector<string> want; int j = 0;
      for (int ch : CHS) if (channels & ch) { Pic q = what == 0 ? picture((kind + j * (k + 1)) % 7) : j == 0 ? memory(w, h, f, content) : memory(h, w, f, (content + 1) % 3); im.push_back({ch, q.i}); want.push_back(q.want); j++; }
      trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); if (!send(p, k == 0, im, r, {})) c.fail("client", "the client refuses the images"); trax_region_release(&r);
      int nl = k ? 3 : 1 + c.choose(3); Called a = server(nl, {str("wait")}); if (!a.ok) c.fail("wait", "wait failed: " + a.error); assigned(c, a, nl); if (!same_images(a.out[0], want)) { string e; for (auto& x : want) e += x + " "; c.fail("images", "images " + e + "became " + mx::show(a.out[0])); }
      if (nl > 1) { string e = k ? "[]" : nums({1, 2, 3, 4}); if (mx::show(a.out[1]) != e) c.fail("region", "region " + e + " became " + mx::show(a.out[1])); } if (nl > 2) check_props(c, a.out[2], {}, false);
      a = server(0, {str("status"), dbl({5, 6, 7, 8})}); if (!a.ok || receive(p) != TRAX_STATE) c.fail("status", "the reply did not arrive: " + a.error); c.step(); }
    c.outcome(what ? "memory" : "kinds"); c.state(fnvs(p.up->data)); end_session(c); }
  s.done();
}
// regions of the client
static void regions_in(Ctx& c, bool T) {
  Scope s(c);
  { Peer p; connected(c, p, 1); int kind = c.choose(3); trax_region* r; string want, why; int x = 0, y = 0, w = 0, h = 0; unsigned bits = 0;
    if (kind == 0) { static const float V[] = {0, 1.5f, -3, 1000000, 0.25f}; float a = V[c.choose(5)], b = V[c.choose(5)], d = V[1 + c.choose(2)] + 3, e = V[c.choose(5)]; if (e < 0) e = -e; r = trax_region_create_rectangle(a, b, d, e); want = nums({a, b, d, e}); }
    else if (kind == 1) { int n = 3 + c.choose(3), k = c.choose(3); vector<double> v; r = trax_region_create_polygon(n); for (int i = 0; i < n; i++) { float px = i * 2.5f - 3 * k, py = i * i + 0.25f * k; trax_region_set_polygon_point(r, i, px, py); v.push_back(px); v.push_back(py); } want = nums(v); }
    else { int M = T ? 3 : 2; w = 1 + c.choose(3); h = 1 + c.choose(M); x = c.choose(9) - 4; y = c.choose(9) - 4; bits = w * h <= 4 ? c.choose(1 << (w * h)) : (unsigned[]){0x1, 0x155, 0x1ff, 0x20, 0x6}[c.choose(5)] & ((1u << (w * h)) - 1); if (!bits) { throw Prune(); } r = rmask(x, y, w, h, bits); }
    Pic q = picture(0); int pk = c.choose(kind == 2 ? 1 : 2); c.trace("kind %d %s at %d %d size %d %d bits %x", kind, want.c_str(), x, y, w, h, bits); bool sent = send(p, true, {{1, q.i}}, r, pk ? Props{{"a", "b"}} : Props{}); trax_region_release(&r); if (!sent) throw Prune();
    Called a = server(2, {str("WAIT")}); if (!a.ok) c.fail("wait", "wait failed: " + a.error); assigned(c, a, 2); if (kind < 2 ? mx::show(a.out[1]) != want : !same_mask(a.out[1], x, y, w, h, bits, why)) c.fail("region", (kind < 2 ? "region " + want + " became " + mx::show(a.out[1]) : why));
    c.outcome(kind == 0 ? "rectangle" : kind == 1 ? "polygon" : "mask"); c.state(fnvs(p.up->data)); end_session(c); }
  s.done();
}
static void properties_in(Ctx& c) {
  Scope s(c);
  { Peer p; connected(c, p, 1); int a = c.choose((int)PROPS().size()), b = c.choose((int)PROPS().size()), form = c.choose(4); c.trace("properties %d %d, form %d", a, b, form);
    for (int k = 0; k < 2; k++) { Pic q = picture(0); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); const Props& want = PROPS()[k ? b : a]; if (!send(p, k == 0, {{1, q.i}}, r, want)) c.fail("client", "cannot send"); trax_region_release(&r);
      Arrays in{str("wait")}; if (form) { in.push_back(str(form == 1 ? "PropStruct" : "propstruct")); in.push_back(form == 3 ? num(0) : mxCreateLogicalScalar(true)); } Called o = server(3, in); if (!o.ok) c.fail("wait", "wait failed: " + o.error); check_props(c, o.out[2], want, form == 1 || form == 2);
      o = server(0, {str("status"), dbl({1, 1, 2, 2})}); if (!o.ok || receive(p) != TRAX_STATE) c.fail("status", "reply lost"); c.step(); }
    c.outcome(form == 1 || form == 2 ? "struct" : "cell"); end_session(c); }
  s.done();
}
// regions and properties of the tracker: what must arrive at the client, or a refusal
static string drect(const vector<float>& v) { trax_region* r = trax_region_create_rectangle(v[0], v[1], v[2], v[3]); string s = ref::dregion(r); trax_region_release(&r); return s; }
static string dpoly(const vector<float>& v) { trax_region* r = trax_region_create_polygon(v.size() / 2); for (size_t i = 0; i < v.size() / 2; i++) trax_region_set_polygon_point(r, i, v[2 * i], v[2 * i + 1]); string s = ref::dregion(r); trax_region_release(&r); return s; }
static string over_wire(trax_region* r) { char* t = trax_region_encode(r); trax_region* q = trax_region_decode(t); shim::raw_free(t); string s = ref::dregion(q); trax_region_release(&q); trax_region_release(&r); return s; }
enum Fate { MUST, REFUSE, EITHER };
struct RegArg { mxArray* a; Fate fate; string want; };
static RegArg region_arg(Ctx& c, bool T) {
  int k = c.choose(8);
  switch (k) {
    case 0: { int n = c.choose(11); vector<double> v; vector<float> f; for (int i = 0; i < n; i++) { v.push_back(i * 1.25 - 2 + (i == 2 || i == 3 ? 4 : 0)); f.push_back((float)v.back()); } if (n == 4) return {dbl(v), MUST, drect(f)}; if (n >= 6 && n % 2 == 0) return {dbl(v), MUST, dpoly(f)}; return {dbl(v), n == 1 ? EITHER : REFUSE, ""}; }
    case 1: { int n = 2 + c.choose(9); vector<double> v; vector<float> f; for (int i = 0; i < n; i++) { v.push_back(3 + i * i); f.push_back((float)v.back()); } return {dbl(v, true), EITHER, n == 4 ? drect(f) : n >= 6 && n % 2 == 0 ? dpoly(f) : "refused"}; }
    case 2: { static const mwSize D[][2] = {{2, 4}, {4, 4}, {2, 6}, {3, 8}, {0, 4}, {6, 2}}; int d = c.choose(6); return {mat(mxDOUBLE_CLASS, {D[d][0], D[d][1]}), d == 5 ? EITHER : REFUSE, d == 5 ? "?" : ""}; }
    case 3: { static const mxClassID C[] = {mxSINGLE_CLASS, mxINT32_CLASS, mxUINT16_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxINT8_CLASS}; int k = c.choose(6); return {mat(C[k], {1, (mwSize)(c.choose(2) ? 4 : 6)}), k < 3 || k == 5 || k == 3 ? EITHER : REFUSE, "?"}; }
    case 4: switch (c.choose(5)) { case 0: return {row({num(1), num(2), num(3), num(4)}), REFUSE, ""}; case 1: return {strukt({{"x", num(1)}}), REFUSE, ""}; case 2: return {row({}), REFUSE, ""}; case 3: return {mat(mxDOUBLE_CLASS, {1, 4, 2}), REFUSE, ""}; default: return {mat(mxUINT8_CLASS, {2, 2, 2}), REFUSE, ""}; }
    case 5: { int w = 1 + c.choose(3), h = 1 + c.choose(T ? 3 : 2); unsigned n = 1u << (w * h), bits = 1 + c.choose((int)n - 1); int v = c.choose(3); auto* a = mx::make(mxUINT8_CLASS, {(mwSize)h, (mwSize)w}); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if ((bits >> (i * w + j)) & 1) a->data[j * h + i] = (char)(v == 0 ? 1 : v == 1 ? 255 : 128); return {a, MUST, over_wire(rmask(0, 0, w, h, bits))}; }
    case 6: { int w = c.choose(3), h = c.choose(3); if (!w || !h) return {mx::make(mxUINT8_CLASS, {(mwSize)h, (mwSize)w}), EITHER, "?"}; return {mx::make(mxUINT8_CLASS, {(mwSize)h, (mwSize)w}), EITHER, over_wire(rmask(0, 0, w, h, 0))}; }
    default: { static const double X[] = {-1000000.5, 0, 123456.75}; vector<double> v; vector<float> f; for (int i = 0; i < 4; i++) { v.push_back(i < 2 ? X[c.choose(3)] : 1 + c.choose(2) * 0.5); f.push_back((float)v.back()); } return {dbl(v), MUST, drect(f)}; }
  }
}
static void status_regions(Ctx& c, bool T) {
  Scope s(c);
  { Peer p; connected(c, p, 1); Pic q = picture(0); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); send(p, true, {{1, q.i}}, r, {}); trax_region_release(&r); Called a = server(0, {str("wait")}); if (!a.ok) c.fail("wait", "wait failed: " + a.error); if (a.out[0] && false) return;
    RegArg g = region_arg(c, T); int nl = c.choose(2); c.trace("status %s", mx::show(g.a).c_str()); size_t n = p.down->data.size(); a = server(nl, {str(c.choose(2) ? "status" : "state"), g.a}); assigned(c, a, nl);
    if (g.fate == MUST && !a.ok) c.fail("refused", "refused " + mx::show(g.a) + ": " + a.error); if (g.fate == REFUSE && a.ok) c.fail("accepted", "accepted " + mx::show(g.a) + " as " + p.down->data.substr(n));
    if (!a.ok) { if (p.down->data.size() != n) c.fail("partial", "refused but sent " + p.down->data.substr(n)); c.outcome("refused"); a = server(0, {str("status"), dbl({1, 2, 3, 4})}); if (!a.ok || receive(p) != TRAX_STATE || got_region != drect({1, 2, 3, 4})) c.fail("after", "the reply after a refused one: " + a.error + got_region); }
    else { int rc = receive(p); if (rc != TRAX_STATE) c.fail("lost", "the client got " + to_string(rc)); if (g.want == "refused") c.fail("accepted", "accepted " + mx::show(g.a)); if (g.want != "?" && got_region != g.want) c.fail("region", "array " + mx::show(g.a) + " arrived as " + got_region + " instead of " + g.want); if (!got_props.empty()) c.fail("properties", "properties appeared: " + ref::dprops(got_props)); c.outcome("sent"); }
    c.step(); c.state(fnvs(p.down->data)); end_session(c); }
  s.done();
}
struct Val { mxArray* a; int kind; string text; double number; };   // kind: 0 text, 1 number, 2 to be refused, 3 either
static Val value(int k) {
  switch (k) {
    case 0: return {str("x"), 0, "x", 0}; case 1: return {str("a \"b\"\n"), 0, "a \"b\"\n", 0}; case 2: return {str(""), 0, "", 0}; case 3: return {num(0), 1, "", 0}; case 4: return {num(-2.5), 1, "", -2.5}; case 5: return {num(16777217), 1, "", 16777217}; case 6: return {num(1e-9), 1, "", 1e-9};
    case 7: return {mat(mxUINT8_CLASS, {1, 1}), 1, "", 1}; case 8: return {mxCreateLogicalScalar(true), 1, "", 1}; case 9: return {dbl({}), 3, "", 0}; case 10: return {nullptr, 3, "", 0}; case 11: return {row({str("x")}), 2, "", 0}; case 12: return {strukt({{"y", num(1)}}), 2, "", 0}; case 13: return {mat(mxCHAR_CLASS, {2, 2}), 2, "", 0}; case 14: return {num(4503599627370497.0), 1, "", 4503599627370497.0}; case 15: return {dbl({1, 2}), 3, "", 0};
    default: return {num(1e20), 1, "", 1e20};
  }
}
static const int NVAL = 17;
static void status_properties(Ctx& c) {
  Scope s(c);
  { Peer p; connected(c, p, 1); Pic q = picture(0); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); send(p, true, {{1, q.i}}, r, {}); trax_region_release(&r); Called a = server(0, {str("wait")}); if (!a.ok) c.fail("wait", "wait failed: " + a.error);
    static const char* KEYS[] = {"a", "b2", "c_d"}; int form = c.choose(5), n = form < 2 ? c.choose(4) : 0; vector<Val> v; mxArray* arg = nullptr; bool refuse = false, either = false;
    if (form == 0) { vector<pair<string, mxArray*>> f; for (int i = 0; i < n; i++) { v.push_back(value(i < 2 ? c.choose(i == 0 || n < 3 ? NVAL : 4) : 0)); f.push_back({KEYS[i], v.back().a}); } arg = strukt(f); }
    else if (form == 1) { Arrays e; for (int i = 0; i < n; i++) e.push_back(str(KEYS[i])); for (int i = 0; i < n; i++) { v.push_back(value(i < 2 ? c.choose(i == 0 || n < 3 ? NVAL : 4) : 0)); e.push_back(v.back().a); } arg = cell(n, 2, e); }
    else if (form == 2) { static const mwSize D[][2] = {{0, 0}, {2, 1}, {1, 3}, {1, 1}, {1, 4}, {2, 3}, {3, 1}, {0, 2}}; int d = c.choose(8); Arrays e; for (mwSize i = 0; i < D[d][0] * D[d][1]; i++) e.push_back(str("k")); arg = cell(D[d][0], D[d][1], e); (D[d][0] * D[d][1] ? refuse : either) = true; }
    else if (form == 3) { int k = c.choose(8); mxArray* key = k == 0 ? num(1) : k == 1 ? nullptr : k == 2 ? str("") : k == 3 ? row({}) : k == 4 ? mat(mxCHAR_CLASS, {2, 3}) : k == 5 ? str("a b") : k == 6 ? str(string(65, 'k')) : str("k\xc3"); arg = cell(1, 2, {key, num(1)}); refuse = true; }
    else { int k = c.choose(5); if (k == 0) arg = strukt({{"a", num(1)}}, 2), either = true; if (k == 1) arg = strukt({{"a", num(1)}}, 0), either = true; if (k == 2) arg = dbl({1, 2}), refuse = true; if (k == 3) arg = str("x"), refuse = true; if (k == 4) arg = dbl({}), either = true; if (k == 1) arg->el.clear(); }
    for (auto& x : v) { if (x.kind == 2) refuse = true; if (x.kind == 3) either = true; }
    c.trace("status with %s", mx::show(arg).c_str()); size_t len = p.down->data.size(); a = server(1, {str("status"), dbl({1, 2, 3, 4}), arg}); assigned(c, a, 1);
    if (a.ok && refuse) c.fail("accepted", "accepted " + mx::show(arg)); if (!a.ok && !refuse && !either) c.fail("refused", "refused " + mx::show(arg) + ": " + a.error);
    if (!a.ok) { if (p.down->data.size() != len) c.fail("partial", "refused but sent " + p.down->data.substr(len)); c.outcome("refused"); a = server(0, {str("status"), dbl({1, 2, 3, 4})}); if (!a.ok || receive(p) != TRAX_STATE || !got_props.empty()) c.fail("after", "the reply after a refused one " + a.error); }
    else { if (receive(p) != TRAX_STATE) c.fail("lost", "reply lost"); c.outcome("sent"); size_t k = 0; for (size_t i = 0; i < v.size(); i++) if (v[i].kind < 2) { k++; auto it = got_props.find(KEYS[i]); if (it == got_props.end()) c.fail("properties", string("property ") + KEYS[i] + " of " + mx::show(arg) + " is missing"); if (v[i].kind == 0 ? it->second != v[i].text : !(fabs(strtod(it->second.c_str(), nullptr) - v[i].number) <= (v[i].number == floor(v[i].number) && fabs(v[i].number) < 9e15 ? 0 : 1e-6 * fabs(v[i].number)))) c.fail("properties", string(KEYS[i]) + " of " + mx::show(arg) + " arrived as " + it->second); }
      if (!either && got_props.size() != k) c.fail("properties", "arrived: " + ref::dprops(got_props)); }
    c.step(); c.state(fnvs(p.down->data)); end_session(c); }
  s.done();
}
// set-up: what the client learns
static mxArray* names(const vector<string>& all, int bits, int form) { Arrays e; string one; for (size_t i = 0; i < all.size(); i++) if (bits >> i & 1) { string t = all[i]; if (form == 2) for (auto& ch : t) ch = toupper(ch); e.push_back(str(t)); one = t; } if (form == 0 && e.size() == 1) return str(one); return form == 1 ? cell(e.size(), 1, e) : row(e); }
static void setups(Ctx& c) {
  Scope s(c);
  { Peer p; int form = c.choose(3), rb = 1 + c.choose(7), ib = 1 + c.choose(15), cb = c.choose(8), extra = c.choose(6); static const int RF[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}, IF[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER};
    if (extra && (rb > 2 || (ib > 2 && extra < 5))) throw Prune(); if (form && extra > 2) throw Prune();
    Arrays in{str(form == 2 ? "SetUp" : "setup"), names({"rectangle", "polygon", "mask"}, rb, form), names({"path", "url", "memory", extra == 5 ? "data" : "buffer"}, ib, form)}; if (cb) { in.push_back(str("Channels")); in.push_back(names({"color", "depth", "ir"}, cb, form)); }
    string n, d, f; Props custom; bool refuse = false; auto arg = [&](const string& k, mxArray* v) { in.push_back(str(k)); in.push_back(v); };
    switch (extra) { case 1: arg("Name", str(n = "The name")); arg("description", str(d = "What \"it\" does")); arg("FAMILY", str(f = "of")); break; case 2: arg("my.own_1", str("val ue")); custom["my.own_1"] = "val ue"; arg("Other", str("2")); custom["Other"] = "2"; break; case 3: arg("trax.x", str("y")); refuse = true; break; case 4: arg("bad name", str("y")); refuse = true; break; }
    int nl = c.choose(2); c.trace("setup form %d regions %d images %d channels %d extra %d", form, rb, ib, cb, extra); Called a = server(nl, in); assigned(c, a, nl);
    if (refuse) { if (a.ok) c.fail("accepted", "the set-up was accepted"); if (!p.down->data.empty()) c.fail("partial", "refused but sent " + p.down->data); c.outcome("refused"); }
    else { if (!a.ok) c.fail("setup", "refused: " + a.error); if (nl && !truth(a.out[0])) c.fail("setup", "returned " + mx::show(a.out[0])); if (!p.connect()) c.fail("setup", "the client cannot connect: " + p.down->data);
      trax_metadata* m = p.k->metadata; int ri = 0, ii = 0; for (int i = 0; i < 3; i++) if (rb >> i & 1) ri |= RF[i]; for (int i = 0; i < 4; i++) if (ib >> i & 1) ii |= IF[i]; auto t = [](const char* x) { return string(x ? x : ""); };
      if (m->format_region != ri || m->format_image != ii || m->channels != (cb ? cb : 1) || t(m->tracker_name) != n || t(m->tracker_description) != d || t(m->tracker_family) != f || ref::rprops(m->custom) != custom) c.fail("hello", "declared other things: " + p.down->data); c.outcome("setup"); c.state(fnvs(p.down->data)); end_session(c); }
    c.step(); }
  s.done();
}
// sessions: every history of calls, legal or not, against the same history by the C interface
static void session(Ctx& c, int D) {
  Scope s(c);
  { Peer p; bool on = false, init = false, ended = false; int pending = 0; p.up->eof = true;
    for (int i = 0; i < D; i++) {
      int op = c.choose(10); size_t n = p.down->data.size();
      switch (op) {
        case 0: { c.trace("setup"); Called a = setup_all(1); if (on) { if (a.ok) { c.outcome("replaced"); throw Prune(); } c.outcome("second setup refused"); if (p.down->data.size() != n) c.fail("partial", "refused but sent " + p.down->data.substr(n)); break; } if (ended) { throw Prune(); } if (!a.ok) c.fail("setup", a.error); if (!p.connect()) c.fail("setup", "no client"); on = true; c.outcome("setup"); break; }
        case 1: case 2: case 3: {   // a message of the client is waited for
          int nl = c.choose(4); if (op == 1 || op == 2) { if (!on || (op == 2 && !init) || pending) throw Prune(); Pic q = picture(2); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); bool sent = send(p, op == 1, {{1, q.i}}, r, {{"k", op == 1 ? "i" : "f"}}); trax_region_release(&r); if (!sent) throw Prune(); } else if (on) { if (pending) throw Prune(); int k = c.choose(3); if (k == 0) { if (trax_terminate(p.k, "the end") != TRAX_OK) throw Prune(); } else if (k == 1) p.up->data += "@@TRAX:state \"1\" \n"; c.trace("message %d", k); if (k) op = 4; }
          c.trace("wait %d %d", op, nl); Called a = server(nl, {str("wait")}); assigned(c, a, nl); if (!on) { if (a.ok) c.fail("wait", "wait without a session succeeded"); c.outcome("no session"); break; }
          if (op == 4) { if (a.ok) c.fail("wait", "a broken conversation was not reported: " + mx::show(a.out[0])); c.outcome("broken"); Called z = server(0, {str("quit")}); on = false; ended = true; break; }
          if (!a.ok) c.fail("wait", "wait failed: " + a.error);
          if (op == 3) { for (int j = 0; j < nl; j++) if (mx::show(a.out[j]) != "[]") c.fail("quit", "the end was reported as " + mx::show(a.out[j])); on = init = false; ended = true; c.outcome("client quit"); break; }
          if (nl > 0) { Pic q = picture(2); trax_image_release(&q.i); if (!same_images(a.out[0], {q.want})) c.fail("images", mx::show(a.out[0])); } if (nl > 1 && mx::show(a.out[1]) != (op == 1 ? nums({1, 2, 3, 4}) : "[]")) c.fail("region", mx::show(a.out[1])); if (nl > 2) check_props(c, a.out[2], {{"k", op == 1 ? "i" : "f"}}, false); init = true; pending = 1; c.outcome(op == 1 ? "initialize" : "frame"); break; }
        case 5: { bool with = c.choose(2); c.trace("status"); Arrays in{str("status"), dbl({9, 8, 7, 6})}; if (with) in.push_back(strukt({{"c", num(3)}})); Called a = server(1, in); assigned(c, a, 1); if (!on) { if (a.ok) c.fail("status", "a status without a session succeeded"); c.outcome("no session"); break; } if (!pending) { if (!a.ok) { if (p.down->data.size() != n) c.fail("partial", "sent"); c.outcome("status refused"); break; } throw Prune(); } if (!a.ok || !truth(a.out[0])) c.fail("status", "failed: " + a.error); if (receive(p) != TRAX_STATE || got_region != drect({9, 8, 7, 6}) || got_props.size() != (with ? 1u : 0u) || (with && strtod(got_props["c"].c_str(), nullptr) != 3)) c.fail("status", "arrived as " + got_region + ref::dprops(got_props)); pending = 0; c.outcome("status"); break; }
        case 6: { c.trace("bad status"); Called a = c.choose(2) ? server(0, {str("status"), dbl({1, 2})}) : server(0, {str("status"), dbl({1, 2, 3, 4}), num(1)}); if (a.ok) c.fail("status", "accepted"); if (p.down->data.size() != n) c.fail("partial", "refused but sent " + p.down->data.substr(n)); c.outcome("bad status"); break; }
        case 7: { int k = c.choose(4), nl = c.choose(2); c.trace("quit %d", k); Arrays in{str("quit")}; if (k == 1) in.push_back(str("because \"x\"")); if (k == 2) in.push_back(str("")); if (k == 3) in.push_back(num(1)); Called a = server(nl, in); if (k < 3) { if (!a.ok) c.fail("quit", "failed: " + a.error); assigned(c, a, nl); } else if (!a.ok) { c.outcome("bad quit"); if (p.down->data.size() != n) c.fail("partial", "refused but sent " + p.down->data.substr(n)); break; }
          if (on) { auto q = ref::parse_stream(p.down->data.substr(n)); if (q.size() != 1 || q[0].type != TRAX_QUIT || !q[0].args.empty()) c.fail("quit", "the client got " + p.down->data.substr(n)); Props got = q[0].props; if (k != 1 && got.count("trax.reason") && got["trax.reason"].empty()) got.erase("trax.reason"); if (k < 3 && got != (k == 1 ? Props{{"trax.reason", "because \"x\""}} : Props{})) c.fail("quit", "reason arrived as " + ref::dprops(got)); on = init = false; ended = true; pending = 0; c.outcome("quit"); } else if (p.down->data.size() != n) c.fail("quit", "wrote without a session"); break; }
        case 8: { int k = c.choose(3); c.trace("unknown %d", k); Called a = k == 0 ? server(0, {str("something")}) : k == 1 ? server(0, {num(1)}) : server(0, {}); if (a.ok) c.fail("operation", "accepted"); if (p.down->data.size() != n) c.fail("partial", "sent"); c.outcome("unknown"); break; }
        default: { if (!on || i) throw Prune(); break; }
      }
      c.step(); c.state(fnvs(p.down->data, fnvs(p.up->data, op))); }
    server(0, {str("quit")}); if (server(0, {str("wait")}).ok) c.fail("quit", "a session goes on after quit"); }
  s.done();
}
// arguments of every kind in every place
static mxArray* anything(int k) {
  switch (k) { case 0: return str("rectangle"); case 1: return str("path"); case 2: return str(""); case 3: return num(1); case 4: return row({str("mask"), str("polygon")}); case 5: return row({}); case 6: return row({num(1)}); case 7: return cell(1, 2, {nullptr, str("url")}); case 8: return strukt({{"a", num(1)}}); case 9: return mat(mxCHAR_CLASS, {2, 3}); case 10: return dbl({}); case 11: return str("name"); case 12: return str("propstruct"); case 13: return cell(2, 2, {str("mask"), str("mask"), str("mask"), str("mask")}); case 14: return str("channels"); default: return mat(mxCHAR_CLASS, {1, 2, 2}); }
}
static void arguments(Ctx& c, int extra) {
  Scope s(c);
  { Peer p; p.up->eof = true; int op = c.choose(6); bool running = op > 1 && c.choose(2); if (running) connected(c, p, 1); size_t n0 = p.down->data.size(); Arrays in; static const char* OPS[] = {"setup", "setup", "wait", "status", "quit", ""}; 
    in.push_back(op == 5 ? anything(c.choose(16)) : str(OPS[op])); int n = op == 1 ? 2 + extra : c.choose(extra + 1), nl = c.choose(op == 2 ? 5 : 3); if (op == 1) { in.push_back(str("mask")); in.push_back(str("url")); n -= 2; } else if (op == 0 && n > 2) n = 2;
    for (int i = 0; i < n; i++) in.push_back(anything(c.choose(16))); string t; for (auto* a : in) t += mx::show(a) + " "; c.trace("%d outputs, %s", nl, t.c_str());
    Called a = server(nl, in); if (!a.ok && op != 2 && op != 4 && p.down->data.size() != n0) c.fail("partial", t + "was refused but sent " + p.down->data); assigned(c, a, a.ok && op != 4 ? nl : 0); c.outcome(a.ok ? "accepted" : "refused"); c.step(); c.state(fnvs(p.down->data, fnvs(t)));
    end_session(c); }
  s.done();
}

// ---------------------------------------------------------------- traxclient
static mxArray* callback_handle() { return mx::make(mxFUNCTION_CLASS, {1, 1}); }
struct Step { int what; };   // see below
struct Img { mxArray* a; string want; };   // want empty: to be refused
static Img pixels(mxClassID cls, vector<mwSize> d) {
  int h = d[0], w = d[1], n = d.size() > 2 ? d[2] : 1, b = cls == mxUINT16_CLASS ? 2 : 1; auto* a = mx::make(cls, d); for (int i = 0; i < h * w * n; i++) { unsigned v = b == 2 ? i * 7919 + 300 : (i * 37 + 250) & 255; if (b == 2) ((uint16_t*)a->data)[i] = v; else a->data[i] = (char)v; }
  string s = "mem " + to_string(w) + "x" + to_string(h) + " " + to_string(b == 2 ? TRAX_IMAGE_MEMORY_GRAY16 : n == 3 ? TRAX_IMAGE_MEMORY_RGB : TRAX_IMAGE_MEMORY_GRAY8) + ":";
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < n; k++) { int i = y + h * (x + w * k); unsigned v = b == 2 ? (uint16_t)(i * 7919 + 300) : (i * 37 + 250) & 255; s += to_string(v & 255) + ","; if (b == 2) s += to_string(v >> 8) + ","; } return {a, s};
}
static Img client_image(int k) {
  switch (k) { case 15: return pixels(mxUINT8_CLASS, {3, 4}); case 16: return pixels(mxUINT8_CLASS, {3, 2, 3}); case 17: return pixels(mxUINT8_CLASS, {2, 3, 3}); case 18: return pixels(mxUINT16_CLASS, {2, 3}); case 19: return pixels(mxUINT16_CLASS, {3, 2}); case 20: return pixels(mxUINT8_CLASS, {3, 1});
    case 0: return {str("/a b.png"), "path /a b.png"};
    case 1: { auto* a = mat(mxUINT8_CLASS, {2, 3}); return {a, "mem 3x2 " + to_string(TRAX_IMAGE_MEMORY_GRAY8) + ":1,3,5,2,4,6,"}; }
    case 2: { auto* a = mat(mxUINT8_CLASS, {2, 1, 3}); return {a, "mem 1x2 " + to_string(TRAX_IMAGE_MEMORY_RGB) + ":1,3,5,2,4,6,"}; }
    case 3: { auto* a = mat(mxUINT16_CLASS, {1, 2}); return {a, "mem 2x1 " + to_string(TRAX_IMAGE_MEMORY_GRAY16) + ":3,1,3,2,"}; }
    case 4: return {str("http://host/x.png"), "url http://host/x.png"};
    case 5: return {mat(mxDOUBLE_CLASS, {2, 2}), ""}; case 6: return {mat(mxUINT8_CLASS, {2, 2, 2}), ""}; case 7: return {mat(mxUINT8_CLASS, {2, 2, 3, 2}), ""}; case 8: return {strukt({{"a", num(1)}}), ""}; case 9: return {mat(mxUINT16_CLASS, {2, 2, 3}), ""};
    case 10: return {mat(mxCHAR_CLASS, {2, 3}), ""}; case 11: return {mat(mxUINT8_CLASS, {0, 3}), ""}; case 12: return {mat(mxUINT16_CLASS, {2, 0}), ""}; case 13: return {str("file:///x y.png"), "path /x y.png"}; case 14: return {str("/a://b"), "path /a://b"}; default: return {nullptr, ""};
  }
}
static const int SETS[] = {1, 3, 7, 2};
static string dstate(const mxArray* a, const char* f) { int k = mxGetFieldNumber(a, f); return k < 0 ? "missing" : mx::show(a->el[k]); }
static void loop(Ctx& c, int D, int mode) {   // mode 0: sessions, 1: arguments of the callback, 2: faults and interrupts
  Scope s(c);
  { Script script; S = &script; vtime = 1000; int set = mode == 2 ? 0 : c.choose(4), channels = SETS[set]; int rb = mode == 0 ? c.choose(3) : 0; static const int RB[] = {TRAX_REGION_ANY, TRAX_REGION_RECTANGLE, TRAX_REGION_MASK | TRAX_REGION_POLYGON};
    script.meta = trax::Metadata(RB[rb], rb == 1 ? TRAX_IMAGE_PATH : TRAX_IMAGE_ANY, channels, rb ? "Nm" : "", rb ? "De sc" : "", rb ? "Fa" : "", 0); int calls = 0; bool expect_error = false, expect_end = false, on = false, dead = false, interrupted = false, data_given = c.choose(2), log_given = mode == 2 && c.choose(2); vector<string> want{"start", "query"}; string last_region = "[]"; double last_time = 0; Props last_props; string data = data_given ? "1x1double[100,]" : "[]"; int fault = 0;
    script.ask = [&](const char* what) { if (script.watchdog && !interrupted && script.watchdog()) c.fail("interrupt", "the tracker is told of an interrupt that did not happen"); if (mode != 2) return (int)ANSWER; if (dead) return (int)QUIT; int a = c.deviate(4); if (a == 0) return (int)ANSWER; if (a == 3) { if (octave::mc_current.int_handler) { c.trace("interrupt during %s", what); octave::mc_current.int_handler(2); interrupted = true; if (script.watchdog && !script.watchdog()) c.fail("interrupt", "the tracker is not told of the interrupt"); } return (int)ANSWER; } c.trace("%s %s", what, a == 1 ? "fails" : "throws"); fault = a; dead = true; return a == 1 ? (int)QUIT : (int)THROWS; };
    script.reply = [&](int n) { switch (n % 4) { case 0: return trax::Region::create_rectangle(n, 2, 3, 4.5f); case 1: { trax::Region r = trax::Region::create_polygon(3); for (int i = 0; i < 3; i++) r.set_polygon_point(i, i, i * i); return r; } case 2: { trax::Region r = trax::Region::create_mask(1, 1, 2, 1); char* w = r.write_mask_row(0); w[0] = 1; w[1] = 1; return r; } default: return trax::Region::create_special(2); } };
    static const char* REPLY[] = {"", "1x6double[0,0,1,1,2,4,]", "2x3uint8[0,0,0,1,0,1,]", "1x1double[2,]"};
    mx::on_call = [&](int nl, mxArray** l, int nr, mxArray** r, const char* f) {
      if (string(f) != "feval" || nl != 4 || nr != 3 || !r[0] || r[0]->cls != mxFUNCTION_CLASS) c.fail("callback", "the callback was not called the way it is declared"); if (dead || expect_end || expect_error) c.fail("callback", "the callback was called after the end");
      mx::ok(r[1], "callback"); if (mx::show(r[2]) != data) c.fail("data", "data " + data + " came back as " + mx::show(r[2]));
      string st = dstate(r[1], "region"); if (st != last_region) c.fail("state", "region " + st + " instead of " + last_region); if (dstate(r[1], "time") != mx::show(num(last_time))) c.fail("state", "time " + dstate(r[1], "time") + " instead of " + to_string(last_time)); check_props(c, mxGetField(r[1], 0, "properties"), last_props, true);
      string tr = dstate(r[1], "tracker"), fo = dstate(r[1], "formats"), cs = dstate(r[1], "channels"); string wt = rb ? "1x1<name='Nm',description='De sc',family='Fa',>" : "1x1<name='',description='',family='',>"; if (tr != wt) c.fail("state", "tracker " + tr); static const char* WF[] = {"1x1<region=1x3{'rectangle','polygon','mask',},image=1x4{'path','url','buffer','memory',},>", "1x1<region=1x1{'rectangle',},image=1x1{'path',},>", "1x1<region=1x2{'polygon','mask',},image=1x4{'path','url','buffer','memory',},>"}; if (fo != WF[rb]) c.fail("state", "formats " + fo); string wc; int k = 0; if (channels & 1) wc += "'color',", k++; if (channels & 2) wc += "'depth',", k++; if (channels & 4) wc += "'ir',", k++; if (cs != "1x" + to_string(k) + "{" + wc + "}") c.fail("state", "channels " + cs);
      calls++; for (int i = 0; i < 4; i++) l[i] = dbl({});
      auto set = [&](int i, mxArray* a) { mx::drop(l[i]); l[i] = a; }; set(3, num(100 + calls)); data = "1x1double[" + to_string(100 + calls) + ",]";
      int what = calls > D ? 0 : c.choose(calls == 1 ? 3 : 3);   // 0 ends, 1 initialize, 2 frame
      if (mode == 2) what = calls > D ? 0 : calls == 1 || calls == 3 ? 1 : 2;
      if (what == 0) { if (c.choose(mode == 2 ? 1 : 2)) set(0, row({})); expect_end = true; c.trace("callback: end"); return; }
      bool bad = false; string wimg, wreg = "empty"; Props wp;
      int kinds[3] = {0, 0, 0}; bool plain = false; int extra = 0; if (mode == 1 && calls == 1) { for (int i = 0; i < k; i++) kinds[i] = i == 0 ? c.choose(22) : i == 1 ? c.choose(k == 2 ? 22 : 4) : 0; if (k == 1) plain = c.choose(2); extra = c.choose(4) - 1; if (extra && kinds[0] > 1) throw Prune(); } else for (int i = 0; i < k; i++) kinds[i] = (calls + i) % 5;
      Arrays e; int j = 0; for (int ch : CHS) if (channels & ch) { Img im = client_image(kinds[j++]); if (im.want.empty()) bad = true; wimg += to_string(ch) + "=" + im.want + ";"; e.push_back(im.a); }
      if (plain && extra < 2) { if (!e[0] || (!mx::held(e[0]) && !mx::count(e[0]))) throw Prune(); set(0, e[0]); } else { if (extra == 1) { e.push_back(str("/more")); bad = true; } if (extra == 2) { Arrays f; for (auto* x : e) f.push_back(mx::copy(x)); e.insert(e.end(), f.begin(), f.end()); set(0, cell(2, k, e)); bad = true; } else if (extra == -1) { mx::drop(e.back()); e.pop_back(); bad = true; if (e.empty()) { throw Prune(); } } if (extra != 2) set(0, mode == 1 && calls == 1 && e.size() > 1 && c.choose(2) ? cell(e.size(), 1, e) : row(e)); }
      if (what == 1) { int g = mode == 1 && calls == 1 ? c.choose(5) : calls % 3; switch (g) { case 0: set(1, dbl({1, 2, 3, 4})); wreg = "1.0000,2.0000,3.0000,4.0000"; break; case 1: set(1, dbl({0, 0, 5, 0, 5, 5.5})); wreg = "0.0000,0.0000,5.0000,0.0000,5.0000,5.5000"; break; case 2: { auto* a = mx::make(mxUINT8_CLASS, {2, 2}); a->data[1] = 1; a->data[3] = 1; set(1, a); trax::Region r = trax::Region::create_mask(0, 0, 2, 2); for (int y = 0; y < 2; y++) { char* p = r.write_mask_row(y); p[0] = p[1] = y; } wreg = ::show(r); break; } case 3: set(1, dbl({1, 2})); bad = true; break; default: set(1, str("abcd")); bad = true; } }
      int pk = mode == 1 && calls == 1 ? c.choose(8) : calls % 3; switch (pk) { case 0: break; case 1: set(2, strukt({{"p", str("v")}, {"q", str("w x")}})); wp = {{"p", "v"}, {"q", "w x"}}; break; case 2: set(2, cell(2, 2, {str("a"), str("b.c"), str("1"), str("2")})); wp = {{"a", "1"}, {"b.c", "2"}}; break; case 3: set(2, strukt({{"p", row({str("x")})}})); bad = true; break; case 4: set(2, cell(1, 3, {str("a"), str("b"), str("c")})); bad = true; break; case 5: set(2, strukt({})); break; case 6: set(2, num(5)); bad = true; break; case 7: set(2, str("a")); bad = true; break; }
      c.trace("callback %d: %d %s %s %s%s", calls, what, wimg.c_str(), wreg.c_str(), ref::dprops(wp).c_str(), bad ? " (bad)" : "");
      if (bad) { expect_error = true; return; }
      if (what == 1) { if (on) want.push_back("reset"); want.push_back("initialize " + wimg + wreg + ref::dprops(wp)); want.push_back("wait"); on = true; }
      else if (!on) { expect_end = true; return; }
      else { want.push_back("frame " + wimg + ref::dprops(wp)); want.push_back("wait"); }
      int n = script.waits; last_region = n % 4 ? REPLY[n % 4] : nums({(double)n, 2, 3, 4.5}); last_time = 40; last_props = {{"n", to_string(n)}, {"a.b", "x y"}};
    };
    Arrays in{str("tracker \"x y\""), callback_handle()}; if (data_given) { in.push_back(str("Data")); in.push_back(num(100)); } int opts = mode == 0 ? c.choose(4) : 0; if (log_given) { in.push_back(str("log")); in.push_back(str("#")); }
    auto opt = [&](const char* k, mxArray* v) { in.push_back(str(k)); in.push_back(v); }; if (opts == 1) { opt("timeout", num(7)); opt("connection", str("Socket")); } if (opts == 2) { opt("environment", strukt({{"A", str("1")}, {"B_C", str("x y")}})); opt("directory", str("/some where")); opt("debug", num(1)); } if (opts == 3) { opt("connection", str("explicit")); opt("debug", num(0)); }
    auto before = octave::mc_current; int nl = c.choose(2); Called a = call(client_side::mexFunction, nl, in); auto after = octave::mc_current;
    if (before.int_handler != after.int_handler || before.brk_handler != after.brk_handler) { octave::mc_current = before; c.fail("interrupt", "the interrupt handler was not put back"); }
    if (script.live) c.fail("tracker", "the tracker was left running"); if (script.made != 1) c.fail("tracker", "started " + to_string(script.made) + " times"); if (script.command != "tracker \"x y\"") c.fail("tracker", "command " + script.command);
    if (script.timeout != (opts == 1 ? 7 : 30) || script.connection != (opts == 1 ? trax::CONNECTION_SOCKETS : opts == 3 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_DEFAULT) || script.verbosity != (opts == 2 ? trax::VERBOSITY_DEBUG : opts == 3 ? trax::VERBOSITY_DEFAULT : trax::VERBOSITY_SILENT) || script.directory != (opts == 2 ? "/some where" : "") || script.env != (opts == 2 ? map<string, string>{{"A", "1"}, {"B_C", "x y"}} : map<string, string>{})) c.fail("options", "the options did not arrive");
    string got, exp; for (auto& x : script.log) got += x + "\n"; for (auto& x : want) exp += x + "\n";
    if (!dead && !interrupted) { if (expect_error == a.ok) c.fail(a.ok ? "accepted" : "error", a.ok ? "illegal values of the callback were accepted" : "failed: " + a.error); if (got != exp) c.fail("calls", "calls\n" + got + "instead of\n" + exp); }
    else { if (a.ok && !(interrupted && !dead && expect_end)) c.fail("absorbed", "a failure was not reported"); if (exp.compare(0, got.size(), got) && !(dead && got.find("wait") != string::npos)) c.fail("calls", "calls\n" + got + "instead of\n" + exp); if (interrupted && !dead && !a.ok && !expect_end && exp.size() > got.size() + 200) c.fail("interrupt", "?"); }
    if (a.ok) { assigned(c, a, nl); if (nl && mx::show(a.out[0]) != data) c.fail("data", "returned " + mx::show(a.out[0]) + " instead of " + data); }
    if (log_given && mx::printed.find(script.said) == string::npos && !interrupted) c.fail("log", "log \"" + script.said + "\" printed as \"" + mx::printed + "\"");
    if (interrupted) { script.watchdog = nullptr; script.up = script.on = dead = interrupted = false; mx::on_call = [](int, mxArray** l, int, mxArray**, const char*) { for (int i = 0; i < 4; i++) l[i] = dbl({}); }; script.ask = [&](const char*) { if (script.watchdog && script.watchdog()) c.fail("interrupt", "the next call is interrupted as well"); return (int)ANSWER; }; Called b = call(client_side::mexFunction, 0, {str("tracker"), callback_handle()}); if (!b.ok) c.fail("interrupt", "the next call fails: " + b.error); interrupted = true; }
    c.outcome(!a.ok ? interrupted ? "interrupted" : dead ? "tracker failed" : "callback refused" : "finished"); c.step(); c.state(fnvs(got)); mx::on_call = nullptr; S = nullptr; octave::mc_current = octave::interrupt_handler(); }
  { mx::on_call = nullptr; }
  s.done();
}
static void client_arguments(Ctx& c, int extra) {
  Scope s(c);
  { Script script; S = &script; script.meta = trax::Metadata(TRAX_REGION_ANY, TRAX_IMAGE_ANY, 1, "", "", "", 0); script.ask = [](const char*) { return (int)ANSWER; }; script.reply = [](int) { return trax::Region(); };
    mx::on_call = [](int, mxArray** l, int, mxArray**, const char*) { for (int i = 0; i < 4; i++) l[i] = dbl({}); };
    static const char* K[] = {"data", "timeout", "connection", "environment", "directory", "debug", "log", "nonsense", "propstruct", "a b"}; Arrays in; int kind = c.choose(3); bool bad = false;
    if (kind == 0) { int n = c.choose(4); for (int i = 0; i < n; i++) { int k = c.choose(4); in.push_back(k == 0 ? str("x") : k == 1 ? callback_handle() : k == 2 ? num(1) : mat(mxCHAR_CLASS, {2, 2})); } bad = n < 2 || in[0]->cls != mxCHAR_CLASS || in[1]->cls != mxFUNCTION_CLASS || in[0]->dims[0] != 1; }
    else { in = {str("x"), callback_handle()}; int n = 1 + c.choose(kind == 1 ? 2 : extra); if (kind == 1) for (int i = 0; i < n; i++) in.push_back(anything(c.choose(16))); else for (int i = 0; i < n; i++) { int k = c.choose(10); in.push_back(str(K[k])); int v = c.choose(n > 1 ? 8 : 16); if (k == 6 && v < 2) throw Prune(); if (k == 6 && v == 11) throw Prune(); if (k == 6 && (v == 12 || v == 14)) throw Prune(); in.push_back(anything(v)); if (k > 6) bad = true; if ((k == 3 && v != 8) || (k == 3) || (k == 2)) bad = true; if ((k == 4 || k == 6) && (v >= 3 && v != 11 && v != 12 && v != 14)) bad = true; } }
    int nl = c.choose(3); string t; for (auto* a : in) t += mx::show(a) + " "; c.trace("%d outputs, %s", nl, t.c_str()); auto before = octave::mc_current; Called a = call(client_side::mexFunction, nl, in); auto after = octave::mc_current; if (before.int_handler != after.int_handler) { octave::mc_current = before; c.fail("interrupt", "the interrupt handler was not put back"); }
    if (a.ok && (bad || nl > 1)) c.fail("accepted", "accepted " + t); if (script.live) c.fail("tracker", "the tracker was left running"); if (!a.ok && (bad || nl > 1) && script.made) c.fail("partial", "a tracker was started with wrong arguments"); assigned(c, a, nl); c.outcome(a.ok ? "ran" : "refused"); c.step(); c.state(fnvs(t)); mx::on_call = nullptr; S = nullptr; octave::mc_current = octave::interrupt_handler(); }
  s.done();
}
int main(int argc, char** argv) {
  unsetenv("TRAX_SOCKET"); unsetenv("TRAX_IN"); unsetenv("TRAX_OUT"); unsetenv("TRAX");
  PROPS(); Main m("T03"); m.parse(argc, argv); m.cleanup_after = [] { mx::on_call = nullptr; S = nullptr; octave::mc_current = octave::interrupt_handler(); mx::reset(); try { server(0, {mx::text("quit")}); } catch (...) {} mx::reset(); shim::reset_all(); };
  bool T = m.thorough; int N = T ? 4 : 3, D = T ? 5 : 4;
  m.bounds = {"images: every kind on every set of channels, memory images of every size up to " + to_string(N) + "x" + to_string(N) + ", three formats, three contents", "regions: rectangles, polygons of 3 to 5 points, masks of up to 3x" + to_string(T ? 3 : 2) + " at every offset from -4 to 4; arrays of 0 to 10 numbers, other shapes and classes, uint8 masks of every content",
              "properties: six maps in both forms; structures and cells of up to three values out of 17, malformed ones", "set-up: every set of formats and channels in three notations, names, custom properties", "sessions: every history of " + to_string(D) + " calls out of set-up, wait (initialize, frame, quit, illegal, nothing), status, illegal status, quit, unknown operation",
              "arguments: every vector of up to " + to_string(T ? 3 : 2) + " arguments out of 16 after each operation", "traxclient: every course of " + to_string(T ? 5 : 4) + " answers of the callback (initialize, frame, end), every kind of image, region and properties in its first answer, one failure or interrupt at each call of the tracker" + string(T ? " (two)" : "")};
  m.add("images", 0, 2, [N](Ctx& c) { images(c, N); });
  m.add("regions-in", 0, 2, [T](Ctx& c) { regions_in(c, T); });
  m.add("properties-in", 0, 2, [](Ctx& c) { properties_in(c); });
  m.add("status-regions", 0, 2, [T](Ctx& c) { status_regions(c, T); });
  m.add("status-properties", 0, 2, [](Ctx& c) { status_properties(c); });
  m.add("setup", 0, 3, [](Ctx& c) { setups(c); });
  m.add("session", 0, 3, [D](Ctx& c) { session(c, D); });
  m.add("arguments", 0, 3, [T](Ctx& c) { arguments(c, T ? 3 : 2); });
  m.add("client", 0, 3, [T](Ctx& c) { loop(c, T ? 5 : 4, 0); });
  m.add("client-values", 0, 3, [](Ctx& c) { loop(c, 2, 1); });
  m.add("client-faults", T ? 2 : 1, 3, [](Ctx& c) { loop(c, 4, 2); });
  m.add("client-arguments", 0, 3, [T](Ctx& c) { client_arguments(c, T ? 3 : 2); });
  return m.run();
}
