// The scripted tracker process behind the client programs (P07-P09): it has the interface of
// trax::TrackerProcess, notes every call and behaves as the script says.
#pragma once
#include "mc.hpp"
#include "shim.hpp"
#include <trax/client.hpp>
#include <algorithm>
#include <cmath>
#include <ctype.h>
#include <fstream>
#include <iostream>
#include <math.h>
#include <memory>
#include <signal.h>
#include <sstream>
#include <stdarg.h>
#include <stdexcept>
#include <streambuf>
#include <string.h>
using std::string; using std::vector; using std::map; using std::pair; using std::to_string; using mc::Ctx; using mc::Main; using mc::Prune;

struct Exit { int code; };
[[noreturn]] void mc_exit(int code) { throw Exit{code}; }
namespace std { using ::mc_exit; }

// ---------------------------------------------------------------- the scripted tracker
struct Call { string what, images, region, props; };
enum Answer { ANSWER, QUIT, DIES, THROWS };   // DIES: a failure that is reported by the return value
struct Script {
  std::function<int(const char*)> ask;             // fate of a call
  std::function<pair<int, trax::Region>()> reply;  // fate and region of a wait
  std::function<void(const trax::ImageList&)> seen;   // looks at the images of a call
  bool multi = false; int tracked = 0; /* objects in the session */
  int formats = TRAX_IMAGE_PATH, channels = TRAX_CHANNEL_COLOR, live = 0, waits = 0;
  long cost_init = 3, cost_frame = 2, cost_wait = 40;
  vector<Call> log; map<string, string> env; string command; int timeout = -1, connection = -1, verbosity = -1, made = 0;
  trax::WatchdogCallback* watchdog = nullptr; bool raised = false, stop_seen = false, wanted_stop = false;
};
static Script S; static long vtime = 0;
static string bytes(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static string hex(const string& s) { return to_string(s.size()) + ":" + to_string(mc::fnvs(s)); }
static string show(const trax::Region& r) { if (r.empty()) return "empty"; std::ostringstream o; o << r; string s = o.str(); while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static string show(const trax::Image& i) {
  switch (i.type()) {
    case TRAX_IMAGE_PATH: return "path " + i.get_path();
    case TRAX_IMAGE_BUFFER: { int l, f; const char* p = i.get_buffer(&l, &f); return "buffer " + hex(string(p, l)); }
    case TRAX_IMAGE_MEMORY: { int w, h, f; i.get_memory_header(&w, &h, &f); string s; int b = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; for (int y = 0; y < h; y++) s.append(i.get_memory_row(y), w * b); return "memory " + to_string(w) + "x" + to_string(h) + " " + hex(s); }
    case TRAX_IMAGE_URL: return "url " + i.get_url();
  }
  return "nothing";
}
static string show(const trax::ImageList& l) { static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR}; static const char* N[] = {"color", "depth", "ir"}; string s; for (int k = 0; k < 3; k++) if (l.has(CH[k])) s += string(N[k]) + "=" + show(l.get(CH[k])) + ";"; return s; }
static string show(const trax::ObjectList& o) { string s; for (size_t i = 0; i < o.size(); i++) s += (i ? "|" : "") + show(o.get(i)); return s; }
static void each(const char* k, const char* v, const void* o) { (*(map<string, string>*)o)[k] = v; }
static string show(const trax::Properties& q) { trax::Properties p(q); map<string, string> m; p.enumerate(each, &m); string s; for (auto& e : m) s += e.first + "=" + e.second + ";"; return s; }
namespace trax {
class FakeTracker {
 public:
  FakeTracker(const string& command, const map<string, string> environment = map<string, string>(), int timeout = 10, ConnectionMode connection = CONNECTION_DEFAULT, VerbosityMode verbosity = VERBOSITY_DEFAULT, string directory = string(), std::ostream* log = NULL) {
    S.command = command; S.env = environment; S.timeout = timeout; S.connection = connection; S.verbosity = verbosity; S.made++; call("start"); S.live++;
  }
  ~FakeTracker() { S.live--; }
  FakeTracker(const FakeTracker&) = delete;
  Metadata metadata() { if (!up) throw std::runtime_error("Tracker not initialized yet."); return Metadata(TRAX_REGION_ANY, S.formats, S.channels, "Name", "What it does", "Its family", 0); }
  bool ready() const { return up; }
  bool tracking() const { return up && on; }
  bool query() { if (up) return true; if (dead) return false; return begin("query"); }
  bool initialize(const ImageList& image, const Region& region, const Properties& properties = Properties()) {
    query(); if (!up) throw std::runtime_error("Tracker process not alive"); on = false; vtime += S.cost_init; if (S.seen) S.seen(image); call("initialize", ::show(image), ::show(region), ::show(properties)); return fate("initialize");
  }
  bool initialize(const ImageList& image, const ObjectList& o, const Properties& properties = Properties()) {
    if (!S.multi) { if (o.size() != 1) throw std::runtime_error("one object is wanted"); return initialize(image, o.get(0), properties); }
    query(); if (!up) throw std::runtime_error("Tracker process not alive"); on = false; S.tracked = o.size(); vtime += S.cost_init; if (S.seen) S.seen(image); call("initialize", ::show(image), ::show(o), ::show(properties)); return fate("initialize");
  }
  bool frame(const ImageList& image, const Properties& properties = Properties()) {
    need(); vtime += S.cost_frame; if (S.seen) S.seen(image); call("frame", ::show(image), "", ::show(properties)); return fate("frame");
  }
  bool frame(const ImageList& image, const ObjectList& o, const Properties& properties = Properties()) {
    need(); if (o.size() && !S.multi) throw std::runtime_error("no objects are wanted"); S.tracked += o.size(); vtime += S.cost_frame; if (S.seen) S.seen(image); call("frame", ::show(image), o.size() ? ::show(o) : "", ::show(properties)); return fate("frame");
  }
  bool wait(Region& region, Properties& properties) {
    need(); vtime += S.cost_wait + S.waits++; call("wait"); auto r = S.reply();
    switch (r.first) {
      case ANSWER: region = r.second; return true;
      case QUIT: on = false; return false;
      case THROWS: on = up = false; dead = true; throw std::runtime_error("Unable to retrieve response");
    }
    on = up = false; dead = true; return false;
  }
  bool wait(ObjectList& o, Properties& properties) { Region r; if (!wait(r, properties)) return false; int n = S.multi ? S.tracked : 1; ObjectList l(n); for (int i = 0; i < n; i++) l.set(i, r); o = l; return true; }
  bool reset() { call("reset"); up = on = dead = false; return begin("reset"); }
  void register_watchdog(WatchdogCallback* callback) { S.watchdog = callback; }
  bool multiobject() const { return S.multi && up; }
 private:
  bool up = false, on = false, dead = false;
  void need() { if (!up) throw std::runtime_error("Tracker process not alive"); if (!on) throw std::runtime_error("Tracker not initialized yet."); }
  void call(const char* what, const string& i = "", const string& r = "", const string& p = "") { S.log.push_back({what, i, r, p}); }
  bool begin(const char* what) { int a = S.ask(what); if (a == ANSWER) { up = true; return true; } dead = true; if (a == THROWS) throw std::runtime_error("Unable to connect"); return false; }
  bool fate(const char* what) { int a = S.ask(what); if (a == ANSWER) { on = true; return true; } up = false; dead = true; if (a == THROWS) throw std::runtime_error("broken"); return false; }
};
static timer_state fake_clock() { return (timer_state)vtime; }
static double fake_elapsed(timer_state begin) { return (double)(vtime - (long)begin); }
}

