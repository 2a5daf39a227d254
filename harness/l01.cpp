// L01: what the library reads and writes does not depend on the locale of the program. Every operation
// is executed in the standard locale and in each of several others and has to give the same.
#include "tracker.hpp"
#include "regref.hpp"
#include "process.h"
#include <locale.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace tk; using ref::dregion; using ref::dprops; using ref::rprops; using ref::dobjects; using ref::dimages; using std::pair;
// decimal comma; digit grouping; a decimal point of two bytes; other upper and lower case; letters beyond ASCII
static const char* LOC[][3] = {{"de_DE", "UTF-8", "de_DE.UTF-8"}, {"fr_FR", "UTF-8", "fr_FR.UTF-8"}, {"ps_AF", "UTF-8", "ps_AF.UTF-8"}, {"tr_TR", "ISO-8859-9", "tr_TR.ISO-8859-9"}, {"de_DE", "ISO-8859-1", "de_DE.ISO-8859-1"}};
static const int NL = sizeof LOC / sizeof *LOC;
struct In {
  bool on; explicit In(int k) : on(k >= 0) { if (on) { std::locale::global(std::locale(LOC[k][2])); setlocale(LC_ALL, LOC[k][2]); } }
  ~In() { if (on) { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); } }
};
static string num(const char* s) { return s ? string(s) : "null"; }
static void compare(Ctx& c, const char* what, const std::function<string(int)>& f, const char* tag = nullptr) {
  int k = c.choose(NL); string e = f(-1), g = f(k); c.step(); c.state(fnvs(e, fnvs(g, k))); c.outcome(tag ? tag : what);
  if (e != g) c.fail(what, string("in the standard locale ") + mc::esc(e, 500) + "\n  in " + LOC[k][2] + " " + mc::esc(g, 500)); shim::check_balanced(c);
}
static string file() { static string p; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); p = string(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + "/mcl01-" + std::to_string(owner); } return p; }
static const float V[] = {0, 1.5f, -2.25f, 1234567.f, 1e-3f, -0.5f, 40000.0625f}; static const int NV = 7;
static rg::R region(Ctx& c, bool small = false) {
  if (small) { float a = V[c.choose(NV)]; switch (c.choose(4)) { case 0: return rg::rect(a, -1.5f, 2.25f, 1000); case 1: return rg::poly({{a, 1}, {2.5f, a}, {1e3f, 7}}); case 2: return rg::mask(-1234, 1000000, 3, 2, "101011"); default: return rg::special(0); } }
  switch (c.choose(4)) {
    case 0: { float a = V[c.choose(NV)], b = V[c.choose(NV)]; return rg::rect(a, b, V[c.choose(NV)], 3.5f); }
    case 1: { vector<pair<float, float>> p; float a = V[c.choose(NV)], b = V[c.choose(NV)]; for (int i = 0, n = 3 + c.choose(3); i < n; i++) p.push_back({a + i, b - i * 0.5f}); return rg::poly(p); }
    case 2: return rg::mask(c.choose(2) ? -1234 : 5678, 1000000, 3, 2, "101011");
    default: return rg::special(c.choose(2) ? 1234567 : -1000);
  }
}
static string raw(const trax_properties* p) { string s; trax_properties_enumerate(p, [](const char* k, const char* v, const void* o) { *(string*)o += string(k) + "=" + v + ";"; }, &s); return s; }
int main(int argc, char** argv) {
  string dir = string(argv[0]) + ".locales"; mkdir(dir.c_str(), 0755);
  for (auto& l : LOC) { string d = dir + "/" + l[2], cmd = "test -e '" + d + "/LC_NUMERIC' || { localedef -i " + l[0] + " -f " + l[1] + " '" + d + ".tmp'" + std::to_string(getpid()) + " >/dev/null 2>&1; mv -T '" + d + ".tmp'" + std::to_string(getpid()) + " '" + d + "' 2>/dev/null; true; }"; if (system(cmd.c_str())) {} }
  setenv("LOCPATH", dir.c_str(), 1); for (auto& l : LOC) { if (!setlocale(LC_ALL, l[2])) { fprintf(stderr, "L01: locale %s cannot be made\n", l[2]); return 2; } } setlocale(LC_ALL, "C");
  Main m("L01"); m.parse(argc, argv); m.cleanup_after = [] { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); vt_reset(); shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {"five locales (decimal comma, digit grouping, decimal point of two bytes, Turkish case, letters beyond ASCII), as C and as C++ locale",
              "region texts of up to " + string(T ? "4" : "3") + " tokens out of 14 after each of 6 prefixes; rectangles, polygons, masks and codes with 7 values per coordinate: encoded, decoded, printed to a stream, saved to and loaded from trajectory files",
              "properties set as float, int and text (17 texts), read as text, int and float, in C and C++", "sessions: hello, requests, replies with regions, images and properties; lines with every byte as key, in the type, in upper and lower case",
              "started trackers: arguments, environment, announced port"};
  m.add("decode", 0, 3, [T](Ctx& c) {
    static const char *P[] = {"", "rect:", "poly:", "mask:", "special:", "m"}, *N[] = {"1.5", "-0.25", "1", "1e3", ".5", "5.", "1.2.3", "0x1.8p1", "nan", "inf", "12.", "1 5", "1\xd9\xab" "5", "1\xc2\xa0" "000"}; string t = P[c.choose(6)]; static const int CNT[] = {1, 4, 6}; int n = T ? 1 + c.choose(4) : CNT[c.choose(2)]; int z = c.choose(2);
    for (int i = 0; i < n; i++) { if (i) t += ","; t += i < 3 ? N[c.choose(14)] : "2.5"; } if (z) t += ",3.5,4.5";
    compare(c, "decode", [&](int k) { trax_region* r; { In l(k); r = trax_region_decode(t.c_str()); } string s = dregion(r); if (r) trax_region_release(&r); return t + " is " + s; });
  });
  m.add("encode", 0, 2, [](Ctx& c) {
    rg::R q = region(c);
    compare(c, "encode", [&](int k) { trax_region* r = rg::make(q); char* e; { In l(k); e = trax_region_encode(r); } string s = num(e); trax_region* d; { In l(k); d = trax_region_decode(e); } s += " again " + dregion(d); shim::raw_free(e); trax_region_release(&d); trax_region_release(&r); return s; });
  });
  m.add("stream", 0, 2, [](Ctx& c) {
    rg::R q = region(c); int n = 1 + c.choose(3);
    compare(c, "stream", [&](int k) { string t, s; { trax::Region r; { trax_region* x = rg::make(q); char* e = trax_region_encode(x); std::istringstream in(string(e) + "\n"); in >> r; shim::raw_free(e); trax_region_release(&x); }
      { In l(k); std::ostringstream o; for (int i = 0; i < n; i++) o << r; t = o.str(); std::istringstream in(t); for (;;) { trax::Region b; in >> b; if (b.empty()) break; s += string(b) + " "; } }
      In l(k); string name = file(); vector<trax::Region> v(n, r), w; trax::save_trajectory(name, v); { std::ifstream i(name); std::stringstream all; all << i.rdbuf(); s += all.str(); } s += std::to_string(trax::load_trajectory(name, w)) + " "; s += std::to_string(w.size()); for (auto& x : w) s += " " + string(x); unlink(name.c_str()); }
      return t + s; });
  });
  static const char* TX[] = {"1.5", "1,5", "-2.25", "7", "1e3", "1.000", "1,000", "1 000", " 3", "3 ", "x", "", "0x1.8p1", "nan", "1.2.3", "1\xd9\xab" "5", "2147483647.5"};
  m.add("properties", 0, 2, [](Ctx& c) {
    int op = c.choose(4); float f = V[c.choose(NV)]; int i = (const int[]){0, -1, 1234567, -1000}[c.choose(4)]; const char* t = TX[c.choose(17)];
    compare(c, "properties", [&](int k) {
      string s, a, b; int x; float y; trax_properties* p = trax_properties_create();
      if (op < 2) { { In l(k); if (op) trax_properties_set_float(p, "k", f); else trax_properties_set_int(p, "k", i); } s = raw(p) + " "; { In l(k); x = trax_properties_get_int(p, "k", -9); y = trax_properties_get_float(p, "k", -9); } }
      else if (op == 2) { trax_properties_set(p, "k", t); In l(k); x = trax_properties_get_int(p, "k", -9); y = trax_properties_get_float(p, "k", -9); }
      else { trax::Properties q; { In l(k); q.set("f", f); q.set("i", i); q.set("t", t); y = q.get("f", -9.f) + q.get("t", -9.f); x = q.get("i", -9) + q.get("t", -9); std::ostringstream o; o << q; a = o.str(); b = q.get("f", "none"); } s = a + b; }
      trax_properties_release(&p); return s + std::to_string(x) + " " + ref::fnum(y); });
  });
  // a conversation of two peers that share the locale, and of one in the locale with a stream of another one
  m.add("session", 0, 2, [](Ctx& c) {
    rg::R q = region(c, true); int version = c.choose(2) ? 4 : 3, im = c.choose(3); float f = V[c.choose(NV)]; int mixed = c.choose(3);   // locale on both sides, client only, server only
    compare(c, "session", [&](int k) {
      World w(c); string out; int kc = mixed == 2 ? -1 : k, ks = mixed == 1 ? -1 : k;
      w.run([&] {
        bool started = false; int a[2], b[2]; vo_pipe(a); vo_pipe(b); ref::Log log; trax_handle *s, *cl; trax_properties *pc = trax_properties_create(), *ps = trax_properties_create();
        { In l(ks); trax_metadata* md = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, TRAX_CHANNEL_COLOR, "Name 1.5", nullptr, nullptr, 0); trax_properties_set_float(md->custom, "f", f); s = trax_server_setup_file_v(md, a[0], b[1], trax_no_log, version); trax_metadata_release(&md); }
        { In l(kc); cl = trax_client_setup_file(b[0], a[1], trax_logger_setup(ref::logcb, &log, 0)); } if (!cl) { out = "no client"; return; }
        trax_image_list* il = trax_image_list_create(); trax_image* i = im == 0 ? trax_image_create_path("/a/1234.png") : im == 1 ? trax_image_create_memory(1200, 1, TRAX_IMAGE_MEMORY_GRAY8) : trax_image_create_buffer(8, "\xff\xd8\xff 1,5"); if (im == 1) memset(trax_image_write_memory_row(i, 0), 7, 1200); trax_image_list_set(il, i, TRAX_CHANNEL_COLOR);
        trax_object_list* o = trax_object_list_create(1); trax_region* r = rg::make(q); trax_object_list_set(o, 0, r);
        { In l(kc); trax_properties_set_float(pc, "c", f); trax_properties_set_float(trax_object_list_properties(o, 0), "o", f); started = trax_client_initialize(cl, il, o, pc) == TRAX_OK; }
        trax_properties* pr = trax_properties_create(); trax_image_list* gi = nullptr; trax_object_list* go = nullptr; trax_region* gr = nullptr; int g = TRAX_ERROR; if (started) { In l(ks); g = version == 4 ? trax_server_wait_mot(s, &gi, &go, pr) : trax_server_wait_sot(s, &gi, &gr, pr); } out += " " + std::to_string(g) + dimages(gi) + dobjects(go) + (gr ? dregion(gr) : "") + dprops(rprops(pr));
        if (g == TRAX_INITIALIZE) { In l(ks); trax_properties_set_float(ps, "s", f); if (version == 4) { for (int n = 0; n < trax_object_list_count(go); n++) trax_properties_set_float(trax_object_list_properties(go, n), "s", f); out += std::to_string(trax_server_reply_mot(s, go)); } else out += std::to_string(trax_server_reply_sot(s, gr, ps)); }
        if (g == TRAX_INITIALIZE) { trax_object_list* x = nullptr; int e; { In l(kc); e = trax_client_wait(cl, &x, nullptr); } out += " " + std::to_string(e) + dobjects(x); if (x) trax_object_list_release(&x); }
        { In l(kc); out += std::to_string(trax_terminate(cl, "1.5")); } out += log.data;
        if (gi) { trax_image_list_clear(gi); trax_image_list_release(&gi); } if (go) trax_object_list_release(&go); if (gr) trax_region_release(&gr); trax_properties_release(&pr); trax_properties_release(&pc); trax_properties_release(&ps);
        trax_object_list_release(&o); trax_region_release(&r); trax_image_list_clear(il); trax_image_list_release(&il); trax_cleanup(&cl); trax_cleanup(&s); vo_close(a[0]); vo_close(a[1]); vo_close(b[0]); vo_close(b[1]);
      });
      return out; });
  });
  // single lines with any byte, read by a server
  m.add("lines", 0, 2, [](Ctx& c) {
    int kind = c.choose(6); string b(1, (char)(1 + c.choose(255))); if (b == "\n") throw Prune(); static const char* IMG[] = {"image:2;1;GRAY8;AAAA", "image:1;1;Rgb;AAAA", "data:IMAGE/JPEG;/9j/AAAA", "data:Image/PNG;iVBORw0KGgo=", "IMAGE:1;1;rgb;AAAA", "FILE:///I", "image:1;1;gRAY16;AAA="};
    static const char* TY[] = {"INITIALIZE", "Initialize", "FRAME", "QUIT", "quiT", "initIaliZe"}; string l = "@@TRAX:initialize file:///x 1,1,2,2\n";
    switch (kind) { case 0: l += "@@TRAX:frame file:///a " + b + "=v\n"; break; case 1: l += "@@TRAX:frame file:///a \"a" + b + "b=v\"\n"; break; case 2: l += "@@TRAX:frame" + b + " file:///a\n"; break; case 3: l += "@@TRAX:" + b + "frame file:///a\n@@TRAX:frame b:x\n"; break; case 4: l = string("@@TRAX:") + TY[c.choose(6)] + " file:///x 1,1,2,2 k=" + b + "\n"; break; default: l += string("@@TRAX:frame ") + IMG[c.choose(7)] + " " + b + "\n@@TRAX:frame " + IMG[c.choose(7)] + "\n"; }
    compare(c, "lines", [&](int k) {
      World w(c); string out;
      w.run([&] {
        int a[2], b[2]; vo_pipe(a); vo_pipe(b); trax_metadata* md = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, TRAX_CHANNEL_COLOR, nullptr, nullptr, nullptr, 0); trax_handle* s = trax_server_setup_file_v(md, a[0], b[1], trax_no_log, 3); trax_metadata_release(&md);
        vo_write(a[1], l.data(), l.size()); vo_close(a[1]);
        for (int i = 0; i < 4; i++) { trax_image_list* gi = nullptr; trax_region* gr = nullptr; trax_properties* pr = trax_properties_create(); int g; { In x(k); g = trax_server_wait_sot(s, &gi, &gr, pr); } out += " " + std::to_string(g) + dimages(gi) + (gr ? dregion(gr) : "") + dprops(rprops(pr)); if (gi) { trax_image_list_clear(gi); trax_image_list_release(&gi); } if (gr) trax_region_release(&gr); trax_properties_release(&pr); if (g == TRAX_ERROR || g == TRAX_QUIT) break; }
        trax_cleanup(&s); vo_close(a[0]); vo_close(b[0]); vo_close(b[1]);
      });
      return out; });
  });
  m.add("trackers", 0, 2, [](Ctx& c) {
    static const trax::ConnectionMode MODE[] = {trax::CONNECTION_DEFAULT, trax::CONNECTION_EXPLICIT, trax::CONNECTION_SOCKETS}; int mode = c.choose(3), what = c.choose(2);
    compare(c, "trackers", [&](int k) {
      World w(c); w.s.free_choice = false; string out;
      if (what == 0) w.behaviour = [&out](Tracker& t) { for (auto& e : t.p.env) if (e.compare(0, 5, "TRAX_") == 0 || e.compare(0, 1, "X") == 0) { if (e.compare(0, 12, "TRAX_SOCKET=") == 0) { string d = e.substr(12); if (d.find_first_not_of("0123456789") == string::npos) d = "port"; out += "TRAX_SOCKET=" + d + ";"; } else out += e + ";"; } for (auto& a : t.p.argv) out += "[" + a + "]"; answer(t); };
      w.run([&] {
        std::map<string, string> env; env["X"] = "1.5"; bool threw = false; string got;
        try { std::unique_ptr<trax::TrackerProcess> p; { In l(k); p.reset(new trax::TrackerProcess("tracker 1234 \"a b\" 1,5", env, 12, MODE[mode])); }
          trax::ImageList il; il.set(trax::Image::create_path("/1"), TRAX_CHANNEL_COLOR); trax::ObjectList ol(1); ol.set(0, trax::Region::create_rectangle(1.5, 1234.25, 3, 4)); trax::ObjectList so; trax::Properties pr; pr.set("f", 1.25f); bool ok; { In l(k); ok = p->initialize(il, ol, pr); } out += ok ? " started" : " not started"; { In l(k); ok = p->wait(so, pr); } out += ok ? " answered" : " not answered"; if (ok && so.size()) out += string(so.get(0)); In l(k); p.reset();
        } catch (const std::exception& e) { out += string(" threw ") + e.what(); }
      });
      return out; });
  });
  return m.run();
}
