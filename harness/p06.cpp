// P06: a saved trajectory is loaded as it was, whatever the line endings of the file.
#include "newcount.hpp"
#include "regref.hpp"
#include <trax/client.hpp>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace rg;
static float back(float f) { char b[80]; snprintf(b, sizeof b, "%.4f", f); return (float)atof(b); }
static string file() { static string p; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); p = string(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + "/mcp06-" + std::to_string(owner); } return p; }
static string get(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const string& f, const string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
static const int NP = 14;
struct V { trax::Region r; string want; };
static trax::Region wrap(const R& r) {
  switch (r.type) {
    case TRAX_REGION_SPECIAL: return trax::Region::create_special(r.code);
    case TRAX_REGION_RECTANGLE: return trax::Region::create_rectangle(r.v[0], r.v[1], r.v[2], r.v[3]);
    case TRAX_REGION_POLYGON: { auto t = trax::Region::create_polygon(r.p.size()); for (size_t i = 0; i < r.p.size(); i++) t.set_polygon_point(i, r.p[i].first, r.p[i].second); return t; }
    default: { auto t = trax::Region::create_mask(r.mx, r.my, r.mw, r.mh); for (int y = 0; y < r.mh; y++) memcpy(t.write_mask_row(y), &r.md[y * r.mw], r.mw); return t; }
  }
}
static V val(const R& r) { V v; v.r = wrap(r); R q = r; for (auto& f : q.v) f = back(f); for (auto& f : q.p) { f.first = back(f.first); f.second = back(f.second); } v.want = desc(q); return v; }
static V value(int k) {
  switch (k) {
    case 0: { V v; v.want = "empty"; return v; }
    case 1: return val(rect(1, 2, 3, 4));
    case 2: return val(mask(3, 1, 3, 2, "101010"));
    case 3: return val(poly({{1, 2}, {30.25f, 4}, {5, -6.5f}}));
    case 4: return val(special(0));
    case 5: return val(special(-7));
    case 6: return val(rect(-0.5f, 2.12345f, 1000000.f, 0.00006f));
    case 7: return val(mask(-20, 700, 2, 2, "0000"));
    case 8: return val(poly({{0, 0}, {9, 0}, {9, 9}, {0, 9}, {-3.3333f, 4}}));
    case 9: return val(special(1));
    case 10: return val(mask(0, 0, 1, 1, "1"));
    case 11: return val(special(2147483647));
    case 12: return val(mask(0, 0, 4, 1, "0011"));
    default: return val(rect(0, 0, 0, 0));
  }
}
static string show(const trax::Region& r) {
  if (r.empty()) return "empty";
  switch (r.type()) {
    case TRAX_REGION_SPECIAL: return "special:" + std::to_string(r.get());
    case TRAX_REGION_RECTANGLE: { R q = rect(0, 0, 0, 0); r.get(&q.v[0], &q.v[1], &q.v[2], &q.v[3]); return desc(q); }
    case TRAX_REGION_POLYGON: { R q = poly({}); for (int i = 0, n = r.get_polygon_count(); i < n; i++) { float x, y; r.get_polygon_point(i, &x, &y); q.p.push_back({x, y}); } return desc(q); }
    case TRAX_REGION_MASK: { int x, y, w, h; r.get_mask_header(&x, &y, &w, &h); string d; for (int i = 0; i < h; i++) d.append(r.get_mask_row(i), w); for (auto& e : d) e = e ? '1' : '0'; return desc(mask(x, y, w, h, d)); }
  }
  return "type " + std::to_string(r.type());
}
static string all(const vector<trax::Region>& t, size_t from = 0) { string s; for (size_t i = from; i < t.size(); i++) s += show(t[i]) + "\n"; return s; }
// the file with the given line endings; last = whether the last line keeps its ending
static const char* EOLS[] = {"\n", "\r\n", "\r"};
static string endings(Ctx& c, const string& s, int e, bool last) {
  string o; size_t p = 0; vector<string> l; while (p < s.size()) { size_t q = s.find('\n', p); if (q == string::npos) c.fail("format", "the last line of a saved file is not terminated"); l.push_back(s.substr(p, q - p)); p = q + 1; }
  for (size_t i = 0; i < l.size(); i++) { o += l[i]; if (i + 1 < l.size() || last) { string x = EOLS[e < 3 ? e : c.choose(3)]; if (x == "\n" && !o.empty() && o.back() == '\r') throw Prune(); o += x; } }   // (CR LF is one ending)
  return o;
}
static void check(Ctx& c, vector<V>& v, int e, bool last, int old) {
  string f = file(), want; vector<trax::Region> t; for (auto& x : v) { t.push_back(x.r); want += x.want + "\n"; }
  put(f, string(old, '7')); trax::save_trajectory(f, t); if (all(t) != [&] { string s; for (auto& x : v) s += show(x.r) + "\n"; return s; }()) c.fail("save", "saving changed the trajectory");
  string s = get(f); if ((size_t)std::count(s.begin(), s.end(), '\n') != v.size()) c.fail("format", "not one line per entry: " + mc::esc(s));
  string m = endings(c, s, e, last); if (m != s) put(f, m);
  c.step(); c.state(m); vector<trax::Region> u; if (old) u.push_back(trax::Region::create_special(99)); size_t base = u.size(); int n = trax::load_trajectory(f, u);
  if (n != (int)v.size()) c.fail("count", std::to_string(v.size()) + " entries saved, " + std::to_string(n) + " loaded: " + mc::esc(m));
  if (u.size() != base + v.size()) c.fail("count", "number of entries in the vector: " + std::to_string(u.size() - base)); if (base && show(u[0]) != "special:99") c.fail("append", "an entry that was there before changed");
  if (all(u, base) != want) c.fail("content", "saved\n" + want + "loaded\n" + all(u, base) + mc::esc(m));
  c.outcome(v.empty() ? "empty" : last ? "terminated" : "unterminated");
}
// nothing may be left allocated once everything is released
static void counted(Ctx& c, const std::function<void()>& f) { long n = mc_new_live; f(); if (mc_new_live != n) c.fail("leak", "objects left"); shim::check_balanced(c); }
int main(int argc, char** argv) {
  Main m("P06"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); unlink(file().c_str()); };
  bool T = m.thorough; int L = T ? 5 : 4, K = T ? 9 : 7;
  m.bounds = {"every sequence of up to " + std::to_string(L) + " entries over a pool of " + std::to_string(K) + " regions (" + std::to_string(NP) + " for up to 3 entries) of every type including the empty one, x LF/CRLF/CR x last line terminated or not x file and vector fresh or in use",
              "every sequence of 3 entries over 5 with every combination of line endings", "single entries of every text length up to 2000 characters (polygon corners, mask runs)", "every pair of reads of the pool through the stream operators into the same object"};
  auto seq = [](Ctx& c, int n, int k) { vector<V> v; for (int i = 0; i < n; i++) v.push_back(value(c.choose(k))); return v; };
  m.add("sequences", 0, 3, [=](Ctx& c) { int n = c.choose(L + 1), e = c.choose(3); bool last = c.choose(2); auto v = seq(c, n, n <= 3 ? NP : K); if (!last && (v.empty() || v.back().want == "empty")) throw Prune(); check(c, v, e, last, 0); });
  m.add("inuse", 0, 2, [=](Ctx& c) { int n = c.choose(4), e = c.choose(3); auto v = seq(c, n, 7); check(c, v, e, true, 500); });
  m.add("mixed", 0, 2, [=](Ctx& c) { int n = 1 + c.choose(3); bool last = c.choose(2); auto v = seq(c, n, 5); if (!last && v.back().want == "empty") throw Prune(); check(c, v, 3, last, 0); });
  m.add("lengths", 0, 1, [=](Ctx& c) {
    int kind = c.choose(3), n = c.choose(2001); R r;
    if (kind == 0) { if (n < 3 || n > 160) throw Prune(); r = poly({}); for (int i = 0; i < n; i++) r.p.push_back({(float)i, i * 0.25f}); }
    else if (kind == 1) { if (n < 1 || n > 1000) throw Prune(); string d(n, '1'); for (int i = 0; i < n; i += 2) d[i] = '0'; r = mask(1, 2, n, 1, d); }
    else { if (n < 1) throw Prune(); r = mask(0, 0, n, 2, string(n, '1') + string(n, '0')); }
    vector<V> v; v.push_back(value(1)); v.push_back(val(r)); v.push_back(value(2)); check(c, v, n % 3, n & 1, 0);
  });
  m.add("stream", 0, 2, [=](Ctx& c) {
    counted(c, [&] {
      V a = value(c.choose(NP)), b = value(c.choose(NP)), d = value(c.choose(NP)); std::stringstream s; s << a.r << b.r << d.r; trax::Region r; int mode = c.choose(2); if (mode) r = a.r; trax::Region keep = r;
      for (auto* x : {&a, &b, &d}) { s >> r; if (!s) c.fail("stream", "reading failed"); if (show(r) != x->want) c.fail("stream", "wrote " + x->want + ", read " + show(r)); }
      if (mode && show(keep) != show(a.r)) c.fail("stream", "reading into an object changed its copy"); c.outcome("stream"); s >> r; if (s) { char ch; if (s.get(ch)) c.fail("stream", "text left"); }
    });
  });
  m.add("missing", 0, 1, [=](Ctx& c) { vector<trax::Region> u; int k = c.choose(2); string f = k ? string("/proc/self/no/such") : file(); unlink(file().c_str()); if (trax::load_trajectory(f, u) != 0 || !u.empty()) c.fail("missing", "entries from a file that does not exist"); c.outcome("missing"); });
  return m.run();
}
