// W01: the C++ wrappers are safe values. Every sequence of construction, copy, move, assignment
// (also to itself), mutation and destruction over three objects of a class, each compared with the
// value last given to it after every step; in the end nothing may be left allocated.
#include "newcount.hpp"
#include "ref.hpp"
#include <sstream>
using namespace mc; using ref::string; using ref::vector; using ref::Props;
static string num(float f) { return ref::fnum(f); }

// ---- what an object shows through its public interface -----------------------------------
static string show(const trax::Region& r) {
  int t = r.type(); string s; if (r.empty() != (t == TRAX_REGION_EMPTY)) return "empty() disagrees with type()";
  if (r.empty()) { if (!string(r).empty()) return "empty region has text"; return "empty"; }
  switch (t) {
    case TRAX_REGION_SPECIAL: s = "special:" + std::to_string(r.get()); break;
    case TRAX_REGION_RECTANGLE: { float x = -1, y = -1, w = -1, h = -1; r.get(&x, &y, &w, &h); s = "rect:" + num(x) + "," + num(y) + "," + num(w) + "," + num(h); break; }
    case TRAX_REGION_POLYGON: { s = "poly:"; for (int i = 0, n = r.get_polygon_count(); i < n; i++) { float x, y; r.get_polygon_point(i, &x, &y); s += num(x) + "," + num(y) + ";"; } break; }
    case TRAX_REGION_MASK: { int x, y, w, h; r.get_mask_header(&x, &y, &w, &h); s = "mask:" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(w) + "x" + std::to_string(h) + ":"; for (int i = 0; i < h; i++) { const char* p = r.get_mask_row(i); for (int k = 0; k < w; k++) s += p[k] ? '1' : '0'; } break; }
    default: return "bad type " + std::to_string(t);
  }
  if (t == TRAX_REGION_SPECIAL ? string(r) != std::to_string(r.get()) : string(r).empty()) return "text " + string(r);
  return s;
}
static string show(const trax::Properties& p) {
  Props m, t; p.to_map(m); vector<string> k; p.to_vector(k); if (k.size() != m.size() || p.size() != (int)m.size()) return "size() = " + std::to_string(p.size()) + " keys = " + std::to_string(k.size()) + " of " + std::to_string(m.size());
  for (auto& x : m) if (p.get(x.first, string("none")) != x.second) return "get(" + x.first + ") = " + p.get(x.first, string("none"));
  if (p.get("absent", 5) != 5 || p.get("absent", string("d")) != "d" || p.get("absent", 1.5f) != 1.5f || p.get("absent", true) != true) return "default of an absent key";
  return ref::dprops(m);
}
static string show(const trax::Image& i) {
  int t = i.type(); if (i.empty() != (t == TRAX_IMAGE_EMPTY)) return "empty() disagrees with type()";
  switch (t) {
    case TRAX_IMAGE_EMPTY: return "none";
    case TRAX_IMAGE_PATH: return "path:" + i.get_path();
    case TRAX_IMAGE_URL: return "url:" + i.get_url();
    case TRAX_IMAGE_MEMORY: { int w, h, f; i.get_memory_header(&w, &h, &f); string s = "mem:" + std::to_string(w) + "x" + std::to_string(h) + ":" + std::to_string(f) + ":"; for (int y = 0; y < h; y++) s += string(i.get_memory_row(y), w); return s; }
    case TRAX_IMAGE_BUFFER: { int l, f; const char* p = i.get_buffer(&l, &f); return "buf:" + std::to_string(f) + ":" + string(p, l); }
  }
  return "bad type";
}
static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
static string show(const trax::ImageList& l) {
  string s = "I("; int n = 0; for (int c : CH) { trax::Image i = l.get(c); string d = show(i); if (l.has(c) != (d != "none")) return "has() disagrees with get()"; n += d != "none"; s += d + ";"; }
  if (l.size() != n) return "size() = " + std::to_string(l.size()); return s + ")";
}
static string show(const trax::ObjectList& l) {
  string s = "O("; for (int i = 0; i < l.size(); i++) { string d = show(l.get(i)); s += (d == "empty" ? "special:0" : d) + show(l.properties(i)) + ";"; } return s + ")";
}
static string show(const trax::Metadata& m) {
  return std::to_string(m.region_formats()) + "/" + std::to_string(m.image_formats()) + "/" + std::to_string(m.channels()) + "/" + m.tracker_name() + "/" + m.tracker_description() + "/" + m.tracker_family() + "/" + m.get_custom("a") + "/" + m.get_custom("b");
}

// ---- values, constructors and setters of every class ----------------------------------------
struct VRegion {
  static const bool pool = false;
  typedef trax::Region T; typedef string V; static const int makes = 5;
  static T make(int k, V& v) {
    switch (k) {
      case 0: v = "empty"; return T();
      case 1: v = "rect:1,2,3,4"; return T::create_rectangle(1, 2, 3, 4);
      case 2: { T r = T::create_mask(-1, 2, 2, 2); for (int y = 0; y < 2; y++) { char* p = r.write_mask_row(y); p[0] = y; p[1] = 1; } v = "mask:-1,2,2x2:0111"; return r; }
      case 3: { T r = T::create_polygon(3); for (int i = 0; i < 3; i++) r.set_polygon_point(i, i, i * i); v = "poly:0,0;1,1;2,4;"; return r; }
      default: v = "special:3"; return T::create_special(3);
    }
  }
  static const int muts = 5; static string text(const V& v) { return v; }
  static bool mut(int k, T& o, V* v) {
    switch (k) {
      case 0: o.set(8); if (v) *v = "special:8"; return true;
      case 1: o.set(5, 6, 7, 8); if (v) *v = "rect:5,6,7,8"; return true;
      case 2: if (o.type() != TRAX_REGION_POLYGON) return false; o.set_polygon_point(1, -4, 9); if (v) { size_t a = v->find(';'), b = v->find(';', a + 1); *v = v->substr(0, a + 1) + "-4,9" + v->substr(b); } return true;
      case 3: if (o.type() != TRAX_REGION_MASK) return false; { char* p = o.write_mask_row(1); p[0] ^= 1; } if (v) { char& c = (*v)[v->rfind(':') + 3]; c ^= 1; } return true;
      default: { std::istringstream is("rect:2.5,1,2,3\nx"); is >> o; if (v) *v = "rect:2.5,1,2,3"; return true; }
    }
  }
};
struct VProps {
  static const bool pool = false;
  typedef trax::Properties T; typedef Props V; static const int makes = 2; static string text(const V& v) { return ref::dprops(v); }
  static T make(int k, V& v) { v.clear(); T p; if (k) { p.set("a", string("1")); v["a"] = "1"; } return p; }
  static const int muts = 5;
  static bool mut(int k, T& o, V* v) {
    switch (k) {
      case 0: o.set("a", string("x y")); if (v) (*v)["a"] = "x y"; break;
      case 1: o.set("b", 7); if (v) (*v)["b"] = "7"; break;
      case 2: o.clear(); if (v) v->clear(); break;
      case 3: { Props m; m["a"] = "m"; m["c"] = ""; o.from_map(m); if (v) { (*v)["a"] = "m"; (*v)["c"] = ""; } break; }
      default: { float f = 2.5; o.set("f", f); if (o.get("f", 0.0f) != 2.5f || o.get("f", 0.0) != 2.5) throw Violation{"float", "float property"}; if (v) (*v)["f"] = o.get("f", string()); }
    }
    return true;
  }
};
struct VImage {
  static const bool pool = false;
  typedef trax::Image T; typedef string V; static const int makes = 5; static string text(const V& v) { return v; }
  static T make(int k, V& v) {
    switch (k) {
      case 0: v = "none"; return T();
      case 1: { T i = T::create_memory(2, 2, TRAX_IMAGE_MEMORY_GRAY8); for (int y = 0; y < 2; y++) memcpy(i.write_memory_row(y), y ? "cd" : "ab", 2); v = "mem:2x2:" + std::to_string(TRAX_IMAGE_MEMORY_GRAY8) + ":abcd"; return i; }
      case 2: v = "path:/a"; return T::create_path("/a");
      case 3: v = "url:http://b"; return T::create_url("http://b");
      default: { string d = "\x89PNG\r\n\x1a\n123"; v = "buf:" + std::to_string(TRAX_IMAGE_BUFFER_PNG) + ":" + d; return T::create_buffer(d.size(), d.data()); }
    }
  }
  static const int muts = 2;
  static bool mut(int k, T& o, V* v) { if (o.type() != TRAX_IMAGE_MEMORY) return false; o.write_memory_row(1)[k] ^= 3; if (v) (*v)[v->size() - 2 + k] ^= 3; return true; }
};
static trax::Image* g_img; static string* g_imgv;      // images and regions put into the lists
static trax::Region* g_reg; static string* g_regv;
struct VImages {
  static const bool pool = true;
  typedef trax::ImageList T; typedef vector<string> V; static const int makes = 2; static string text(const V& v) { string s = "I("; for (auto& x : v) s += x + ";"; return s + ")"; }
  static T make(int k, V& v) { v.assign(3, "none"); T l; if (k) { l.set(g_img[0], CH[0]); v[0] = g_imgv[0]; } return l; }
  static const int muts = 7;
  static bool mut(int k, T& o, V* v) {
    static const int which[] = {0, 1, 2, 1}, chan[] = {1, 0, 0, 2};
    if (k < 4) { o.set(g_img[which[k]], CH[chan[k]]); if (v) (*v)[chan[k]] = g_imgv[which[k]]; return true; }
    if (k == 4) { VImage::mut(0, g_img[0], &g_imgv[0]); return true; }                       // a source changes later
    if (k == 5) { trax::Image i = o.get(CH[0]); if (!VImage::mut(0, i, nullptr)) return false; return true; }   // an image taken out changes
    g_img[1] = trax::Image::create_path("/z"); g_imgv[1] = "path:/z"; return true;             // a source is replaced
  }
};
struct VObjects {
  static const bool pool = true;
  typedef trax::ObjectList T; typedef vector<string> V; static const int makes = 3; static string text(const V& v) { string s = "O("; for (auto& x : v) s += x + "{};"; return s + ")"; }
  static T make(int k, V& v) { v.clear(); if (!k) return T(); T l(k); v.assign(k, "special:0"); if (k == 2) { l.set(0, g_reg[0]); v[0] = g_regv[0]; } return l; }
  static const int muts = 8;
  static bool mut(int k, T& o, V* v) {
    static const int which[] = {0, 1, 2, 0}, at[] = {0, 0, 0, 1};
    if (k < 4) { if (at[k] >= o.size()) return false; o.set(at[k], g_reg[which[k]]); if (v) (*v)[at[k]] = g_regv[which[k]]; return true; }
    if (k == 4) { g_reg[0].set(7, 7, 7, (float)g_regv[0].size()); g_regv[0] = "rect:7,7,7," + std::to_string(g_regv[0].size()); return true; }
    if (k == 5) { if (!o.size()) return false; trax::Region r = o.get(0); r.set(1); trax::Properties p = o.properties(0); p.set("k", 1); p.clear(); return true; }
    if (k == 6) { if (o.size() < 2) return false; o.set(1, o.get(0)); if (v) (*v)[1] = (*v)[0]; return true; }
    g_reg[1] = trax::Region::create_special(6); g_regv[1] = "special:6"; return true;
  }
};
struct VMeta {
  static const bool pool = false;
  typedef trax::Metadata T; typedef vector<string> V; static const int makes = 3; static string text(const V& v) { string s = v[0]; for (size_t i = 1; i < v.size(); i++) s += "/" + v[i]; return s; }
  static T make(int k, V& v) {
    if (!k) { v = {"0", "0", std::to_string(TRAX_CHANNEL_COLOR), "", "", "", "", ""}; return T(); }
    if (k == 1) { v = {std::to_string(TRAX_REGION_MASK), std::to_string(TRAX_IMAGE_PATH), std::to_string(TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR), "n", "d", "f", "", ""}; return T(TRAX_REGION_MASK, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR, "n", "d", "f"); }
    v = {std::to_string(TRAX_REGION_ANY), std::to_string(TRAX_IMAGE_ANY), std::to_string(TRAX_CHANNEL_COLOR), "", "dd", "", "1", ""}; T m(TRAX_REGION_ANY, TRAX_IMAGE_ANY, TRAX_CHANNEL_COLOR, "", "dd"); m.set_custom("a", "1"); return m;
  }
  static const int muts = 2;
  static bool mut(int k, T& o, V* v) { o.set_custom(k ? "b" : "a", k ? "bb" : "aa"); if (v) (*v)[6 + k] = k ? "bb" : "aa"; return true; }
};

// ---- the exploration ----------------------------------------------------------------------------
static const int NMAX = 3;
template <class T> struct Slot {     // like std::optional, in storage that is never zero by luck
  alignas(T) unsigned char b[sizeof(T)]; bool live = false;
  ~Slot() { reset(); }
  void reset() { if (live) { live = false; (**this).~T(); } }
  template <class... A> void emplace(A&&... a) { reset(); memset(b, 0xA5, sizeof b); new (b) T(std::forward<A>(a)...); live = true; }
  T& operator*() { return *std::launder((T*)b); } explicit operator bool() const { return live; }
};
template <class D> static void run(Ctx& c, int depth, int N) {   // two objects: temporaries of one value only
  typedef typename D::T T; typedef typename D::V V;
  long live0 = mc_new_live;
  {
    trax::Image img[3]; string imgv[3]; img[0] = VImage::make(1, imgv[0]); img[1] = VImage::make(2, imgv[1]); img[2] = VImage::make(0, imgv[2]); g_img = img; g_imgv = imgv;
    trax::Region reg[3]; string regv[3]; reg[0] = VRegion::make(1, regv[0]); reg[1] = VRegion::make(2, regv[1]); reg[2] = VRegion::make(3, regv[2]); g_reg = reg; g_regv = regv;
    Slot<T> s[NMAX]; V v[NMAX]; bool known[NMAX] = {false, false, false};
    auto observe = [&] {
      string st;
      for (int i = 0; i < N; i++) { if (!s[i]) { st += "-"; continue; } string g = show(*s[i]); if (known[i] && g != D::text(v[i])) c.fail("value", "object " + std::to_string(i) + "\n  expected " + D::text(v[i]) + "\n  got      " + g); st += g + "|"; }
      if (D::pool) for (int i = 0; i < 3; i++) { if (show(img[i]) != imgv[i]) c.fail("source", "image " + std::to_string(i) + " became " + show(img[i])); if (show(reg[i]) != regv[i]) c.fail("source", "region " + std::to_string(i) + " became " + show(reg[i]) + " instead of " + regv[i]); }
      c.state(fnvs(st, 7 + sizeof(V) + D::makes * 131));
    };
    auto fresh = [&](int i) { int k = c.choose(D::makes); s[i].emplace(D::make(k, v[i])); known[i] = true; c.trace("o%d = make %d", i, k); };
    fresh(0); observe();
    for (int step = 0; step < depth; step++) {
      int live[NMAX], nl = 0, empty = -1; for (int i = 0; i < N; i++) { if (s[i]) live[nl++] = i; else if (empty < 0) empty = i; }
      int i = c.choose(nl + (empty >= 0));
      if (i == nl) {      // construct
        int how = c.choose(1 + 2 * nl); i = empty;
        if (!how) { fresh(i); c.outcome("construct"); }
        else { int j = live[(how - 1) / 2]; if (!known[j]) throw Prune();
          if (how & 1) { s[i].emplace(*s[j]); v[i] = v[j]; known[i] = true; if ((bool)*s[i] != (bool)*s[j]) c.fail("bool", "a copy converts to bool unlike its source"); c.trace("o%d(o%d)", i, j); c.outcome("copy"); }
          else { s[i].emplace(std::move(*s[j])); v[i] = v[j]; known[i] = true; known[j] = false; c.trace("o%d(move o%d)", i, j); c.outcome("move"); } }
      } else {
        i = live[i]; int what = c.choose(2 + 2 * nl + D::muts);
        if (what == 0) { s[i].reset(); c.trace("destroy o%d", i); c.outcome("destroy"); }
        else if (what == 1) { int k = N == 2 ? 0 : c.choose(D::makes); V nv; *s[i] = D::make(k, nv); v[i] = nv; known[i] = true; c.trace("o%d = temporary %d", i, k); c.outcome("assign-temporary"); }
        else if (what < 2 + nl) { int j = live[what - 2]; if (!known[j]) throw Prune(); *s[i] = *s[j]; v[i] = v[j]; known[i] = true; if ((bool)*s[i] != (bool)*s[j]) c.fail("bool", "a copy converts to bool unlike its source"); c.trace("o%d = o%d", i, j); c.outcome(i == j ? "assign-self" : "assign"); }
        else if (what < 2 + 2 * nl) { int j = live[what - 2 - nl]; if (!known[j]) throw Prune(); V t = v[j]; *s[i] = std::move(*s[j]); v[i] = t; known[i] = i != j; if (i != j) known[j] = false; c.trace("o%d = move o%d", i, j); c.outcome(i == j ? "move-self" : "move-assign"); }
        else { int k = what - 2 - 2 * nl; if (!D::mut(k, *s[i], known[i] ? &v[i] : nullptr)) throw Prune(); c.trace("o%d.mutate %d", i, k); c.outcome("mutate"); }
      }
      observe();
    }
  }
  shim::check_balanced(c);
  if (mc_new_live != live0) c.fail("leak-new", std::to_string(mc_new_live - live0) + " blocks of operator new left");
}
int main(int argc, char** argv) {
  Main m("W01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int d2 = T ? 5 : 4, d3 = T ? 4 : 3;
  m.bounds = {"every history of " + std::to_string(d3) + " operations over three objects of a class, and of " + std::to_string(d2) + " over two, after a first construction; every operation on every pair of objects; lists share two to three source images or regions that are changed as well",
              "objects that were moved from may be observed, assigned to, mutated and destroyed; only their value is left open"};
#define ALL(name, D) m.add(name "-3", 0, 4, [d3](Ctx& c) { run<D>(c, d3, 3); }); m.add(name "-2", 0, 4, [d2](Ctx& c) { run<D>(c, d2, 2); });
  ALL("region", VRegion) ALL("properties", VProps) ALL("image", VImage) ALL("image-list", VImages) ALL("object-list", VObjects) ALL("metadata", VMeta)
  return m.run();
}
