// R01: region text encoding round-trips; every textual form decodes to what it denotes.
#include "regref.hpp"
#include <climits>
using namespace rg;
static string f4(float f) { char b[80]; snprintf(b, sizeof b, "%.4f", f); return b; }
static string text(const R& r) {
  string s;
  if (r.type == TRAX_REGION_SPECIAL) return std::to_string(r.code);
  if (r.type == TRAX_REGION_RECTANGLE) return f4(r.v[0]) + "," + f4(r.v[1]) + "," + f4(r.v[2]) + "," + f4(r.v[3]);
  if (r.type == TRAX_REGION_POLYGON) { for (size_t i = 0; i < r.p.size(); i++) s += (i ? "," : "") + f4(r.p[i].first) + "," + f4(r.p[i].second); return s; }
  return "";
}
static float back(float f) { return (float)atof(f4(f).c_str()); }
static void roundtrip(Ctx& c, const R& r) {
  trax_region* t = make(r); string before = dregion(t);
  char* e = trax_region_encode(t); if (!e) c.fail("encode", "no text for " + desc(r));
  string s = e; shim::raw_free(e);
  if (dregion(t) != before) c.fail("encode", "encoding changed the region");
  if (r.type != TRAX_REGION_MASK && s != text(r)) c.fail("encode", desc(r) + " printed as " + s);
  if (s.find_first_of(" \n\"") != string::npos) c.fail("encode", "text with separators: " + s);
  trax_region* d = trax_region_decode(s.c_str());
  R q = r; for (auto& f : q.v) f = back(f); for (auto& f : q.p) { f.first = back(f.first); f.second = back(f.second); }
  if (!d || dregion(d) != desc(q)) c.fail("roundtrip", desc(r) + " -> " + mc::esc(s) + " -> " + (d ? dregion(d) : "NULL"));
  char* e2 = trax_region_encode(d); if (!e2 || s != e2) c.fail("fixpoint", s + " -> " + (e2 ? e2 : "NULL")); shim::raw_free(e2);
  c.state(s); c.step();
  c.outcome(r.type == TRAX_REGION_SPECIAL ? "special" : r.type == TRAX_REGION_MASK ? "mask" : r.type == TRAX_REGION_POLYGON ? "polygon" : "rectangle");
  trax_region_release(&t); trax_region_release(&d); shim::check_balanced(c);
}
static const float V[] = {0, 1, -1, 0.5f, -0.25f, 2.00005f, -0.00004f, 123456.789f, -98765.4321f, 16777217.f, 1e-7f, 3.3333333f, -2147483648.f, 1e12f, -3e38f, 99999.99996f};
static const int NV = sizeof V / sizeof *V;
// What a text denotes: "NULL" or a region description
static string denotes(const string& prefix, const vector<string>& toks) {
  vector<double> n; bool nan = false; for (auto& t : toks) { n.push_back(atof(t.c_str())); if (n.back() != n.back()) nan = true; }
  auto fits = [](double v) { return v > -2147483649.0 && v < 2147483648.0; };
  if (nan) { if (n.size() == 4 && n[3] == n[3] && fits(n[3])) return "special:" + std::to_string(-(long)n[3]); return "special:0"; }
  string p = prefix; if (p.empty()) p = n.size() == 1 ? "special:" : n.size() == 4 ? "rect:" : n.size() >= 6 && n.size() % 2 == 0 ? "poly:" : "?";
  if (p == "special:") return n.size() == 1 && fits(n[0]) ? desc(special((int)n[0])) : "NULL";
  if (p == "rect:") return n.size() == 4 ? desc(rect(n[0], n[1], n[2], n[3])) : "NULL";
  if (p == "poly:") { if (n.size() < 6 || n.size() % 2) return "NULL"; vector<pair<float, float>> q; for (size_t i = 0; i < n.size(); i += 2) q.push_back({(float)n[i], (float)n[i + 1]}); return desc(poly(q)); }
  if (p == "mask:") {
    if (n.size() < 4) return "NULL"; for (size_t i = 0; i < n.size(); i++) if (!fits(n[i]) || (i > 1 && n[i] < 0)) return "NULL";
    if (n[2] < 1 || n[3] < 1 || n[2] * n[3] > 2e9) return "NULL";
    if (n[2] * n[3] > 4000) return "*";
    string d; char v = '0'; for (size_t i = 4; i < n.size(); i++) { if (n[i] > 4000) return "*"; d.append((size_t)n[i], v); v ^= 1; } size_t L = n[2] * n[3]; if (d.size() > L) return "*"; d.resize(L, '0');
    return desc(mask(n[0], n[1], n[2], n[3], d));
  }
  return "NULL";
}
int main(int argc, char** argv) {
  Main m("R01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int MB = T ? 16 : 12;
  m.bounds = {"masks: every content of every shape of up to " + std::to_string(MB) + " pixels at four positions; every pair of run boundaries of a 3 x 400 mask; runs and sizes around every power of two up to 2^" + string(T ? "21" : "19") + "",
              "values: rectangles over " + string(T ? "16" : "12") + "^4 boundary values, triangles over 5^6, polygons of 3..300 and around every power of two up to 8193 corners, special codes around every power of two",
              "forms: every text of a prefix (none, rect:, poly:, mask:, special:) and up to 7 (8 thorough) numbers from an alphabet of 5 (6), every NaN form"};
  m.add("masks", 0, 4, [MB](Ctx& c) {
    int w = 1 + c.choose(MB), h = 1 + c.choose(MB / w); static const int O[4][2] = {{0, 0}, {-7, 3}, {100000, -1}, {INT_MIN, INT_MAX}}; int o = c.choose(4);
    R r = mask(O[o][0], O[o][1], w, h, string(w * h, '0')); for (int i = 0; i < w * h; i += 8) { int n = std::min(8, w * h - i), k = c.choose(1 << n); for (int j = 0; j < n; j++) r.md[i + j] = k >> j & 1; }
    roundtrip(c, r);
  });
  m.add("runs", 0, 1, [T](Ctx& c) { int n = 400, a = c.choose(n + 1), b = c.choose(n + 1), k = c.choose(2); if (b < a) throw Prune(); if (!T && (a % 7 || b % 5) && a != n && b != n) throw Prune(); string d(n * 3, k ? '1' : '0'); for (int i = a; i < b; i++) d[i + n / 2] = k ? '0' : '1'; roundtrip(c, mask(-5, 2, n, 3, d)); });
  m.add("longruns", 0, 1, [T](Ctx& c) {   // runs, sizes and positions around powers of two
    int e = 8 + c.choose(T ? 14 : 12), n = (1 << e) + c.choose(3) - 1, shape = c.choose(3), k = c.choose(5); int w = shape == 0 ? n : shape == 1 ? 1 : 1 << (e / 2), h = shape == 0 ? 1 + (k == 4) : shape == 1 ? n : (n + w - 1) / w + 1; size_t L = (size_t)w * h;
    string d(L, k == 0 || k == 3 ? '1' : '0'); if (k == 1) d[0] = '1'; if (k == 2) { d[L - 1] = '1'; if ((size_t)n < L) d[n] = '1'; } if (k == 3) d[0] = d[std::min<size_t>(n, L - 1)] = '0'; if (k == 4) for (size_t i = L / 4; i < L - 1; i++) d[i] = '1'; roundtrip(c, mask(-5, n, w, h, d));
  });
  m.add("rect", 0, 2, [T](Ctx& c) { int n = T ? NV : 12; float v[4]; for (auto& f : v) f = V[c.choose(n)]; roundtrip(c, rect(v[0], v[1], v[2], v[3])); });
  m.add("poly", 0, 3, [](Ctx& c) { static const float W[] = {0, -1.5f, 2.00005f, 98765.4321f, -3e9f}; vector<pair<float, float>> p; for (int i = 0; i < 3; i++) { float x = W[c.choose(5)], y = W[c.choose(5)]; p.push_back({x, y}); } roundtrip(c, poly(p)); });
  m.add("longpoly", 0, 1, [](Ctx& c) { int z = c.choose(3), n = z == 0 ? 3 + c.choose(298) : z == 1 ? (1 << (9 + c.choose(5))) + c.choose(3) - 1 : 1000 * (1 + c.choose(9)), k = c.choose(3); vector<pair<float, float>> p; for (int i = 0; i < n; i++) p.push_back({V[(i + k) % NV], k == 2 ? -3e38f : (float)i / 8 - 3}); roundtrip(c, poly(p)); });
  m.add("special", 0, 1, [](Ctx& c) { int b = c.choose(32), d = c.choose(5) - 2, s = c.choose(2); long v = ((1l << b) + d) * (s ? -1 : 1); if (v < INT_MIN || v > INT_MAX) throw Prune(); roundtrip(c, special((int)v)); });
  m.add("forms", 0, 3, [T](Ctx& c) {
    static const char* PF[] = {"", "rect:", "poly:", "mask:", "special:"}; static const char* N[] = {"2", "0", "-1", "1", "3", "2.5"};
    string p = PF[c.choose(5)]; int n = 1 + c.choose(T ? 8 : 7); vector<string> t; int k = T ? (p == "mask:" ? 5 : n > 7 ? 4 : 5) : p == "mask:" ? 5 : 4;
    for (int i = 0; i < n; i++) t.push_back(N[c.choose(n <= 4 && p != "mask:" && p != "special:" && !(p == "" && n == 1) ? 6 : k)]);
    string s = p, e = denotes(p, t); for (int i = 0; i < n; i++) s += (i ? "," : "") + t[i];
    trax_region* d = trax_region_decode(s.c_str()); string g = d ? dregion(d) : "NULL";
    c.state(s); c.outcome(d ? "accepted" : "rejected");
    if (e != "*" && e != g) c.fail("form", s + " denotes " + e + ", decoded as " + g);
    if (d) trax_region_release(&d); shim::check_balanced(c);
  });
  m.add("nan", 0, 1, [](Ctx& c) {
    static const char* N[] = {"nan", "0", "-7", "NaN", "2147483647", "NAN", "1"}; int n = 1 + c.choose(6); vector<string> t; bool nan = false;
    for (int i = 0; i < n; i++) { int k = c.choose(n > 4 ? 3 : 7); t.push_back(N[k]); nan |= k % 2 == 0 ? k == 0 : k != 1; } if (!nan) throw Prune();
    string s, e = denotes("", t); for (int i = 0; i < n; i++) s += (i ? "," : "") + t[i];
    trax_region* d = trax_region_decode(s.c_str()); string g = d ? dregion(d) : "NULL"; c.state(s);
    if (e != g) c.fail("nan", s + " denotes " + e + ", decoded as " + g); trax_region_release(&d); shim::check_balanced(c);
  });
  m.add("none", 0, 1, [](Ctx& c) { static const char* S[] = {"", "1,2", "1,2,3", "1,2,3,4,5", "rect:", "poly:1,2,3,4", "mask:", "mask:0,0,0,0", "mask:0,0,2,-2", "mask:0,0,65536,65536", "mask:0,0,2,2,-1", "special:1,2", "special:99999999999", "mask:1e10,0,2,2", "poly:1,2,3,4,5,6,7"}; int k = c.choose(sizeof S / sizeof *S); trax_region* d = trax_region_decode(S[k]); if (d) c.fail("none", string(S[k]) + " decoded as " + dregion(d)); if (!k) { if (trax_region_decode(nullptr)) c.fail("none", "NULL text"); } shim::check_balanced(c); });
  return m.run();
}
