// R05: the region library below the API (region.h): windows, overlap components, legacy rasterization.
#include "regref.hpp"
#include "region.h"
using namespace rg;
static region_container* raw(trax_region* r) { return (region_container*)r; }
static Pix window(const region_container* r, int x, int y, int w, int h, Ctx& c, bool at_zero = false) {   // pixels of a window, buffer of exactly its size
  char* b = (char*)malloc((size_t)w * h); memset(b, 0x5a, (size_t)w * h);
  if (at_zero) region_get_mask(r, b, w, h); else region_get_mask_offset(r, b, x, y, w, h);
  Pix p; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { if (b[i * w + j] == 0x5a) { free(b); c.fail("unwritten", "a pixel of the window was not written"); } if (b[i * w + j]) p.insert({y + i, x + j}); }
  free(b); return p;
}
static Pix clip(const Pix& p, double l, double t, double r, double b) { Pix q; for (auto& k : p) if (k.second >= l && k.second <= r && k.first >= t && k.first <= b) q.insert(k); return q; }
static string list(const Pix& p) { string s; for (auto& k : p) s += "(" + std::to_string(k.second) + "," + std::to_string(k.first) + ")"; return s; }
static bool same(float a, float b) { return a == b || std::fabs(a - b) < 1e-6; }
static region_overlap want(const Pix& a, const Pix& b) { size_t i = 0; for (auto& k : a) i += b.count(k); double u = a.size() + b.size() - i; region_overlap o{0, 0, 0}; if (u) { o.overlap = i / u; o.only1 = (a.size() - i) / u; o.only2 = (b.size() - i) / u; } return o; }
// the legacy rule for coordinates that are exact: from the integer part of the left to below the integer part of the right crossing
static Pix legacy(const vector<pair<long, long>>& q) {
  Pix s; size_t n = q.size(); long lo = q[0].second, hi = lo; for (auto& k : q) { lo = std::min(lo, k.second); hi = std::max(hi, k.second); }
  for (long Y = lo; Y <= hi; Y++) { vector<pair<long, long>> cr; for (size_t i = 0; i < n; i++) { auto a = q[i], b = q[(i + 1) % n]; if (a.second > b.second) std::swap(a, b); if (a.second < Y && Y <= b.second) { long den = b.second - a.second; cr.push_back({a.first * den + (Y - a.second) * (b.first - a.first), den}); } }
    vector<long> x; for (auto& k : cr) x.push_back(fdiv(k.first, k.second)); std::sort(x.begin(), x.end()); for (size_t i = 0; i + 1 < x.size(); i += 2) for (long k = x[i]; k < x[i + 1]; k++) s.insert({(int)Y, (int)k}); }
  return s;
}
struct Legacy { Legacy() { region_set_flags(REGION_LEGACY_RASTERIZATION); } ~Legacy() { region_clear_flags(REGION_LEGACY_RASTERIZATION); } };
static vector<R> pool() {
  return {rect(0, 0, 4, 3), rect(1, 1, 2, 2), rect(0, 0, 1, 1), rect(-2.25f, 0.5f, 3.5f, 2.75f), rect(0, 0, 0, 0), rect(2, 2, 0, 3), rect(-1, -1, 7, 7), rect(0.25f, 0, 0.5f, 2), poly({{0, 0}, {4, 0}, {4, 3}, {0, 3}}), poly({{0, 0}, {5, 0}, {0, 5}}), poly({{0, 0}, {5, 2}, {0, 4}, {2, 2}}), poly({{0, 0}, {4, 4}, {4, 0}, {0, 4}}),
          poly({{1.5f, 0.25f}, {4.75f, 2.5f}, {-0.5f, 3.5f}}), poly({{0, 0}, {3, 0}, {5, 0}}), poly({{2, 0}, {2, 3}, {2, 6}}), poly({{0, 0}, {6, 0}, {6, 5}, {4, 5}, {4, 2}, {2, 2}, {2, 5}, {0, 5}}), mask(0, 0, 2, 2, "1111"), mask(0, 0, 3, 3, "010111010"), mask(0, 0, 3, 2, "000000"), mask(2, 1, 4, 1, "1011"), mask(-3, -2, 3, 3, "110100001"), mask(1, 1, 2, 3, "100101"), special(0), special(3)};
}
int main(int argc, char** argv) {
  Main m("R05"); m.parse(argc, argv); m.cleanup_after = [] { region_clear_flags(~0); shim::reset_all(); };
  bool T = m.thorough; int W = T ? 7 : 5, H = T ? 6 : 4, N = T ? 5 : 4;
  m.bounds = {"windows: 22 regions of all kinds x every window of up to " + std::to_string(W) + "x" + std::to_string(H) + " at every offset from -4 to 6, three translations; region_get_mask for those at the origin", "components: every ordered pair of 24 regions x seven bounds: all three parts of the overlap", "polygons: every triangle and quadrilateral on a " + std::to_string(N) + "x" + std::to_string(N) + " grid in a window cutting it: its pixels there",
              "legacy: every triangle and quadrilateral with rows 0, 2, 4 on a grid, every rectangle: pixels, conversion, bounds, all parts of the overlap of pairs; windows that cut the region; any values: no access outside"};
  m.add("windows", 0, 3, [W, H](Ctx& c) {
    static const vector<R> P = pool(); static const int OFF[] = {0, -1000, 70000}; int o = OFF[c.choose(3)]; R r = shift(P[c.choose((int)P.size() - 2)], o, -o); int x = o + c.choose(11) - 4, y = -o + c.choose(11) - 4, w = 1 + c.choose(W), h = 1 + c.choose(H);
    trax_region* t = make(r); string d = dregion(t); Pix all = pixels(r), g = window(raw(t), x, y, w, h, c), e = clip(all, x, y, x + w - 1, y + h - 1); if (g != e) c.fail("window", desc(r) + " in the window " + std::to_string(x) + "," + std::to_string(y) + " " + std::to_string(w) + "x" + std::to_string(h) + ": " + list(g) + " instead of " + list(e));
    if (x == 0 && y == 0 && window(raw(t), 0, 0, w, h, c, true) != e) c.fail("window", "region_get_mask differs from the window at the origin"); if (dregion(t) != d) c.fail("changed", "the region was changed"); c.step(); c.outcome(e.empty() ? "empty" : e == all ? "whole" : "part"); c.state(fnvs(list(g), x * 31 + y)); trax_region_release(&t); shim::check_balanced(c);
  });
  m.add("polygons", 0, 3, [N](Ctx& c) {
    int n = 3 + c.choose(2); vector<pair<float, float>> p; for (int i = 0; i < n; i++) { int k = c.choose(N * N); p.push_back({(float)(k % N), (float)(k / N)}); } R r = poly(p); trax_region* t = make(r); Pix all = pixels(r);
    for (int k = 0; k < 4; k++) { int x = k & 1, y = k >> 1; Pix g = window(raw(t), x, y, N - 1 - x, N - 2, c), e = clip(all, x, y, N - 2, y + N - 3); if (g != e) c.fail("window", desc(r) + " cut: " + list(g) + " instead of " + list(e)); c.step(); } c.outcome("cut"); c.state(fnvs(list(all))); trax_region_release(&t); shim::check_balanced(c);
  });
  m.add("components", 0, 2, [](Ctx& c) {
    static const vector<R> P = pool(); R a = P[c.choose((int)P.size())], b = P[c.choose((int)P.size())]; int k = c.choose(7); float B[7][4] = {{-FLT_MAX, -FLT_MAX, FLT_MAX, FLT_MAX}, {-10, -10, 20, 20}, {0, 0, 3, 3}, {2, 1, 2, 9}, {100, 100, 160, 160}, {0.5f, 0.5f, 3.5f, 2.5f}, {5, 0, 1, 4}}; const float* q = B[k];
    trax_region *x = make(a), *y = make(b); region_overlap g = region_compute_overlap(raw(x), raw(y), k ? region_create_bounds(q[0], q[1], q[2], q[3]) : region_no_bounds); Pix pa = clip(pixels(a), q[0], q[1], q[2], q[3]), pb = clip(pixels(b), q[0], q[1], q[2], q[3]); region_overlap e = want(pa, pb);
    bool out = a.type == TRAX_REGION_SPECIAL || b.type == TRAX_REGION_SPECIAL; if (out) e = region_overlap{0, 0, 0}; if (pa.empty() || pb.empty()) { if (g.overlap != 0 || !(g.only1 == 0 || (g.only1 == 1 && pb.empty() && !pa.empty())) || !(g.only2 == 0 || (g.only2 == 1 && pa.empty() && !pb.empty()))) c.fail("components", desc(a) + " and " + desc(b) + " of which one is empty: " + std::to_string(g.overlap) + " " + std::to_string(g.only1) + " " + std::to_string(g.only2)); }
    else if (!same(g.overlap, e.overlap) || !same(g.only1, e.only1) || !same(g.only2, e.only2)) c.fail("components", desc(a) + " and " + desc(b) + " within bounds " + std::to_string(k) + ": " + std::to_string(g.overlap) + " " + std::to_string(g.only1) + " " + std::to_string(g.only2) + " instead of " + std::to_string(e.overlap) + " " + std::to_string(e.only1) + " " + std::to_string(e.only2));
    c.step(); c.outcome(out ? "special" : pa.empty() || pb.empty() ? "empty" : e.overlap == 0 ? "disjoint" : e.overlap == 1 ? "equal" : "partial"); c.state(fnvs(desc(a), fnvs(desc(b), k))); trax_region_release(&x); trax_region_release(&y); shim::check_balanced(c);
  });
  m.add("flags", 0, 2, [](Ctx& c) {   // every sequence of setting and clearing
    int f = 0; for (int i = 0; i < 4; i++) { int k = c.choose(4), v = k & 1 ? REGION_LEGACY_RASTERIZATION : 0, g; if (k < 2) g = region_set_flags(v), f |= v; else g = region_clear_flags(v), f &= ~v; if (g != f) c.fail("flags", "flags " + std::to_string(g) + " instead of " + std::to_string(f)); c.step();
      trax_region* t = trax_region_create_rectangle(1, 2, 3, 4); region_bounds b = region_compute_bounds(raw(t)); float e = f ? 0 : 1; if (b.left != 1 || b.top != 2 || b.right != 4 - e || b.bottom != 6 - e) c.fail("flags", "bounds do not follow the flags"); trax_region* p = trax_region_convert(t, TRAX_REGION_POLYGON); if (dregion(p) != dregion(make(poly({{1, 2}, {4 - e, 2}, {4 - e, 6 - e}, {1, 6 - e}})))) { c.fail("flags", "the corners do not follow the flags: " + dregion(p)); } trax_region_release(&t); trax_region_release(&p); shim::reset_all(); }
    region_clear_flags(~0); c.outcome("flags"); c.state(f);
  });
  auto corners = [](Ctx& c, int n, int o) { vector<pair<long, long>> q; for (int i = 0; i < n; i++) { int k = c.choose(15); q.push_back({k % 5 + o, 2 * (k / 5) - o}); } return q; };
  auto shape = [](const vector<pair<long, long>>& q) { vector<pair<float, float>> p; for (auto& k : q) p.push_back({(float)k.first, (float)k.second}); return poly(p); };
  m.add("legacy-polygons", 0, 3, [corners, shape, T](Ctx& c) {
    Legacy l; int n = T ? 3 + c.choose(2) : 3, o = c.choose(2) * 64; auto q = corners(c, n, o); R r = shape(q); trax_region* t = make(r); Pix e = legacy(q), g = window(raw(t), o - 1, -o - 1, 9, 9, c); if (g != e) c.fail("legacy", desc(r) + ": " + list(g) + " instead of " + list(e));
    for (int k = 0; k < 4; k++) { int x = o + (k & 1) + 1, y = -o + (k >> 1), w = 1 + k; Pix s = window(raw(t), x, y, w, 3, c); for (auto& z : s) if (!e.count(z)) c.fail("legacy", desc(r) + ": pixels that are not its own: " + list(s)); }
    trax_region* k = trax_region_convert(t, TRAX_REGION_MASK); if (!k) c.fail("legacy", "no mask"); int x, y, w, h; trax_region_get_mask_header(k, &x, &y, &w, &h); Pix s; for (int i = 0; i < h; i++) { const char* row = trax_region_get_mask_row(k, i); for (int j = 0; j < w; j++) if (row[j]) s.insert({y + i, x + j}); } for (auto& z : s) if (!e.count(z)) c.fail("legacy", "conversion of " + desc(r) + " holds other pixels: " + list(s)); if (s != e) c.outcome("converted without the right edge");
    c.step(); c.outcome(e.empty() ? "empty" : "polygon"); c.state(fnvs(list(e))); trax_region_release(&t); trax_region_release(&k); shim::check_balanced(c);
  });
  m.add("legacy-overlap", 0, 3, [T](Ctx& c) {
    Legacy l; static const vector<vector<pair<long, long>>> P = {{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{1, 2}, {3, 2}, {3, 4}, {1, 4}}, {{0, 0}, {4, 0}, {0, 4}}, {{4, 0}, {4, 4}, {0, 2}}, {{2, 2}, {6, 2}, {6, 6}, {2, 6}}, {{10, 0}, {14, 0}, {14, 2}, {10, 2}}, {{0, 4}, {4, 4}, {4, 8}, {0, 8}}, {{-4, -2}, {2, -2}, {2, 2}, {-4, 2}}};
    int i = c.choose((int)P.size()), j = c.choose((int)P.size()), ka = c.choose(2), kb = c.choose(2), o = c.choose(3) * 50 - 50; auto mk = [&](int i, int rectangle, Pix& p) { auto q = P[i]; for (auto& z : q) z.first += o, z.second -= o; p = legacy(q); bool box = q.size() == 4 && q[0].second == q[1].second; if (rectangle && !box) throw Prune(); return rectangle ? rect(q[0].first, q[0].second, q[1].first - q[0].first, q[2].second - q[1].second) : poly({q.begin(), q.end()}); };
    Pix pa, pb; R a = mk(i, ka, pa), b = mk(j, kb, pb); trax_region *x = make(a), *y = make(b); region_overlap g = region_compute_overlap(raw(x), raw(y), region_no_bounds), e = want(pa, pb); float z = trax_region_overlap(x, y, trax_no_bounds); if (z != g.overlap) c.fail("legacy", "the API gives another overlap");
    if (e.overlap > 0 ? !same(g.overlap, e.overlap) || !same(g.only1, e.only1) || !same(g.only2, e.only2) : g.overlap != 0) c.fail("legacy", desc(a) + " and " + desc(b) + ": " + std::to_string(g.overlap) + " " + std::to_string(g.only1) + " " + std::to_string(g.only2) + " instead of " + std::to_string(e.overlap) + " " + std::to_string(e.only1) + " " + std::to_string(e.only2)); if (!(g.only1 >= 0 && g.only2 >= 0 && g.only1 + g.only2 + g.overlap <= 1.000001)) c.fail("legacy", "parts of " + desc(a) + " and " + desc(b) + " beyond the whole");
    c.step(); c.outcome(e.overlap > 0 ? "overlap" : "no overlap"); c.state(fnvs(desc(a), fnvs(desc(b)))); trax_region_release(&x); trax_region_release(&y); shim::check_balanced(c); (void)T;
  });
  m.add("extreme", 0, 1, [](Ctx& c) {   // any values in both modes: no access outside, parts within 0..1
    static const float V[] = {0, 1, -1, 3e9f, -3e9f, 1e30f, -FLT_MAX, FLT_MAX, INFINITY, NAN, 1e-30f, 2147483648.f}; static const int NV = sizeof V / sizeof *V; int mode = c.choose(2); if (mode) region_set_flags(REGION_LEGACY_RASTERIZATION);
    int k = c.choose(3); float a = V[c.choose(NV)], b = V[c.choose(NV)], w = V[c.choose(NV)]; R r = k == 0 ? rect(a, b, w, 5) : k == 1 ? poly({{a, b}, {w, 0}, {3, 3}}) : rect(a, 1, 5, w); trax_region* t = make(r); window(raw(t), 0, 0, 5, 4, c); window(raw(t), -2, 1, 3, 3, c);
    static const R O[] = {rect(0, 0, 3, 3), mask(0, 0, 2, 2, "1101"), poly({{0, 0}, {4, 0}, {0, 4}})}; for (auto& o : O) for (int bd = 0; bd < 2; bd++) { trax_region* y = make(o); region_overlap g = region_compute_overlap(raw(t), raw(y), bd ? region_create_bounds(0, 0, 50, 50) : region_no_bounds); if (!(g.overlap >= 0 && g.overlap <= 1 && g.only1 >= 0 && g.only1 <= 1 && g.only2 >= 0 && g.only2 <= 1)) c.fail("extreme", desc(r) + " and " + desc(o) + (mode ? " (legacy): " : ": ") + std::to_string(g.overlap) + " " + std::to_string(g.only1) + " " + std::to_string(g.only2)); trax_region_release(&y); c.step(); }
    c.outcome(mode ? "legacy" : "exact"); c.state(fnvs(desc(r), mode)); trax_region_release(&t); region_clear_flags(~0); shim::check_balanced(c);
  });
  return m.run();
}
