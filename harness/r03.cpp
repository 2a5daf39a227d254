// R03: bounds and point containment match the geometry.
#include "regref.hpp"
using namespace rg;
static void bounds(Ctx& c, const R& r, float l, float t, float rt, float b) {
  trax_region* x = make(r); trax_bounds g = trax_region_bounds(x); c.step(); c.state(desc(r));
  if (g.left != l || g.top != t || g.right != rt || g.bottom != b) { char s[300]; snprintf(s, sizeof s, ": bounds %g,%g..%g,%g, expected %g,%g..%g,%g", g.left, g.top, g.right, g.bottom, l, t, rt, b); c.fail("bounds", desc(r) + s); }
  if (dregion(x) != desc(r)) c.fail("changed", desc(r)); trax_region_release(&x); shim::check_balanced(c);
}
// 1 inside, 0 outside, -1 on an edge (coordinates are quarters, exact in double)
static int inside(const R& r, double x, double y) {
  if (r.type == TRAX_REGION_RECTANGLE) return x >= r.v[0] && x <= (double)r.v[0] + r.v[2] && y >= r.v[1] && y <= (double)r.v[1] + r.v[3];
  if (r.type == TRAX_REGION_MASK) { long i = (long)std::floor(x) - r.mx, j = (long)std::floor(y) - r.my; return i >= 0 && j >= 0 && i < r.mw && j < r.mh && r.md[j * r.mw + i]; }
  if (r.type != TRAX_REGION_POLYGON) return 0;
  int in = 0; size_t n = r.p.size();
  for (size_t i = 0; i < n; i++) {
    double ax = r.p[i].first, ay = r.p[i].second, bx = r.p[(i + 1) % n].first, by = r.p[(i + 1) % n].second;
    double cr = (bx - ax) * (y - ay) - (by - ay) * (x - ax);
    if (cr == 0 && x >= std::min(ax, bx) && x <= std::max(ax, bx) && y >= std::min(ay, by) && y <= std::max(ay, by)) return -1;
    if ((ay > y) != (by > y) && (cr > 0) == (by > ay)) in = !in;
  }
  return in;
}
static void points(Ctx& c, const R& r, double x0, double y0, int n, double st) {
  trax_region* t = make(r); string d = dregion(t);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    float x = x0 + i * st, y = y0 + j * st; int e = inside(r, x, y), g = trax_region_contains(t, x, y) != 0; c.step();
    if (e >= 0 && e != g) { char s[100]; snprintf(s, sizeof s, ": point %g,%g reported %s", x, y, g ? "inside" : "outside"); c.fail("contains", desc(r) + s); }
    c.outcome(e < 0 ? "edge" : e ? "inside" : "outside");
  }
  static const float F[] = {-FLT_MAX, 1e20f, -3e9f, INFINITY, -INFINITY, NAN, 2147483648.f};
  for (float f : F) for (float g : F) { int in = trax_region_contains(t, f, g); if (in && r.type != TRAX_REGION_RECTANGLE) c.fail("contains", desc(r) + ": far point inside"); trax_region_contains(t, f, (float)y0 + 1); trax_region_contains(t, (float)x0 + 1, f); }
  if (dregion(t) != d) c.fail("changed", d); c.state(d); trax_region_release(&t); shim::check_balanced(c);
}
int main(int argc, char** argv) {
  Main m("R03"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int N = T ? 6 : 5, MB = T ? 12 : 9;
  m.bounds = {"polygons: every triangle on a " + std::to_string(N) + "x" + std::to_string(N) + " grid and every quadrilateral on a 4x4 grid straddling the origin: bounds, and containment of every point of a quarter-pixel grid around it",
              "rectangles: positions and sizes in quarters at four offsets; masks: every content of every shape of up to " + std::to_string(MB) + " pixels at five positions",
              "polygons of 17 to 4099 corners, masks of up to 4097 rows or columns (around every power of two)", "far, infinite and NaN query points against every region"};
  m.add("triangles", 0, 2, [N](Ctx& c) { R r; r.type = TRAX_REGION_POLYGON; for (int i = 0; i < 3; i++) { int k = c.choose(N * N); r.p.push_back({(float)(k % N) - 2, (float)(k / N) - 3}); }
    float l = 99, t = 99, rt = -99, b = -99; for (auto& q : r.p) { l = std::min(l, q.first); rt = std::max(rt, q.first); t = std::min(t, q.second); b = std::max(b, q.second); }
    int dx = c.choose(2) ? 5000 : 0; bounds(c, shift(r, dx, -dx), l + dx, t - dx, rt + dx, b - dx); if (!dx) points(c, r, -2.75, -3.75, 4 * N + 3, 0.25); });
  m.add("quads", 0, 3, [T](Ctx& c) { R r; r.type = TRAX_REGION_POLYGON; for (int i = 0; i < 4; i++) { int k = c.choose(16); r.p.push_back({(float)(k % 4) - 1, (float)(k / 4) * 1.5f - 2}); }
    float l = 99, t = 99, rt = -99, b = -99; for (auto& q : r.p) { l = std::min(l, q.first); rt = std::max(rt, q.first); t = std::min(t, q.second); b = std::max(b, q.second); }
    bounds(c, r, l, t, rt, b); points(c, r, -1.5, -2.5, T ? 22 : 11, T ? 0.25 : 0.5); });
  m.add("rectangles", 0, 2, [](Ctx& c) { static const float P[] = {0, -2.5f, 3.25f, -7}, S[] = {1, 0.5f, 2.75f, 4, 0}; float x = P[c.choose(4)], y = P[c.choose(4)], w = S[c.choose(5)], h = S[c.choose(5)]; int o = c.choose(3) * 4096; R r = rect(x + o, y - o, w, h); bounds(c, r, x + o, y - o, x + o + w - 1, y - o + h - 1); points(c, r, x + o - 1, y - o - 1, 26, 0.25); });
  m.add("masks", 0, 3, [MB](Ctx& c) {
    int w = 1 + c.choose(MB), h = 1 + c.choose(MB / w); static const int O[5][2] = {{0, 0}, {-2, 3}, {-1, -1}, {2048, -512}, {16777217, -16777219}}; int o = c.choose(5), k = c.choose(1 << (w * h));
    R r = mask(O[o][0], O[o][1], w, h, string(w * h, '0')); for (int j = 0; j < w * h; j++) r.md[j] = k >> j & 1;
    if (k && o < 4 /* bounds are floats */) { R q = mask_of(pixels(r)); bounds(c, r, q.mx, q.my, q.mx + q.mw - 1, q.my + q.mh - 1); }
    points(c, r, r.mx - 1, r.my - 1, 2 * std::max(w, h) + 5, 0.5); if (h < w) points(c, r, r.mx - 0.25, r.my - 0.75, w + 2, 1);
  });
  m.add("large", 0, 1, [](Ctx& c) {   // around powers of two: rows, columns and corners
    int kind = c.choose(3), n = (1 << (4 + c.choose(9))) + c.choose(3) - 1; R r;
    if (kind == 0) {   // a comb along the x axis: tooth k at x = k
      for (int i = 0; i < n; i++) r.p.push_back({(float)i, i % 2 ? 4.f : 0.f}); r.p.push_back({(float)n, -2}); r.p.push_back({0, -2}); r.type = TRAX_REGION_POLYGON;
      bounds(c, r, 0, -2, n, 4); points(c, r, -1.25, -3.25, 12, 0.75); points(c, r, n - 6.25, -3.25, 12, 0.75); points(c, r, n / 2 - 3.25, -1.25, 9, 0.75);
    } else { int w = kind == 1 ? n : 3, h = kind == 1 ? 3 : n, a = c.choose(3), b = c.choose(3), o = c.choose(2); r = mask(o ? -3000 : 4, o ? 17 : -9, w, h, string(w * h, '0')); r.md[a] = '1'; r.md[w * h - 1 - b] = '1'; r.md[(h / 2) * w + w / 2] = '1'; R q = mask_of(pixels(r)); bounds(c, r, q.mx, q.my, q.mx + q.mw - 1, q.my + q.mh - 1);
      points(c, r, r.mx - 1, r.my - 1, 9, 0.5); points(c, r, r.mx + w - 4, r.my + h - 4, 9, 0.5); }
    c.outcome("large");
  });
  m.add("special", 0, 1, [](Ctx& c) { points(c, special(c.choose(3) - 1), -1, -1, 5, 0.5); });
  return m.run();
}
