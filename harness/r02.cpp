// R02: conversions between rectangle, polygon and mask keep extent and pixels; copies are independent.
#include "regref.hpp"
using namespace rg;
static const int TY[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL};
// expected result of a conversion; for masks the expected pixel set is compared instead
static string expect(const R& r, int to) {
  if (to == TRAX_REGION_SPECIAL) return desc(special(r.type == to ? r.code : 0));
  if (r.type == TRAX_REGION_SPECIAL) return "NULL";
  if (r.type == to) return desc(r);
  if (r.type == TRAX_REGION_RECTANGLE && to == TRAX_REGION_POLYGON) { float X = r.v[0] + r.v[2] - 1, Y = r.v[1] + r.v[3] - 1; return desc(poly({{r.v[0], r.v[1]}, {X, r.v[1]}, {X, Y}, {r.v[0], Y}})); }
  if (r.type == TRAX_REGION_POLYGON && to == TRAX_REGION_RECTANGLE) { float x0 = FLT_MAX, x1 = -FLT_MAX, y0 = FLT_MAX, y1 = -FLT_MAX; for (auto& q : r.p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } return desc(rect(x0, y0, x1 - x0, y1 - y0)); }
  if (r.type == TRAX_REGION_MASK) {
    Pix s = pixels(r); if (s.empty()) return to == TRAX_REGION_RECTANGLE ? desc(rect(r.mx, r.my, 0, 0)) : "*";
    R t = mask_of(s);
    if (to == TRAX_REGION_RECTANGLE) return desc(rect(t.mx, t.my, t.mw, t.mh));
    float X = t.mx + t.mw - 1, Y = t.my + t.mh - 1; return desc(poly({{(float)t.mx, (float)t.my}, {X, (float)t.my}, {X, Y}, {(float)t.mx, Y}}));
  }
  if (r.type == TRAX_REGION_RECTANGLE && ((r.v[2] > 0 && r.v[2] < 1) || (r.v[3] > 0 && r.v[3] < 1))) return "*";   // less than a pixel: rounding is free
  return "pixels";
}
static R read(const trax_region* t) {
  R r; r.type = trax_region_get_type(t);
  if (r.type == TRAX_REGION_RECTANGLE) trax_region_get_rectangle(t, r.v, r.v + 1, r.v + 2, r.v + 3);
  if (r.type == TRAX_REGION_SPECIAL) r.code = trax_region_get_special(t);
  if (r.type == TRAX_REGION_POLYGON) for (int i = 0; i < trax_region_get_polygon_count(t); i++) { float x, y; trax_region_get_polygon_point(t, i, &x, &y); r.p.push_back({x, y}); }
  if (r.type == TRAX_REGION_MASK) { trax_region_get_mask_header(t, &r.mx, &r.my, &r.mw, &r.mh); for (int y = 0; y < r.mh; y++) { const char* p = trax_region_get_mask_row(t, y); for (int x = 0; x < r.mw; x++) r.md += p[x] ? 1 : 0; } }
  return r;
}
static void scribble(trax_region* t) {
  R r = read(t);
  if (r.type == TRAX_REGION_RECTANGLE) trax_region_set_rectangle(t, 91, 92, 93, 94);
  if (r.type == TRAX_REGION_SPECIAL) trax_region_set_special(t, 95);
  if (r.type == TRAX_REGION_POLYGON) for (size_t i = 0; i < r.p.size(); i++) trax_region_set_polygon_point(t, (int)i, 96, 97 + i);
  if (r.type == TRAX_REGION_MASK) for (int y = 0; y < r.mh; y++) { char* p = trax_region_write_mask_row(t, y); for (int x = 0; x < r.mw; x++) p[x] = p[x] ? 0 : 1; }
}
static void one(Ctx& c, const R& r, int depth) {
  trax_region* t = make(r); string before = dregion(t);
  for (int to = 0; to < 5; to++) {
    int ty = to < 4 ? TY[to] : r.type;
    trax_region* g = to < 4 ? trax_region_convert(t, ty) : trax_region_clone(t);
    string e = expect(r, ty), d = g ? dregion(g) : "NULL"; c.step(); c.state(fnvs(d, fnvs(before, to)));
    c.trace("%s -> %s", before.c_str(), d.c_str());
    if (dregion(t) != before) c.fail("changed", "converting changed the source " + before);
    if (e == "pixels") { if (!g || trax_region_get_type(g) != TRAX_REGION_MASK || pixels(read(g)) != pixels(r)) c.fail("pixels", before + " -> " + d + ", expected " + (pixels(r).empty() ? "no pixel" : desc(mask_of(pixels(r))))); }
    else if (e == "*" ? !g : e != d) c.fail("convert", before + " -> " + d + ", expected " + e);
    if (!g) continue;
    if (depth > 0 && ty != TRAX_REGION_SPECIAL) { R q = read(g); one(c, q, depth - 1); }
    scribble(g); if (dregion(t) != before) c.fail("alias", "writing to the copy changed the source " + before);
    string now = dregion(g); scribble(t); if (dregion(g) != now) c.fail("alias", "writing to the source changed the copy of " + before);
    trax_region_release(&t); if (t) c.fail("release", "kept"); if (dregion(g) != now) c.fail("alias", "releasing the source changed the copy");
    trax_region_release(&g); t = make(r);
  }
  trax_region_release(&t);
}
int main(int argc, char** argv) {
  Main m("R02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int MB = T ? 12 : 9;
  m.bounds = {"rectangles: quarter-pixel positions on both sides of the origin and far away, sizes 1..5 in quarters, 0 and negative",
              "polygons: every triangle with corners on a 6x6 (7x7) grid of fractional positions straddling the origin, every quadrilateral on a 4x4 grid (5x5)",
              "masks: every content of every shape of up to " + std::to_string(MB) + " pixels at three positions",
              "polygons of 15 to 4097 corners, rectangles and masks of up to 4097 rows or columns (around every power of two)",
              "each converted to every type and cloned, every result converted again to every type, source and copy overwritten and released in both orders"};
  m.add("rectangles", 0, 2, [](Ctx& c) {
    static const float P[] = {0, -3, 1.5f, -0.25f, -2.5f, 7.75f, 4000, -4000.5f, 0.49f}, S[] = {1, 2, 1.5f, 2.25f, 4.75f, 0, -2, 5};
    float x = P[c.choose(9)], y = P[c.choose(9)], w = S[c.choose(8)], h = S[c.choose(8)]; R r = rect(x, y, w, h);
    if (c.choose(2)) { if (std::fabs(x) > 1000) r.v[0] *= 100; else throw Prune(); }
    one(c, r, 1); shim::check_balanced(c);
  });
  m.add("triangles", 0, 3, [T](Ctx& c) { static const float X[] = {-3, 0, 1.5f, 4.25f, -0.5f, 2, 6.75f}; int n = T ? 7 : 6; vector<pair<float, float>> p; for (int i = 0; i < 3; i++) { int k = c.choose(n * n); p.push_back({X[k % n], X[k / n]}); } one(c, poly(p), T ? 1 : 0); shim::check_balanced(c); });
  m.add("quads", 0, 3, [T](Ctx& c) { int n = T ? 5 : 4; vector<pair<float, float>> p; for (int i = 0; i < 4; i++) { int k = c.choose(n * n); p.push_back({(float)(k % n) * 1.5f - 2, (float)(k / n) - 1}); } one(c, poly(p), 0); shim::check_balanced(c); });
  m.add("masks", 0, 3, [MB](Ctx& c) {
    int w = 1 + c.choose(MB), h = 1 + c.choose(MB / w); static const int O[3][2] = {{0, 0}, {-4, 5}, {3000, -70000}}; int o = c.choose(3), k = c.choose(1 << (w * h));
    R r = mask(O[o][0], O[o][1], w, h, string(w * h, '0')); for (int j = 0; j < w * h; j++) r.md[j] = k >> j & 1; one(c, r, 1); shim::check_balanced(c);
  });
  m.add("large", 0, 1, [](Ctx& c) {   // around powers of two: corners, rows and columns
    int kind = c.choose(4), e = c.choose(9), d = c.choose(3) - 1; R r;
    if (kind == 0) { int n = (1 << (4 + e)) + d; vector<pair<float, float>> p; for (int i = 0; i < n; i++) { float a = 6.2831853f * i / n, s = i % 3 == 0 ? 20 : 9; p.push_back({s * std::cos(a) - 3.3f, s * std::sin(a) + 2.1f}); } r = poly(p); }
    else if (kind == 1) { int n = (1 << (4 + e)) + d, v = c.choose(2); r = rect(-7, 5, v ? n : 3, v ? 3 : n); }
    else { int n = (1 << (4 + e)) + d, v = c.choose(2), w = v ? n : 3, h = v ? 3 : n; r = mask(kind == 2 ? -5 : 1000, 2, w, h, string(w * h, '0')); if (kind == 2) { r.md[c.choose(3)] = '1'; r.md[w * h - 1 - c.choose(3)] = '1'; } else for (int i = w; i < w * h; i += 1 + i % 5) r.md[i] = '1'; }
    one(c, r, 0); shim::check_balanced(c); c.outcome("large");
  });
  m.add("special", 0, 1, [](Ctx& c) { static const int C[] = {0, 1, -1, 100000}; one(c, special(C[c.choose(4)]), 0); if (trax_region_clone(nullptr) || trax_region_convert(nullptr, TRAX_REGION_MASK)) c.fail("null", "region from nothing"); shim::check_balanced(c); });
  return m.run();
}
