// R04: overlap is the exact intersection over union of the pixel sets within the bounds.
#include "regref.hpp"
using namespace rg;
static trax_bounds mkb(float l, float t, float r, float b) { trax_bounds x; x.left = l; x.top = t; x.right = r; x.bottom = b; return x; }
static const trax_bounds NOB = trax_no_bounds;
static Pix clip(const Pix& p, const trax_bounds& b) { Pix r; for (auto& q : p) if (q.second >= b.left && q.second <= b.right && q.first >= b.top && q.first <= b.bottom) r.insert(q); return r; }
static float iou(const Pix& a, const Pix& b) { size_t i = 0; for (auto& q : a) i += b.count(q); size_t u = a.size() + b.size() - i; return u ? (float)i / (float)u : 0; }
static bool same(float a, float b) { return a == b || std::fabs(a - b) < 1e-6; }
static void pairck(Ctx& c, const R& a, const R& b, const trax_bounds& bd, const Pix& pa, const Pix& pb, const char* what) {
  trax_region *x = make(a), *y = make(b); string da = dregion(x), db = dregion(y);
  float e = iou(clip(pa, bd), clip(pb, bd)), g = trax_region_overlap(x, y, bd), h = trax_region_overlap(y, x, bd);
  c.step(); c.trace("overlap(%s, %s) = %g", da.c_str(), db.c_str(), g);
  if (!same(e, g) || !same(g, h)) { char t[900]; snprintf(t, sizeof t, "A %s\nB %s\nbounds %g,%g..%g,%g: expected %.7g, got %.7g, swapped %.7g", desc(a).c_str(), desc(b).c_str(), bd.left, bd.top, bd.right, bd.bottom, e, g, h); c.fail(what, t); }
  if (dregion(x) != da || dregion(y) != db) c.fail("changed", "overlap changed its arguments");
  c.state(fnv(&g, 4, fnvs(da, fnvs(db))));
  c.outcome(e == 0 ? "zero" : e == 1 ? "one" : "partial");
  trax_region_release(&x); trax_region_release(&y); shim::check_balanced(c);
}
static const int OFF[] = {0, -3, 1000, -100000};
int main(int argc, char** argv) {
  Main m("R04"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  int G = T ? 5 : 4, N3 = T ? 6 : 5;
  m.bounds = {"raster: every triangle with corners on a " + std::to_string(N3) + "x" + std::to_string(N3) + " grid, every quadrilateral on a " + std::to_string(G) + "x" + std::to_string(G) + " grid" + (T ? ", every pentagon on a 4x4 grid, every hexagon on a 3x3 grid" : ", every pentagon on a 3x3 grid") + ": compared pixel by pixel with the reference set through overlap with that set, with every set one pixel away, and through conversion to a mask",
              "ties: rectangles and polygons at coordinates at, just below and just above the middle of two pixels, with a region nearby or far away",
              "large: pairs of rectangles, polygons and masks of 255x255 to 3000x3000 pixels, against their exact areas",
              "fraction: every triangle with corners on a 5x5 grid of quarter-pixel positions, four translations",
              "rectangles: every pair of integer rectangles at positions 0..2, sizes 0..3, under seven bounds and four translations",
              "pairs: every ordered pair of 46 regions of all types under nine bounds and four translations (incl. negative and distant)"};
  auto raster = [](Ctx& c, const R& p) {
    Pix s = pixels(p); R ms = mask_of(s);
    pairck(c, p, ms, NOB, s, s, "raster");
    trax_region* t = make(p); trax_region* k = trax_region_convert(t, TRAX_REGION_MASK);
    if (!k) c.fail("raster", "no mask for " + desc(p));
    string d = dregion(k);
    // convert() may pad the mask; compare pixels
    int x, y, w, h; trax_region_get_mask_header(k, &x, &y, &w, &h); Pix g; for (int i = 0; i < h; i++) { const char* row = trax_region_get_mask_row(k, i); for (int j = 0; j < w; j++) if (row[j]) g.insert({y + i, x + j}); }
    if (g != s) c.fail("raster", desc(p) + " converts to " + d + ", expected " + desc(ms));
    trax_region_release(&t); trax_region_release(&k);
    // a set that differs in a single pixel must not be reported equal
    int i = 0, pickp = (int)(fnvs(desc(p)) % s.size()); Pix z = s; auto it = z.begin(); std::advance(it, pickp); z.erase(it);
    if (!z.empty()) pairck(c, p, mask_of(z), NOB, s, z, "raster"); (void)i;
  };
  m.add("triangle", 0, 3, [N3, raster](Ctx& c) { vector<pair<float, float>> p; for (int i = 0; i < 3; i++) { int k = c.choose(N3 * N3); p.push_back({(float)(k % N3) - 2, (float)(k / N3) - 1}); } raster(c, poly(p)); });
  m.add("quad", 0, 3, [G, raster](Ctx& c) { vector<pair<float, float>> p; for (int i = 0; i < 4; i++) { int k = c.choose(G * G); p.push_back({(float)(k % G) - 1, (float)(k / G) - 2}); } raster(c, poly(p)); });
  m.add("pentagon", 0, 3, [T, raster](Ctx& c) { int n = T ? 4 : 3; vector<pair<float, float>> p; for (int i = 0; i < 5; i++) { int k = c.choose(n * n); p.push_back({(float)(k % n) * 2 - 3, (float)(k / n) * 2 - 1}); } raster(c, poly(p)); });
  if (T) m.add("hexagon", 0, 3, [raster](Ctx& c) { vector<pair<float, float>> p; for (int i = 0; i < 6; i++) { int k = c.choose(9); p.push_back({(float)(k % 3) * 2, (float)(k / 3)}); } raster(c, poly(p)); });
  m.add("fraction", 0, 3, [raster](Ctx& c) { static const float V[] = {0, 0.5f, 1.25f, 2.75f, 3.5f}; int o = OFF[c.choose(4)] / 10; vector<pair<float, float>> p; for (int i = 0; i < 3; i++) { int k = c.choose(25); p.push_back({V[k % 5] + o, V[k / 5] - o}); } raster(c, poly(p)); });
  m.add("rectangles", 0, 3, [](Ctx& c) {
    int o = OFF[c.choose(4)], b = c.choose(7); R q[2]; Pix p[2];
    for (int i = 0; i < 2; i++) { int x = c.choose(3), y = c.choose(3), w = c.choose(4), h = c.choose(4); q[i] = rect(x + o, y - o, w, h); p[i] = pixels(q[i]); }
    trax_bounds bs[] = {NOB, mkb(o - 10, -o - 10, o + 20, -o + 20), mkb(o + 1, -o + 1, o + 3, -o + 2), mkb(o + 2, -o - 5, o + 2, -o + 9), mkb(o + 50, 50 - o, o + 60, 60 - o), mkb(o, -o, o, -o), mkb(o - 5, -o + 2, o + 9, FLT_MAX)};
    pairck(c, q[0], q[1], bs[b], p[0], p[1], "rectangles");
  });
  // coordinates just below, at and above the middle of two pixels: a region's pixels depend on nothing but the region
  m.add("ties", 0, 2, [](Ctx& c) {
    static const float V[] = {0.49999997f, 0.5f, 0.50000006f, -0.5f, -0.50000006f, -0.49999997f, 1.4999999f, 2.5000002f, 0.f}, S[] = {1, 0.49999997f, 0.3f, 2.0000002f, 1.9999999f, 0.99999994f, 1e-8f, 3}; static const int FAR_[] = {0, -4000, 4000, -70000};
    int k = c.choose(2); R r; if (k) { float a = V[c.choose(9)], b = V[c.choose(9)], d = V[c.choose(9)]; r = poly({{a, b}, {a + 4, b}, {d + 4, d + 3}, {a, d + 3}}); } else { float a = V[c.choose(9)], b = V[c.choose(9)], w = S[c.choose(8)], h = S[c.choose(8)]; r = rect(a, b, w, h); }
    Pix p = pixels(r); int f = FAR_[c.choose(4)]; Pix o; for (int x = -1; x < 5; x++) for (int y = -1; y < 5; y++) if ((x * 5 + y * 3) % 4) o.insert({y, x}); if (f) o.insert({2, f}); R ms = mask_of(o);
    pairck(c, r, ms, NOB, p, o, "ties"); pairck(c, r, ms, mkb(-3, -3, 9, 9), p, o, "ties");
    trax_region* t = make(r); trax_region* q = trax_region_convert(t, TRAX_REGION_MASK); if (!q) c.fail("ties", "no mask for " + desc(r)); int x, y, w, h; trax_region_get_mask_header(q, &x, &y, &w, &h); Pix g; for (int i = 0; i < h; i++) { const char* row = trax_region_get_mask_row(q, i); for (int j = 0; j < w; j++) if (row[j]) g.insert({y + i, x + j}); }
    if (g != p) c.fail("ties", desc(r) + " converts to " + dregion(q)); trax_region_release(&t); trax_region_release(&q);
  });
  static vector<R> pool; static vector<vector<Pix>> pp(4);
  pool = {rect(0, 0, 4, 3), rect(1, 1, 2, 2), rect(0, 0, 1, 1), rect(3, 0, 1, 5), rect(0, 4, 6, 1), rect(-2.25f, 0.5f, 3.5f, 2.75f), rect(0.5f, 0.5f, 2, 2), rect(0, 0, 0, 0), rect(2, 2, 0, 3), rect(40, 2, 3, 3), rect(0, 300, 2, 2), rect(-1, -1, 7, 7),
          poly({{0, 0}, {4, 0}, {4, 3}, {0, 3}}), poly({{0, 0}, {5, 0}, {0, 5}}), poly({{0, 0}, {5, 2}, {0, 4}, {2, 2}}), poly({{0, 0}, {4, 4}, {4, 0}, {0, 4}}), poly({{1.5f, 0.25f}, {4.75f, 2.5f}, {-0.5f, 3.5f}}), poly({{0, 0}, {0, 0}, {0, 0}}), poly({{0, 0}, {3, 0}, {5, 0}}), poly({{2, 0}, {2, 3}, {2, 6}}), poly({{0, 0}, {6, 0}, {6, 5}, {4, 5}, {4, 2}, {2, 2}, {2, 5}, {0, 5}}), poly({{20, 0}, {25, 1}, {22, 7}}), poly({{0, 0}, {1, 5}, {2, 0}, {3, 5}, {4, 0}, {5, 5}}),
          mask(0, 0, 2, 2, "1111"), mask(0, 0, 3, 3, "010111010"), mask(1, 0, 1, 1, "1"), mask(0, 0, 3, 2, "000000"), mask(2, 1, 4, 1, "1011"), mask(0, 1, 1, 4, "1101"), mask(-3, -2, 3, 3, "110100001"), mask(30, 0, 2, 2, "1001"), mask(0, 0, 5, 4, "00000011100111000000"),
          special(0), special(1), special(-4)};
  for (int o = 0; o < 4; o++) for (auto& r : pool) pp[o].push_back(pixels(shift(r, OFF[o], -OFF[o])));
  m.add("pairs", 0, 2, [](Ctx& c) {
    int oi = c.choose(4), o = OFF[oi], i = c.choose((int)pool.size()), j = c.choose((int)pool.size()), b = c.choose(9);
    trax_bounds bs[] = {NOB, mkb(o - 100, -o - 100, o + 200, -o + 400), mkb(o, -o, o + 3, -o + 3), mkb(o + 2, -o + 1, o + 2, -o + 9), mkb(o + 100, 100 - o, o + 160, 160 - o), mkb(o + 5, -o, o + 1, -o + 4), mkb(o - 3, -o - 3, o - 1, -o - 1), mkb(o + 0.5f, -o + 0.5f, o + 3.5f, -o + 2.5f), mkb(-FLT_MAX, -o + 2, FLT_MAX, FLT_MAX)};
    pairck(c, shift(pool[i], o, -o), shift(pool[j], o, -o), bs[b], pp[oi][i], pp[oi][j], i == j ? "self" : "pairs");
  });
  m.add("large", 0, 1, [T](Ctx& c) {   // rectangles, polygons and masks of up to millions of pixels: shares from the exact areas
    static const int S[] = {255, 257, 1025, 2049, 256, 1000, 1023, 3000}; int NS = T ? 8 : 4, w = S[c.choose(NS)], h = S[c.choose(NS)]; if (!T && w > 1000 && h > 1000 && w != h) throw Prune(); int k = c.choose(3), k2 = c.choose(3), dx = (const int[]){0, 200, 5000, 1, -100}[c.choose(T ? 5 : 3)], dy = (const int[]){0, 254, -3}[c.choose(T ? 3 : 2)], o = c.choose(2) ? -1500 : 7; if (k != k2 && (dx == 1 || dy == -3)) throw Prune();
    auto mk = [](int k, int x, int y, int w, int h) { return k == 0 ? rect(x, y, w, h) : k == 1 ? poly({{(float)x, (float)y}, {(float)x + w - 1, (float)y}, {(float)x + w - 1, (float)y + h - 1}, {(float)x, (float)y + h - 1}}) : mask(x, y, w, h, string((size_t)w * h, '1')); };
    trax_region *a = make(mk(k, o, -o, w, h)), *b = make(mk(k2, o + dx, -o + dy, h, w)); double iw = std::max(0, std::min(w, dx + h) - std::max(0, dx)), ih = std::max(0, std::min(h, dy + w) - std::max(0, dy)), in = iw * ih, e = in / (2.0 * w * h - in); c.step();
    float g = trax_region_overlap(a, b, NOB), g2 = trax_region_overlap(b, a, NOB); if (std::fabs(g - e) > 1e-6 || g != g2) c.fail("large", "kinds " + std::to_string(k) + " and " + std::to_string(k2) + ", " + std::to_string(w) + "x" + std::to_string(h) + " moved by " + std::to_string(dx) + "," + std::to_string(dy) + ": overlap " + std::to_string(g) + " / " + std::to_string(g2) + ", expected " + std::to_string(e));
    c.state(fnvs(std::to_string(e))); c.outcome(e == 1 ? "one" : e > 0 ? "partial" : "zero"); trax_region_release(&a); trax_region_release(&b); shim::check_balanced(c);
  });
  m.add("extreme", 0, 1, [](Ctx& c) {   // any values: a defined finite result, no access outside the storage
    static const float V[] = {0, 1, -1, 3e9f, -3e9f, 1e30f, -FLT_MAX, FLT_MAX, INFINITY, NAN, 1e-30f, 46341, 2147483648.f};
    static const int NV = sizeof V / sizeof *V;
    int k = c.choose(3); float a = V[c.choose(NV)], b = V[c.choose(NV)], w = V[c.choose(NV)];
    R r = k == 0 ? rect(a, b, w, 5) : k == 1 ? poly({{a, b}, {w, 0}, {3, 3}}) : rect(a, 1, 5, w);
    static const R other[] = {rect(0, 0, 3, 3), mask(0, 0, 2, 2, "1101"), poly({{0, 0}, {4, 0}, {0, 4}})};
    R o = other[c.choose(3)]; int bi = c.choose(2);
    trax_region *x = make(r), *y = make(o);
    float g = trax_region_overlap(x, y, bi ? mkb(0, 0, 50, 50) : NOB), h = trax_region_overlap(y, x, bi ? mkb(0, 0, 50, 50) : NOB);
    if (!(g >= 0 && g <= 1) || g != h) c.fail("extreme", desc(r) + " and " + desc(o) + ": " + std::to_string(g) + " / " + std::to_string(h));
    c.state(fnvs(desc(r), fnvs(desc(o)))); trax_region_release(&x); trax_region_release(&y); shim::check_balanced(c);
  });
  return m.run();
}
