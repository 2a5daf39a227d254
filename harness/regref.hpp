// Reference model of regions: values, exact pixel sets, bounds, containment.
#pragma once
#include "ref.hpp"
#include <cmath>
#include <cfloat>
namespace rg {
using namespace mc; using namespace ref; using std::vector; using std::pair;
typedef std::set<pair<int, int>> Pix;   // (y, x)
struct R {
  int type = TRAX_REGION_SPECIAL; int code = 0; float v[4] = {}; vector<pair<float, float>> p; int mx = 0, my = 0, mw = 0, mh = 0; string md;
};
inline R rect(float x, float y, float w, float h) { R r; r.type = TRAX_REGION_RECTANGLE; r.v[0] = x; r.v[1] = y; r.v[2] = w; r.v[3] = h; return r; }
inline R poly(vector<pair<float, float>> p) { R r; r.type = TRAX_REGION_POLYGON; r.p = p; return r; }
inline R mask(int x, int y, int w, int h, string d) { R r; r.type = TRAX_REGION_MASK; r.mx = x; r.my = y; r.mw = w; r.mh = h; r.md = d; for (auto& c : r.md) c = c == '0' || c == 0 ? 0 : 1; return r; }
inline R special(int c) { R r; r.code = c; return r; }
inline trax_region* make(const R& r) {
  trax_region* t = nullptr;
  switch (r.type) {
    case TRAX_REGION_SPECIAL: return trax_region_create_special(r.code);
    case TRAX_REGION_RECTANGLE: return trax_region_create_rectangle(r.v[0], r.v[1], r.v[2], r.v[3]);
    case TRAX_REGION_POLYGON: t = trax_region_create_polygon((int)r.p.size()); for (size_t i = 0; i < r.p.size(); i++) trax_region_set_polygon_point(t, (int)i, r.p[i].first, r.p[i].second); return t;
    case TRAX_REGION_MASK: t = trax_region_create_mask(r.mx, r.my, r.mw, r.mh); for (int y = 0; y < r.mh; y++) memcpy(trax_region_write_mask_row(t, y), &r.md[y * r.mw], r.mw); return t;
  }
  return t;
}
inline string desc(const R& r) {
  switch (r.type) {
    case TRAX_REGION_SPECIAL: return "special:" + std::to_string(r.code);
    case TRAX_REGION_RECTANGLE: return "rect:" + fnum(r.v[0]) + "," + fnum(r.v[1]) + "," + fnum(r.v[2]) + "," + fnum(r.v[3]);
    case TRAX_REGION_POLYGON: { string s = "poly:"; for (auto& q : r.p) s += fnum(q.first) + "," + fnum(q.second) + ";"; return s; }
  }
  string s = "mask:" + std::to_string(r.mx) + "," + std::to_string(r.my) + "," + std::to_string(r.mw) + "x" + std::to_string(r.mh) + ":"; for (char c : r.md) s += c ? '1' : '0'; return s;
}
inline long rnd(double f) { return (long)std::floor(f + 0.5); }
inline long fdiv(long a, long b) { if (b < 0) { a = -a; b = -b; } return a >= 0 ? a / b : -((-a + b - 1) / b); }
// Pixels of a polygon: corners are rounded to the grid; a pixel row holds every pixel column from the
// floor of the left to the floor of the right end of each stretch the closed polygon covers on that row
// (the stretches of its inside just above, of its inside just below and its horizontal edges).
inline Pix pixels(const R& r) {
  Pix s;
  if (r.type == TRAX_REGION_MASK) { for (int y = 0; y < r.mh; y++) for (int x = 0; x < r.mw; x++) if (r.md[y * r.mw + x]) s.insert({r.my + y, r.mx + x}); }
  if (r.type == TRAX_REGION_RECTANGLE) { if (r.v[2] > 0 && r.v[3] > 0) for (long y = rnd(r.v[1]); y <= rnd((double)r.v[1] + r.v[3] - 1); y++) for (long x = rnd(r.v[0]); x <= rnd((double)r.v[0] + r.v[2] - 1); x++) s.insert({(int)y, (int)x}); }
  if (r.type == TRAX_REGION_POLYGON) {
    vector<pair<long, long>> q; for (auto& c : r.p) q.push_back({rnd(c.first), rnd(c.second)});
    long lo = q[0].second, hi = lo; for (auto& c : q) { lo = std::min(lo, c.second); hi = std::max(hi, c.second); }
    size_t n = q.size();
    for (long Y = lo; Y <= hi; Y++) {
      for (int side = 0; side < 2; side++) {
        vector<pair<long, long>> cr;   // crossing as fraction num/den, den > 0
        for (size_t i = 0; i < n; i++) {
          auto a = q[i], b = q[(i + 1) % n]; if (a.second > b.second) std::swap(a, b);
          if (side ? (a.second < Y && Y <= b.second) : (a.second <= Y && Y < b.second)) { long den = b.second - a.second; cr.push_back({a.first * den + (Y - a.second) * (b.first - a.first), den}); }
        }
        std::sort(cr.begin(), cr.end(), [](const pair<long, long>& x, const pair<long, long>& y) { return x.first * y.second < y.first * x.second; });
        for (size_t i = 0; i + 1 < cr.size(); i += 2) for (long x = fdiv(cr[i].first, cr[i].second); x <= fdiv(cr[i + 1].first, cr[i + 1].second); x++) s.insert({(int)Y, (int)x});
      }
      for (size_t i = 0; i < n; i++) { auto a = q[i], b = q[(i + 1) % n]; if (a.second == Y && b.second == Y) for (long x = std::min(a.first, b.first); x <= std::max(a.first, b.first); x++) s.insert({(int)Y, (int)x}); }
    }
  }
  return s;
}
inline R mask_of(const Pix& s) {   // tight mask holding exactly these pixels
  int x0 = s.begin()->second, x1 = x0, y0 = s.begin()->first, y1 = y0;
  for (auto& q : s) { x0 = std::min(x0, q.second); x1 = std::max(x1, q.second); y0 = std::min(y0, q.first); y1 = std::max(y1, q.first); }
  R m; m.type = TRAX_REGION_MASK; m.mx = x0; m.my = y0; m.mw = x1 - x0 + 1; m.mh = y1 - y0 + 1; m.md.assign(m.mw * m.mh, 0);
  for (auto& q : s) m.md[(q.first - y0) * m.mw + q.second - x0] = 1;
  return m;
}
inline R shift(R r, int dx, int dy) { r.v[0] += dx; r.v[1] += dy; for (auto& c : r.p) { c.first += dx; c.second += dy; } r.mx += dx; r.my += dy; return r; }
}
