// C02: object lists hold independent copies in every history.
#include "ref.hpp"
using namespace mc; using namespace ref;

static trax_region* make(int k) {
  switch (k) {
    case 0: return trax_region_create_rectangle(1, 2, 3, 4);
    case 1: { trax_region* r = trax_region_create_polygon(3); for (int i = 0; i < 3; i++) trax_region_set_polygon_point(r, i, i * 2, i * i); return r; }
    case 2: { trax_region* r = trax_region_create_mask(-1, 2, 3, 2); for (int y = 0; y < 2; y++) for (int x = 0; x < 3; x++) trax_region_write_mask_row(r, y)[x] = (x + y) & 1; return r; }
    default: return trax_region_create_special(5);
  }
}
static void mutate(trax_region* r) {
  switch (trax_region_get_type(r)) {
    case TRAX_REGION_RECTANGLE: trax_region_set_rectangle(r, 9, 8, 7, 6); break;
    case TRAX_REGION_POLYGON: trax_region_set_polygon_point(r, 1, -5, -6); break;
    case TRAX_REGION_MASK: trax_region_write_mask_row(r, 1)[2] ^= 1; break;
    case TRAX_REGION_SPECIAL: trax_region_set_special(r, trax_region_get_special(r) + 1); break;
  }
}
struct Slot { string r = "special:0"; Props p; };
typedef vector<Slot> L;
static string d(const L& l) { string r = "O("; for (auto& s : l) r += s.r + dprops(s.p) + ";"; return r + ")"; }

struct W { trax_object_list* l[2]; L m[2]; trax_region* pool[4]; string pd[4]; };
static void observe(Ctx& c, W& w) {
  for (int i = 0; i < 2; i++) {
    if (trax_object_list_count(w.l[i]) != (int)w.m[i].size()) c.fail("count", "list " + std::to_string(i) + " has " + std::to_string(trax_object_list_count(w.l[i])) + " slots, expected " + std::to_string(w.m[i].size()));
    string g = dobjects(w.l[i]), e = d(w.m[i]);
    if (g != e) c.fail("content", "list " + std::to_string(i) + "\n  expected " + e + "\n  got      " + g);
    int n = w.m[i].size();
    for (int k : {-1, n, n + 5, INT32_MAX}) if (trax_object_list_get(w.l[i], k) || trax_object_list_properties(w.l[i], k)) c.fail("range", "index " + std::to_string(k) + " of " + std::to_string(n));
    for (int a = 0; a < n; a++) for (int b = 0; b < 2; b++) for (size_t k = 0; k < w.m[b].size(); k++) if ((a != (int)k || b != i) && trax_object_list_properties(w.l[i], a) == trax_object_list_properties(w.l[b], k)) c.fail("shared", "two slots share a property map");
  }
  for (int k = 0; k < 4; k++) if (dregion(w.pool[k]) != w.pd[k]) c.fail("source", "pool region " + std::to_string(k) + " changed to " + dregion(w.pool[k]));
}
static void op(Ctx& c, W& w, bool wide) {
  int t = c.choose(2), kind = c.choose(10); trax_object_list*& l = w.l[t]; L& m = w.m[t]; int n = m.size();
  auto idx = [&] { return wide ? c.choose(n + 2) - 1 : c.choose(n + 1); };   // narrow: one index past the end
  auto in = [&](int i) { return i >= 0 && i < n; };
  switch (kind) {
    case 0: { int i = idx(), k = c.choose(4); trax_object_list_set(l, i, w.pool[k]); if (in(i)) m[i].r = w.pd[k]; c.trace("%d: set %d pool %d", t, i, k); break; }
    case 1: { int k = c.choose(4); mutate(w.pool[k]); w.pd[k] = dregion(w.pool[k]); c.trace("mutate pool %d", k); break; }
    case 2: { int k = c.choose(4); trax_region_release(&w.pool[k]); w.pool[k] = make((k + 1) % 4); w.pd[k] = dregion(w.pool[k]); c.trace("replace pool %d", k); break; }
    case 3: { int i = idx(); trax_region* r = trax_object_list_get(l, i); if (r) { mutate(r); m[i].r = dregion(r); } c.trace("%d: mutate slot %d", t, i); break; }
    case 4: { int i = idx(), b = c.choose(2); trax_properties* p = trax_object_list_properties(l, i); if (p) { string v = b ? "z" : "yy"; trax_properties_set(p, b ? "a" : "k", v.c_str()); m[i].p[b ? "a" : "k"] = v; } c.trace("%d: property %d", t, i); break; }
    case 5: { if (n > 8) break; L a = w.m[1 - t]; int r = trax_object_list_append(l, w.l[1 - t]); m.insert(m.end(), a.begin(), a.end()); if (r != (int)m.size()) c.fail("append", "append returned " + std::to_string(r)); c.trace("%d: append other", t); break; }
    case 6: { if (n > 8) break; L a = m; int r = trax_object_list_append(l, l); m.insert(m.end(), a.begin(), a.end()); if (r != (int)m.size()) c.fail("append", "self append returned " + std::to_string(r)); c.trace("%d: append itself", t); break; }
    case 7: { int k = c.choose(3); trax_object_list_release(&l); if (l) c.fail("release", "pointer kept"); l = trax_object_list_create(k); m.assign(k, Slot()); c.trace("%d: new list of %d", t, k); break; }
    case 8: { int i = idx(), o = c.choose(2), j = c.choose((int)w.m[o].size() + 1); if (j >= (int)w.m[o].size()) break; trax_object_list_set(l, i, trax_object_list_get(w.l[o], j)); if (in(i)) m[i].r = w.m[o][j].r; c.trace("%d: set %d from list %d slot %d", t, i, o, j); break; }
    case 9: { int i = idx(); trax_object_list_set(l, i, nullptr); if (in(i)) m[i].r = "noregion"; c.trace("%d: set %d NULL", t, i); break; }
  }
}
int main(int argc, char** argv) {
  Main m("C02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {"histories: every history of " + string(T ? "3" : "2") + " operations over two lists (sizes 2/0 and a prepared 1/2) and four regions of every type, all indices including one below and one above", "deeper: every history of " + string(T ? "4" : "3") + " operations from the prepared lists, indices up to one above"};
  auto body = [](Ctx& c, int depth, bool wide) {
    W w; int s = wide ? c.choose(2) : 1; w.l[0] = trax_object_list_create(s ? 1 : 2); w.l[1] = trax_object_list_create(s ? 2 : 0); w.m[0].resize(s ? 1 : 2); w.m[1].resize(s ? 2 : 0);
    for (int k = 0; k < 4; k++) { w.pool[k] = make(k); w.pd[k] = dregion(w.pool[k]); }
    if (s) { trax_object_list_set(w.l[1], 0, w.pool[1]); trax_object_list_set(w.l[1], 1, w.pool[2]); trax_properties_set(trax_object_list_properties(w.l[1], 1), "k", "v"); w.m[1][0].r = w.pd[1]; w.m[1][1].r = w.pd[2]; w.m[1][1].p["k"] = "v"; }
    observe(c, w);
    for (int i = 0; i < depth; i++) { op(c, w, wide); c.step(); observe(c, w); c.state(d(w.m[0]) + d(w.m[1])); }
    c.outcome("lists of " + std::to_string(std::min<size_t>(4, w.m[0].size())));
    trax_object_list_release(&w.l[0]); trax_object_list_release(&w.l[1]); trax_object_list_release(&w.l[0]);
    for (auto& r : w.pool) { trax_region_release(&r); if (r) c.fail("release", "region pointer kept"); }
    shim::check_balanced(c);
  };
  m.add("histories", 0, 3, [T, body](Ctx& c) { body(c, T ? 3 : 2, true); });
  m.add("deeper", 0, 4, [T, body](Ctx& c) { body(c, T ? 4 : 3, false); });
  return m.run();
}
