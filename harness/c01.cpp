// C01: property maps behave as string maps in every history.
#include "ref.hpp"
#include <cmath>
#include <climits>
using namespace mc; using namespace ref;

// keys: "ab" and "bA" have equal djb2 hashes, "a", "ac" .. share buckets of a 32 bucket table with others
static const vector<string> KEYS = {"ab", "bA", "", "trax.x", "a", "A!", "k\xc3\xa9=\"\n"};
static const vector<string> VALS = {"", "7", "abc", "-1.75e1", "0x1f", " 8", "8 ", "1e300", "nan", "3000000000", string(300, 'v')};

static std::optional<double> number(const string& v) {   // complete strtod number
  if (v.empty()) return {}; char* e; double d = strtod(v.c_str(), &e); if (*e || e == v.c_str()) return {}; return d;
}
static int ref_int(const Props& m, const string& k, int def) {
  auto i = m.find(k); if (i == m.end()) return def; auto d = number(i->second);
  if (!d || std::isnan(*d) || *d >= 2147483648.0 || *d <= -2147483649.0) return def; return (int)*d;
}
static string ref_float(const Props& m, const string& k, float def) {
  auto i = m.find(k); if (i == m.end()) return fnum(def); auto d = number(i->second); return fnum(d ? (float)*d : def);
}
static void observe(Ctx& c, const char* n, trax_properties* p, const Props& m) {
  string w = string("map ") + n + " should be " + mc::esc(dprops(m), 300) + ": ";
  for (auto& k : KEYS) {
    bool has = m.count(k);
    if ((trax_properties_has(p, k.c_str()) != 0) != has) c.fail("has", w + "has(" + mc::esc(k) + ")");
    char* v = trax_properties_get(p, k.c_str());
    if ((v != nullptr) != has || (v && m.at(k) != v)) c.fail("get", w + "get(" + mc::esc(k) + ") = " + (v ? mc::esc(v, 100) : "NULL"));
    if (v) shim::raw_free(v);
    if (trax_properties_get_int(p, k.c_str(), -77) != ref_int(m, k, -77)) c.fail("get_int", w + "get_int(" + mc::esc(k) + ") = " + std::to_string(trax_properties_get_int(p, k.c_str(), -77)));
    string f = fnum(trax_properties_get_float(p, k.c_str(), -7.5f));
    if (f != ref_float(m, k, -7.5f)) c.fail("get_float", w + "get_float(" + mc::esc(k) + ") = " + f);
  }
  if (trax_properties_count(p) != (int)m.size()) c.fail("count", w + "count = " + std::to_string(trax_properties_count(p)));
  vector<std::pair<string, string>> en;
  trax_properties_enumerate(p, [](const char* k, const char* v, const void* o) { ((vector<std::pair<string, string>>*)o)->push_back({k, v}); }, &en);
  std::sort(en.begin(), en.end());
  if (en != vector<std::pair<string, string>>(m.begin(), m.end())) { Props q(en.begin(), en.end()); c.fail("enumerate", w + "enumerates " + std::to_string(en.size()) + " entries " + mc::esc(dprops(q), 300)); }
}

struct W { trax_properties* p[2]; Props m[2]; };
static void op(Ctx& c, W& w, int nk, const vector<int>& vals) {
  int t = c.choose(2); int kind = c.choose(9);
  trax_properties*& p = w.p[t]; trax_properties*& q = w.p[1 - t]; Props& m = w.m[t]; Props& n = w.m[1 - t];
  switch (kind) {
    case 0: { string k = KEYS[c.choose(nk)], v = VALS[vals[c.choose(vals.size())]]; trax_properties_set(p, k.c_str(), v.c_str()); m[k] = v; c.trace("%d: set %s=%s", t, mc::esc(k).c_str(), mc::esc(v, 40).c_str()); break; }
    case 1: trax_properties_clear(p); m.clear(); c.trace("%d: clear", t); break;
    case 2: trax_properties_append(q, p, 0); for (auto& x : n) m.insert(x); c.trace("%d: append other, keep", t); break;
    case 3: trax_properties_append(q, p, 1); for (auto& x : n) m[x.first] = x.second; c.trace("%d: append other, overwrite", t); break;
    case 4: trax_properties_release(&p); if (p) c.fail("release", "pointer not cleared"); p = trax_properties_copy(q); m = n; c.trace("%d: copy of other", t); break;
    case 5: { int o = c.choose(2); trax_properties_append(p, p, o); c.trace("%d: append itself", t); break; }
    case 6: { string k = KEYS[c.choose(2)]; static const int v[] = {INT_MIN, 0, INT_MAX}; int i = v[c.choose(3)]; trax_properties_set_int(p, k.c_str(), i); m[k] = std::to_string(i); c.trace("%d: set_int %d", t, i); break; }
    case 7: { string k = KEYS[c.choose(2)]; static const float v[] = {-0.5f, 1e-3f, 3.4028235e38f, 123456.75f}; float f = v[c.choose(4)]; trax_properties_set_float(p, k.c_str(), f); char b[128]; snprintf(b, sizeof b, "%f", f); m[k] = b; c.trace("%d: set_float %g", t, f); break; }
    case 8: for (int i = 0; i < 70; i++) { string k = "key" + std::to_string(i), v(i, 'x'); trax_properties_set(p, k.c_str(), v.c_str()); m[k] = v; } c.trace("%d: 70 keys", t); break;
  }
}
static void run(Ctx& c, int depth, int nk, const vector<int>& vals) {
  W w; w.p[0] = trax_properties_create(); w.p[1] = trax_properties_create();
  observe(c, "A", w.p[0], w.m[0]);
  for (int d = 0; d < depth; d++) {
    op(c, w, nk, vals); c.step();
    observe(c, "A", w.p[0], w.m[0]); observe(c, "B", w.p[1], w.m[1]);
    c.state(dprops(w.m[0]) + "|" + dprops(w.m[1]));
  }
  c.outcome(w.m[0].size() > 50 ? "large" : w.m[0].size() > 1 ? "several keys" : w.m[0].empty() ? "empty" : "one key");
  trax_properties_release(&w.p[0]); trax_properties_release(&w.p[1]);
  trax_properties_release(&w.p[0]);
  shim::check_balanced(c);
}
int main(int argc, char** argv) {
  Main m("C01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {T ? "every history of 4 operations over 2 maps, 3 keys (two with equal hash), 2 values" : "every history of 3 operations over 2 maps, 3 keys (two with equal hash), 2 values",
              T ? "every history of 3 operations with all 7 keys and 11 values, observed by every accessor for every key after every operation" : "every history of 2 operations with all 7 keys and 11 values, observed by every accessor for every key after every operation"};
  m.add("histories", 0, 3, [T](Ctx& c) { run(c, T ? 4 : 3, 3, {1, 2}); });
  m.add("values", 0, 2, [T](Ctx& c) { static vector<int> all; if (all.empty()) for (size_t i = 0; i < VALS.size(); i++) all.push_back(i); run(c, T ? 3 : 2, KEYS.size(), all); });
  // growing and shrinking replacement of one value
  m.add("resize", 0, 2, [T](Ctx& c) {
    trax_properties* p = trax_properties_create(); Props m; static const int L[] = {0, 1, 2, 7, 8, 31, 100, 5000};
    for (int i = 0; i < (T ? 4 : 3); i++) { int k = c.choose(2); string v(L[c.choose(8)], 'a' + i); trax_properties_set(p, KEYS[k].c_str(), v.c_str()); m[KEYS[k]] = v; observe(c, "A", p, m); c.state(dprops(m)); }
    trax_properties_release(&p); shim::check_balanced(c);
  });
  // no-ops on missing arguments
  m.add("null", 0, 1, [](Ctx& c) {
    trax_properties* p = trax_properties_create(); Props m; trax_properties_set(p, "a", "1"); m["a"] = "1";
    int k = c.choose(5);
    if (k == 0) trax_properties_set(p, "a", nullptr);
    if (k == 1) trax_properties_enumerate(p, nullptr, nullptr);
    if (k == 2) trax_properties_enumerate(nullptr, [](const char*, const char*, const void*) {}, nullptr);
    if (k == 3) { trax_properties* q = trax_properties_copy(nullptr); observe(c, "copy of NULL", q, {}); trax_properties_release(&q); }
    if (k == 4) { trax_properties* q = nullptr; trax_properties_release(&q); trax_properties_release(nullptr); trax_properties_clear(nullptr); trax_properties_append(nullptr, p, 1); }
    observe(c, "A", p, m); trax_properties_release(&p); shim::check_balanced(c);
  });
  return m.run();
}
