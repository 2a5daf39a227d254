// S07: what a session or a value does depends on nothing but what is done to it. Two operations on objects
// that have nothing in common are executed as two threads, one is interrupted at every block of the library's
// code (and, with two interruptions, the other one again); both have to give what they give alone.
#include "regref.hpp"
#include <trax.h>
#include <sstream>
using namespace mc; using namespace ref;
static long count = 0, at = -1; static bool on = false;
extern "C" {
__attribute__((no_sanitize("all"))) void s07_point() {
  if (!on || !shim::fiber_self()) return;
  if (count++ == at) { on = false; shim::fiber_switch(nullptr); on = true; }
}
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc() { s07_point(); }
}
static const char* CH[] = {"color;", "depth;", "ir;"};
static string wire(int v, int type) {
  Msg m; m.type = type;
  if (type == TRAX_HELLO) { m.props = {{"trax.version", "4"}, {"trax.name", v ? "bee" : "ant"}, {"trax.description", v ? "d" : "long text"}, {"trax.family", v ? "f1" : "f2"}, {"trax.region", v ? "polygon;mask;" : "rectangle;"}, {"trax.image", v ? "memory;buffer;url;" : "path;"}, {"trax.channels", v ? "depth;ir;" : "color;"}, {v ? "x" : "y.z", v ? "1" : "2"}}; if (v) m.props["trax.multiobject"] = "1"; }
  else if (type == TRAX_STATE) { m.args = {v ? "5,6,7,8,9,1" : "mask:3,4,2,2,1,2,1"}; m.props = {{v ? "score" : "time", v ? "0.5" : "77"}}; }
  else if (type == TRAX_INITIALIZE) { m.args = {v ? "1,2,3,4" : "5,6,7,8,9,1.5"}; m.props = {{"i", v ? "one" : "two"}}; }
  else if (type == TRAX_FRAME) { m.args = {v ? "image:2;1;rgb;YWJjZGVm" : "data:image/png;iVBORw0KGgo="}; m.props = {{"f", v ? "q\"" : "\n"}}; }
  return encode(m);
}
static string meta(trax_handle* h) {
  if (!h) return "none"; trax_metadata* m = h->metadata; auto s = [](const char* t) { return string(t ? t : "-"); };
  return std::to_string(h->version) + "|" + std::to_string(m->format_region) + "|" + std::to_string(m->format_image) + "|" + std::to_string(m->channels) + "|" + std::to_string(m->flags) + "|" + s(m->tracker_name) + "|" + s(m->tracker_description) + "|" + s(m->tracker_family) + dprops(rprops(m->custom));
}
static trax_image* img(int v) { if (v) return trax_image_create_url("http://h/b"); trax_image* i = trax_image_create_memory(2, 2, TRAX_IMAGE_MEMORY_GRAY16); for (int y = 0; y < 2; y++) memcpy(trax_image_write_memory_row(i, y), y ? "abcd" : "\1\2\3\4", 4); return i; }
static rg::R reg(int v, int k) { switch (k) { case 0: return v ? rg::rect(1.25f, -3, 4, 5) : rg::rect(-2, 0.5f, 3, 7); case 1: return v ? rg::poly({{0, 0}, {4, 1}, {2, 5}}) : rg::poly({{-1, 2}, {3, 0.5f}, {4, 4}, {0, 3}}); case 2: return v ? rg::mask(2, 1, 3, 2, "101110") : rg::mask(-1, 0, 2, 3, "111001"); default: return rg::special(v ? 3 : -2); } }
static string text(trax_region* r) { char* e = trax_region_encode(r); string s = e ? e : "null"; shim::raw_free(e); return s; }
// an operation: what has to exist before is made first, then the operation itself is the part that is interrupted
struct Op { int k, v; std::unique_ptr<Peer> p; string out; size_t base = 0;
  trax_region *a = nullptr, *b = nullptr; trax_properties* pr = nullptr; trax_object_list* ol = nullptr; trax_image_list* il = nullptr; trax_metadata* md = nullptr;
  Op(int k, int v) : k(k), v(v) {
    if (k <= 6) p.reset(new Peer);
    if (k == 0) p->in->data = wire(v, TRAX_HELLO);
    if (k == 1) { md = trax_metadata_create(v ? TRAX_REGION_ANY : TRAX_REGION_MASK, v ? TRAX_IMAGE_PATH : TRAX_IMAGE_ANY, v ? 5 : 1, v ? "n" : "name", v ? nullptr : "de", v ? "fam" : nullptr, v ? TRAX_METADATA_MULTI_OBJECT : 0); trax_properties_set(md->custom, v ? "k" : "l", "1"); }
    if (k == 2 || k == 3) { p->in->data = hello(4, v, 1); p->client(); }
    if (k >= 4 && k <= 6) p->server(v ? 4 : 3, v, 1);
    if (k == 2 || k == 6) { il = trax_image_list_create(); trax_image* i = img(v); trax_image_list_set(il, i, TRAX_CHANNEL_COLOR); ol = trax_object_list_create(1 + v); for (int i = 0; i <= v; i++) { trax_region* r = rg::make(reg(v, 1 + i)); trax_object_list_set(ol, i, r); trax_region_release(&r); trax_properties_set_int(trax_object_list_properties(ol, i), "id", 10 * v + i); } pr = mkprops({{"p", v ? "x" : "y"}}); }
    if (k == 3) { trax_image_list* l = trax_image_list_create(); trax_image* i = img(1); trax_image_list_set(l, i, TRAX_CHANNEL_COLOR); trax_object_list* o = trax_object_list_create(1); trax_region* r = rg::make(reg(v, 0)); trax_object_list_set(o, 0, r); trax_region_release(&r); trax_client_initialize(p->h, l, o, nullptr); trax_object_list_release(&o); trax_image_list_clear(l); trax_image_list_release(&l); p->in->data += wire(v, TRAX_STATE); }
    if (k >= 4 && k <= 6) { Msg i; if (v) p->in->data = wire(v, TRAX_INITIALIZE) + wire(v + 1, TRAX_INITIALIZE) + wire(v, TRAX_FRAME); else { i.type = TRAX_INITIALIZE; i.args = {"file:///x", "1,2,3,4"}; p->in->data = encode(i); } }
    if (k == 5 || k == 6) { if (v) real_wait_mot(p->h); else real_wait_sot(p->h); }
    if (k == 7 || k == 8) { a = rg::make(reg(v, v ? 1 : 2)); b = rg::make(reg(v, v ? 2 : 1)); }
    if (p) base = p->out->data.size();
  }
  void run() {
    switch (k) {
      case 0: p->h = trax_client_setup_file(p->fin, p->fout, p->logging()); out = meta(p->h); break;
      case 1: p->h = trax_server_setup_file_v(md, p->fin, p->fout, p->logging(), 4); out = meta(p->h); break;
      case 2: out = std::to_string(trax_client_initialize(p->h, il, ol, pr)); out += std::to_string(trax_client_frame(p->h, il, nullptr, pr)); break;
      case 3: out = dres(real_client_wait(p->h)); break;
      case 4: out = dres(v ? real_wait_mot(p->h) : real_wait_sot(p->h)); break;
      case 5: { trax_region* r = rg::make(reg(v, 2)); trax_properties* q = mkprops({{"a", v ? "1" : "2"}}); if (v) { trax_object_list* o = trax_object_list_create(2); trax_object_list_set(o, 0, r); trax_object_list_set(o, 1, r); out = std::to_string(trax_server_reply_mot(p->h, o)); trax_object_list_release(&o); } else out = std::to_string(trax_server_reply_sot(p->h, r, q)); trax_region_release(&r); trax_properties_release(&q); break; }
      case 6: { out = std::to_string(trax_server_reply_mot(p->h, ol)); const char* e = trax_get_error(p->h); out += e ? e : "-"; out += std::to_string(trax_terminate(p->h, v ? "bye" : "no reason")); out += std::to_string(trax_is_alive(p->h)); break; }
      case 7: for (int i = 0; i < 4; i++) { trax_region* r = rg::make(reg(v, i)); string s = text(r); trax_region* d = trax_region_decode(s.c_str()); out += s + " " + dregion(d) + ";"; trax_region_release(&r); trax_region_release(&d); } break;
      case 8: { static const int TY[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}; for (int t : TY) { trax_region* r = trax_region_convert(a, t); out += dregion(r); trax_region_release(&r); } trax_bounds bb = trax_region_bounds(a); out += fnum(trax_region_overlap(a, b, trax_no_bounds)) + " " + fnum(bb.left) + fnum(bb.bottom) + std::to_string(trax_region_contains(a, 2, 2)); break; }
      case 9: { trax_properties* q = trax_properties_create(); trax_properties_set(q, "t", v ? "text" : "other"); trax_properties_set_int(q, "i", v ? 42 : -7); trax_properties_set_float(q, "f", v ? 2.5f : -0.125f); char* t = trax_properties_get(q, "t"); out = string(t) + std::to_string(trax_properties_get_int(q, "i", 9)) + fnum(trax_properties_get_float(q, "f", 9)) + std::to_string(trax_properties_get_int(q, "none", 5)); shim::raw_free(t); out += dprops(rprops(q)); trax_properties_release(&q); break; }
      case 10: { trax::Region r = v ? trax::Region::create_rectangle(1, 2, 3, 4) : trax::Region::create_special(5); std::ostringstream o; o << r; std::istringstream in(o.str()); trax::Region s; in >> s; out = o.str() + string(s); trax::Properties q; q.set("k", v ? 11 : 22); trax::Properties q2(q); q2.set("l", "m"); out += q.get("k", string("")) + q2.get("l", string("")); trax::Image i = v ? trax::Image::create_path("/a") : trax::Image::create_url("http://b"); trax::Image j = i; out += v ? j.get_path() : j.get_url(); break; }
      case 11: { Peer q; q.in->data = hello(4, false, 1, v ? "mask;" : "rectangle;polygon;", v ? "url;" : "path;memory;"); q.client(); out = meta(q.h); out += std::to_string(trax_terminate(q.h, "x")); out += std::to_string(trax_cleanup(&q.h)); out += q.out->data; break; }
    }
  }
  string done() {
    string r = out; if (p) { r += " wrote " + p->out->data.substr(base) + " logged " + std::to_string(p->log.data.size()) + " " + p->log.data; if (p->h) { if (k != 0 && k != 1) r += trax_is_alive(p->h) ? " alive" : " dead"; trax_cleanup(&p->h); } }
    if (il) { trax_image_list_clear(il); trax_image_list_release(&il); } if (ol) trax_object_list_release(&ol); if (pr) trax_properties_release(&pr); if (a) trax_region_release(&a); if (b) trax_region_release(&b); if (md) trax_metadata_release(&md); p.reset(); return r;
  }
};
static const int NOP = 12; static const char* NAME[] = {"client-setup", "server-setup", "requests", "client-wait", "server-wait", "reply", "refused-terminate", "region-text", "region-convert", "properties", "c++", "client-life"};
struct Alone { string r; long n; };
static Alone alone(int k, int v) {
  static std::map<int, Alone> m; auto it = m.find(k * 2 + v); if (it != m.end()) return it->second;
  for (int i = 0; i < 2; i++) { Op* o = new Op(k, v); shim::Fiber* f = shim::fiber_new([&] { o->run(); }); count = 0; at = -1; on = true; shim::fiber_switch(f); on = false; m[k * 2 + v] = {o->done(), count}; delete o; shim::fiber_free(f); }   // (the second time: nothing is made only once)
  return m[k * 2 + v];
}
// A until point k, B until point j (-1: to its end), A to its end, the rest of B
static void pair(Ctx& c, int x, int y, int stride, bool two) {
  int vx = c.choose(2); Alone ea = alone(x, vx), eb = alone(y, 1 - vx); long k = c.choose((int)((ea.n + stride - 1) / stride)) * (long)stride, j = two ? c.choose((int)((eb.n + stride - 1) / stride)) * (long)stride : -1;
  Op *a = new Op(x, vx), *b = new Op(y, 1 - vx); shim::Fiber *fa = shim::fiber_new([&] { a->run(); }), *fb = shim::fiber_new([&] { b->run(); });
  auto go = [&](shim::Fiber* f, long until) { if (shim::fiber_done(f)) return; count = 0; at = until; on = true; shim::fiber_switch(f); on = false; c.step(); };
  go(fa, k); go(fb, j); go(fa, -1); go(fb, -1); if (!shim::fiber_done(fa) || !shim::fiber_done(fb)) c.fail("harness", "not ended");
  string ra = a->done(), rb = b->done(); delete a; delete b; shim::fiber_free(fa); shim::fiber_free(fb);
  string sc = string(NAME[x]) + " interrupted at point " + std::to_string(k) + " of " + std::to_string(ea.n) + " by " + NAME[y] + (two ? ", itself interrupted at " + std::to_string(j) : "");
  if (ra != ea.r) c.fail("disturbed", sc + ":\n  " + NAME[x] + " alone " + mc::esc(ea.r, 500) + "\n  now " + mc::esc(ra, 500));
  if (rb != eb.r) c.fail("disturbed", sc + ":\n  " + NAME[y] + " alone " + mc::esc(eb.r, 500) + "\n  now " + mc::esc(rb, 500));
  c.state(fnvs(sc)); c.outcome(NAME[x]); shim::check_balanced(c);
}
int main(int argc, char** argv) {
  Main m("S07"); m.parse(argc, argv); m.cleanup_after = [] { on = false; shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {"every ordered pair of 12 operations (set-up of both ends, requests, waits, replies, termination, region text and geometry, properties, C++ values) on different objects with different values; the first is interrupted at every basic block of the library's code, the second runs to its end",
              string("two interruptions (first at k, second at j, first to its end, second to its end) at every ") + (T ? "7th x 7th" : "61st x 61st") + " block"};
  for (int x = 0; x < NOP; x++) m.add(string("one-") + NAME[x], 0, 2, [x](Ctx& c) { pair(c, x, c.choose(NOP), 1, false); });
  for (int x = 0; x < NOP; x++) m.add(string("two-") + NAME[x], 0, 2, [x, T](Ctx& c) { pair(c, x, c.choose(NOP), T ? 7 : 61, true); });
  return m.run();
}
