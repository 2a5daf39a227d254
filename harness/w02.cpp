// W02: the C++ Client, ServerSOT and ServerMOT behave exactly like the C API. Every history is run
// twice, through the C functions and through the classes, over identical virtual streams; after
// every call codes, results and all bytes written and logged are compared.
#include "newcount.hpp"
#include "ref.hpp"
using namespace mc; using ref::string; using ref::vector; using ref::Props; using ref::Msg;
static string show(const trax::Region& r) { return r.empty() ? "empty" : string(r); }
static string show(const trax::Properties& p) { Props m; p.to_map(m); return ref::dprops(m); }
static string show(const trax::Image& i) {
  switch (i.type()) {
    case TRAX_IMAGE_EMPTY: return "none"; case TRAX_IMAGE_PATH: return "path:" + i.get_path(); case TRAX_IMAGE_URL: return "url:" + i.get_url();
    case TRAX_IMAGE_MEMORY: { int w, h, f; i.get_memory_header(&w, &h, &f); string s = "mem:" + std::to_string(w) + "x" + std::to_string(h) + ":" + std::to_string(f) + ":"; int b = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; for (int y = 0; y < h; y++) s += string(i.get_memory_row(y), w * b); return s; }
    case TRAX_IMAGE_BUFFER: { int l, f; const char* p = i.get_buffer(&l, &f); return "buf:" + std::to_string(f) + ":" + string(p, l); }
  } return "?";
}
static const int CH[] = {1, 2, 4};
static string show(const trax::ImageList& l) { string s = "I("; for (int c : CH) s += show(l.get(c)) + ";"; return s + ")"; }
static string show(const trax::ObjectList& l) { string s = "O("; for (int i = 0; i < l.size(); i++) s += show(l.get(i)) + show(l.properties(i)) + ";"; return s + ")"; }
static string cregion(const trax_region* r) { if (!r) return "empty"; char* e = trax_region_encode(r); string s = e ? e : "?"; if (e) shim::raw_free(e); return s; }
static string cobjects(trax_object_list* l) { string s = "O("; for (int i = 0; i < trax_object_list_count(l); i++) s += cregion(trax_object_list_get(l, i)) + ref::dprops(ref::rprops(trax_object_list_properties(l, i))) + ";"; return s + ")"; }
// the same objects, made through both interfaces
static trax::Region xregion(int k) { switch (k) { case 0: return trax::Region(); case 1: return trax::Region::create_rectangle(1, 2, 3.5f, 4); case 2: { trax::Region r = trax::Region::create_mask(0, 1, 2, 2); for (int y = 0; y < 2; y++) { char* p = r.write_mask_row(y); p[0] = 1; p[1] = y; } return r; } default: return trax::Region::create_special(2); } }
static trax_region* kregion(int k) { switch (k) { case 0: return nullptr; case 1: return trax_region_create_rectangle(1, 2, 3.5f, 4); case 2: { trax_region* r = trax_region_create_mask(0, 1, 2, 2); for (int y = 0; y < 2; y++) { char* p = trax_region_write_mask_row(r, y); p[0] = 1; p[1] = y; } return r; } default: return trax_region_create_special(2); } }
static trax::Image ximage(int k) { switch (k) { case 0: return trax::Image(); case 1: return trax::Image::create_path("/a b"); default: { trax::Image i = trax::Image::create_memory(2, 1, TRAX_IMAGE_MEMORY_GRAY8); memcpy(i.write_memory_row(0), "xy", 2); return i; } } }
static trax_image* kimage(int k) { switch (k) { case 0: return nullptr; case 1: return trax_image_create_path("/a b"); default: { trax_image* i = trax_image_create_memory(2, 1, TRAX_IMAGE_MEMORY_GRAY8); memcpy(trax_image_write_memory_row(i, 0), "xy", 2); return i; } } }
struct Objs { trax::ObjectList x; trax_object_list* k = nullptr; Objs(int n, int a, int b) : x(n) { k = trax_object_list_create(n); int w[] = {a, b}; for (int i = 0; i < n; i++) if (w[i] >= 0) { x.set(i, xregion(w[i])); trax_region* r = kregion(w[i]); trax_object_list_set(k, i, r); if (r) trax_region_release(&r); } } ~Objs() { trax_object_list_release(&k); } };
struct Imgs { trax::ImageList x; trax_image_list* k; Imgs(int a, int b) { k = trax_image_list_create(); set(a, 1); set(b, 2); } void set(int w, int c) { if (!w) return; x.set(ximage(w), c); trax_image_list_set(k, kimage(w), c); } ~Imgs() { trax_image_list_clear(k); trax_image_list_release(&k); } };
struct Pair {   // two identical connections
  std::shared_ptr<shim::Pipe> in[2], out[2]; std::shared_ptr<shim::Reader> rd[2]; std::shared_ptr<shim::Writer> wr[2]; int fi[2], fo[2]; ref::Log log[2];
  Pair(bool std_fds) { for (int i = 0; i < 2; i++) { in[i] = std::make_shared<shim::Pipe>(); out[i] = std::make_shared<shim::Pipe>(); in[i]->eof = true; rd[i] = std::make_shared<shim::Reader>(in[i]); wr[i] = std::make_shared<shim::Writer>(out[i]); if (i && std_fds) { shim::vfd_map(fi[i] = 0, rd[i]); shim::vfd_map(fo[i] = 1, wr[i]); } else { fi[i] = shim::vfd_open(rd[i]); fo[i] = shim::vfd_open(wr[i]); } } }
  void feed(const string& s) { for (int i = 0; i < 2; i++) in[i]->data += s; }
  trax_logging lg(int i) { return trax_logger_setup(ref::logcb, &log[i], 0); }
};
static void same(Ctx& c, const char* what, const string& k, const string& x) { if (k != x) c.fail(what, string(what) + "\n  C   " + k + "\n  C++ " + x); }
static void same(Ctx& c, const char* what, int k, int x) { same(c, what, std::to_string(k), std::to_string(x)); }
static void transport(Ctx& c, Pair& p) { same(c, "written", p.out[0]->data, p.out[1]->data); same(c, "logged", p.log[0].data, p.log[1].data); same(c, "consumed", (int)p.in[0]->pos, (int)p.in[1]->pos); }
static void status(Ctx& c, trax_handle* k, trax::Handle& x) {
  same(c, "alive", trax_is_alive(k) != 0, x.is_alive()); const char* e = trax_get_error(k); same(c, "error text", e ? e : "", x.get_error());
  for (int id : {0, 1, 2, 3, 4, 5}) { int a = -7, b = -7; int r = trax_get_parameter(k, id, &a); same(c, "parameter", r, x.get_parameter(id, &b)); same(c, "parameter value", a, b); same(c, "set parameter", trax_set_parameter(k, id, 1), x.set_parameter(id, 1)); }
}
static void metadata(Ctx& c, trax_handle* k, trax::Handle& x) {
  const trax::Metadata m = x.metadata(); trax_metadata* n = k->metadata; auto s = [](const char* p) { return string(p ? p : ""); };
  same(c, "metadata regions", n->format_region, m.region_formats()); same(c, "metadata images", n->format_image, m.image_formats()); same(c, "metadata channels", n->channels, m.channels());
  same(c, "metadata name", s(n->tracker_name), m.tracker_name()); same(c, "metadata description", s(n->tracker_description), m.tracker_description()); same(c, "metadata family", s(n->tracker_family), m.tracker_family());
  for (const char* key : {"a", "b.c", "none"}) { char* v = trax_properties_get(n->custom, key); same(c, "metadata custom", s(v), m.get_custom(key)); if (v) shim::raw_free(v); }
}
// properties kept by the caller from call to call, shared with a copy that must never change
struct Kept {
  trax::Properties x, copy; trax_properties* k; string was; int mode;
  Kept(int m) : mode(m) { k = trax_properties_create(); if (mode) { x.set("p", string("old")); trax_properties_set(k, "p", "old"); } }
  void before() { if (mode == 2) { copy = x; was = show(copy); } }
  void after(Ctx& c) { if (mode == 2 && show(copy) != was) c.fail("shared", "a copy of the properties changed from " + was + " to " + show(copy)); same(c, "properties", ref::dprops(ref::rprops(k)), show(x)); }
  void merge(trax_properties* o) { for (auto& q : ref::rprops(o)) trax_properties_set(k, q.first.c_str(), q.second.c_str()); }   // visible in the single-region forms
  ~Kept() { trax_properties_release(&k); }
};
static const char* STATES[] = {"@@TRAX:state \"5,6,7,8\" \"p=new\" \"q=1\" \n", "@@TRAX:state \"9\" \n@@TRAX:state \"m0,0,2,2,1,3\" \"z=2\" \n", "@@TRAX:quit \"trax.reason=why\" \"p=bye\" \n", "@@TRAX:frame \"/x\" \n", "", "@@TRAX:state \"bad\" \"p=x\" \n"};
static const char* HELLOS[] = {"@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle;mask;\" \"trax.image=path;memory;\" \"trax.channels=color;\" \"trax.multiobject=1\" \"trax.name=N\" \"trax.description=D d\" \"trax.family=F\" \"a=1\" \"b.c=x y\" \n", "@@TRAX:hello \"trax.version=3\" \"trax.region=rectangle;\" \"trax.image=path;\" \"trax.channels=color;depth;\" \n", "@@TRAX:hello \"trax.version=1\" \"trax.name=old\" \n", "@@TRAX:hello \"trax.version=4\" \"trax.region=polygon;\" \"trax.image=path;url;\" \"a=\" \n", "@@TRAX:hello \"trax.version=4\" \"trax.region=blob\" \n", ""};

static void client(Ctx& c, int depth, bool deep) {
  long live0 = mc_new_live;
  {
    Pair p(false); int hk = c.choose(6); p.feed(HELLOS[hk]); Kept kept(deep ? 2 : c.choose(3)); c.trace("hello %d, properties %d", hk, kept.mode);
    trax_handle* k = trax_client_setup_file(p.fi[0], p.fo[0], p.lg(0)); auto* x = new trax::Client(p.fi[1], p.fo[1], trax::Logging(p.lg(1)));
    same(c, "setup", k != nullptr, (bool)*x); transport(c, p);
    if (!k) {    // nothing to talk to: every call is refused, none crashes
      trax::ImageList im; trax::Region r = xregion(1); trax::Properties pr; trax::ObjectList ol; int v = 5;
      if (x->is_alive() || x->terminate("x") || x->get_error() != "" || x->initialize(im, r, pr) != TRAX_ERROR || x->initialize(im, ol, pr) != TRAX_ERROR || x->frame(im, pr) != TRAX_ERROR || x->frame(im, ol, pr) != TRAX_ERROR || x->wait(r, pr) != TRAX_ERROR || x->wait(ol, pr) != TRAX_ERROR || x->get_parameter(0, &v) > 0) c.fail("dead", "a call on a client without a connection did not fail");
      x->metadata(); delete x; c.outcome("setup-failed"); transport(c, p);
    } else {
      metadata(c, k, *x); c.outcome("setup");
      for (int i = 0; i < depth; i++) {
        int op = c.choose(8); int rk = 0, rx = 0;
        switch (op) {
          case 0: case 1: case 2: {
            static const int IM[][2] = {{1, 0}, {2, 0}, {1, 2}, {0, 0}}; int w = op == 2 ? c.choose(4) : 0, g = 0; if (op == 0) { g = c.choose(7); if (g > 3) { w = g - 3; g = 1; } } Imgs im(IM[w][0], IM[w][1]); if (op == 2) { c.trace("frame %d", w); rk = trax_client_frame(k, im.k, nullptr, kept.k); rx = x->frame(im.x, kept.x); break; }
            if (op == 0) { c.trace("initialize region %d", g); trax_object_list* o = trax_object_list_create(1); trax_region* r = kregion(g); trax_object_list_set(o, 0, r); if (r) trax_region_release(&r); rk = trax_client_initialize(k, im.k, o, kept.k); trax_object_list_release(&o); trax::Region g2 = xregion(g); rx = x->initialize(im.x, g2, kept.x); }
            else { static const int OB[][3] = {{1, 1, -1}, {2, 1, 2}, {0, 0, 0}, {2, 3, 0}}; int b = c.choose(4); c.trace("initialize objects %d", b); Objs o(OB[b][0], OB[b][1], OB[b][2]); rk = trax_client_initialize(k, im.k, o.k, kept.k); rx = x->initialize(im.x, o.x, kept.x); }
            break; }
          case 3: { Imgs im(1, 0); int b = c.choose(2); Objs o(1 + b, 1, 3); c.trace("frame adding %d", b + 1); rk = trax_client_frame(k, im.k, o.k, kept.k); rx = x->frame(im.x, o.x, kept.x); break; }
          case 4: { int s = c.choose(6); p.feed(STATES[s]); c.trace("wait region, %d", s); kept.before(); trax_object_list* o = nullptr; trax::Region g = xregion(3); string e = show(g); rk = trax_client_wait(k, &o, kept.k);
            if (o) { if (trax_object_list_count(o) > 1) rk = TRAX_ERROR; else if (trax_object_list_count(o) == 1) { e = cregion(trax_object_list_get(o, 0)); kept.merge(trax_object_list_properties(o, 0)); } trax_object_list_release(&o); }
            rx = x->wait(g, kept.x); same(c, "region", e, show(g)); kept.after(c); break; }
          case 5: { int s = c.choose(6); p.feed(STATES[s]); c.trace("wait objects, %d", s); kept.before(); trax_object_list* o = nullptr; trax::ObjectList l(2); string e = show(l); rk = trax_client_wait(k, &o, kept.k); if (o) { e = cobjects(o); trax_object_list_release(&o); } rx = x->wait(l, kept.x); same(c, "objects", e, show(l)); kept.after(c); break; }
          case 6: { int w = c.choose(2); c.trace("terminate"); rk = trax_terminate(k, w ? "r \"x" : "") == TRAX_OK; rx = w ? x->terminate("r \"x") : x->terminate(); break; }
          case 7: { auto* y = new trax::Client(*x); delete x; x = y; c.trace("copy"); break; }   // the handle survives its first owner
        }
        same(c, "code", rk, rx); transport(c, p); status(c, k, *x); c.step(); c.outcome(op == 7 ? "copy" : op == 6 ? "terminate" : rk == TRAX_ERROR ? "error" : op >= 4 ? (rk == TRAX_QUIT ? "quit" : "state") : "sent");
        c.state(fnvs(p.out[0]->data, p.in[0]->pos + 17 * hk));
      }
      metadata(c, k, *x); trax_cleanup(&k); delete x; transport(c, p);
    }
  }
  shim::vfd_reset(); shim::check_balanced(c); if (mc_new_live != live0) c.fail("leak-new", std::to_string(mc_new_live - live0) + " blocks of operator new left");
}
static const char* INPUT[] = {"@@TRAX:initialize \"1,2,3,4\" \"p=obj\" \"o=1\" \n@@TRAX:frame \"/a\" \"p=frame\" \"f=2\" \n", "@@TRAX:initialize \"/i\" \"5,5,5,5\" \"p=v\" \n", "@@TRAX:frame \"image:2;1;gray8;eHk=\" \"p=f\" \n", "@@TRAX:initialize \"1,2,3,4\" \"p=a\" \n@@TRAX:initialize \"m0,0,2,2,1,3\" \"p=b\" \n@@TRAX:frame \"/a\" \n", "@@TRAX:quit \"trax.reason=why\" \n", "@@TRAX:initialize \n@@TRAX:initialize \"4\" \n@@TRAX:frame \"/z\" \n", "", "@@TRAX:frame \"/a\" \"/b\" \n@@TRAX:state \"1\" \n"};
template <class S> static void server(Ctx& c, int depth) {
  const bool mot = std::is_same<S, trax::ServerMOT>::value; long live0 = mc_new_live;
  {
    Pair p(true); int cfg = c.choose(3); Kept kept(c.choose(3)); c.trace("configuration %d, properties %d", cfg, kept.mode);
    int regions = cfg == 1 ? TRAX_REGION_RECTANGLE : TRAX_REGION_ANY, images = cfg == 1 ? TRAX_IMAGE_PATH : TRAX_IMAGE_ANY, flags = cfg ? TRAX_METADATA_MULTI_OBJECT : 0; const char* name = cfg == 2 ? "n" : nullptr;
    trax_metadata* km = trax_metadata_create(regions, images, TRAX_CHANNEL_COLOR, name, name ? "d d" : nullptr, name ? "f" : nullptr, flags); if (cfg == 2) trax_properties_set(km->custom, "a", "1 2");
    trax_handle* k = trax_server_setup_file_v(km, p.fi[0], p.fo[0], p.lg(0), mot ? 0 : 3); trax_metadata_release(&km);
    S* x; { trax::Metadata m(regions, images, TRAX_CHANNEL_COLOR, name ? name : "", name ? "d d" : "", name ? "f" : "", flags); if (cfg == 2) m.set_custom("a", "1 2"); x = new S(m, trax::Logging(p.lg(1))); }
    same(c, "setup", k != nullptr, (bool)*x); transport(c, p); metadata(c, k, *x);
    for (int i = 0; i < depth; i++) {
      int op = c.choose(mot ? 6 : 4), rk = 0, rx = 0;
      if (op == 0) {
        int s = c.choose(8); p.feed(INPUT[s]); c.trace("wait region, %d", s); kept.before(); trax_image_list* im = nullptr; trax::ImageList xi; xi.set(ximage(2), 1); trax::Region g = xregion(3); string e = show(g), ei = show(xi);
        if constexpr (std::is_same<S, trax::ServerMOT>::value) {
          trax_object_list* o = nullptr; rk = trax_server_wait_mot(k, &im, &o, kept.k); if (o) { if (trax_object_list_count(o) > 1) rk = TRAX_ERROR; else { e = cregion(trax_object_list_get(o, 0)); kept.merge(trax_object_list_properties(o, 0)); } trax_object_list_release(&o); }
        } else { trax_region* o = nullptr; rk = trax_server_wait_sot(k, &im, &o, kept.k); if (o) { e = cregion(o); trax_region_release(&o); } }
        if (im) { ei = ref::dimages(im); trax_image_list_clear(im); trax_image_list_release(&im); }
        rx = x->wait(xi, g, kept.x); same(c, "region", e, show(g)); if (rk != TRAX_ERROR) same(c, "images", ei, show(xi)); kept.after(c);
      } else if (op == 1) {
        int g = c.choose(4); c.trace("reply region %d", g); trax_region* r = kregion(g); trax::Region r2 = xregion(g);
        if constexpr (std::is_same<S, trax::ServerMOT>::value) { trax_object_list* o = trax_object_list_create(1); trax_object_list_set(o, 0, r); trax_properties_append(kept.k, trax_object_list_properties(o, 0), 1); rk = trax_server_reply_mot(k, o); trax_object_list_release(&o); }
        else { if (!g) { if (r) trax_region_release(&r); throw Prune(); } rk = trax_server_reply_sot(k, r, kept.k); }
        if (r) trax_region_release(&r); rx = x->reply(r2, kept.x);
      } else if (op == 2) { int w = c.choose(2); c.trace("terminate"); rk = trax_terminate(k, w ? "r \"x" : "") == TRAX_OK; rx = w ? x->terminate("r \"x") : x->terminate(); }
      else if (op == 3) { auto* y = new S(*x); delete x; x = y; c.trace("copy"); }
      else if constexpr (std::is_same<S, trax::ServerMOT>::value) {
        if (op == 4) { int s = c.choose(8); p.feed(INPUT[s]); c.trace("wait objects, %d", s); kept.before(); trax_image_list* im = nullptr; trax_object_list* o = nullptr; trax::ImageList xi; trax::ObjectList l(1); string e = show(l), ei = show(xi);
          rk = trax_server_wait_mot(k, &im, &o, kept.k); if (o) { e = cobjects(o); trax_object_list_release(&o); } if (im) { ei = ref::dimages(im); trax_image_list_clear(im); trax_image_list_release(&im); }
          rx = x->wait(xi, l, kept.x); same(c, "objects", e, show(l)); same(c, "images", ei, show(xi)); kept.after(c);
          if (rk == TRAX_INITIALIZE || rk == TRAX_FRAME) { int before = l.size(); trax::ObjectList copy = l; if (before) copy.set(0, xregion(3)); xi.set(trax::Image(), 1); if (show(l) != e) c.fail("shared", "received objects changed with their copy"); } }
        else { int b = c.choose(3); static const int OB[][3] = {{1, 1, -1}, {2, 1, 2}, {2, 3, -1}}; Objs o(OB[b][0], OB[b][1], OB[b][2]); c.trace("reply objects %d", b); rk = trax_server_reply_mot(k, o.k); rx = x->reply(o.x); }
      }
      same(c, "code", rk, rx); transport(c, p); status(c, k, *x); c.step(); c.outcome(op == 3 ? "copy" : op == 2 ? "terminate" : rk == TRAX_ERROR ? "error" : op == 0 || op == 4 ? ref::tname(rk) : "replied"); c.state(fnvs(p.out[0]->data, p.in[0]->pos + 17 * cfg + mot));
    }
    trax_cleanup(&k); delete x; transport(c, p);
  }
  shim::vfd_reset(); shim::check_balanced(c); if (mc_new_live != live0) c.fail("leak-new", std::to_string(mc_new_live - live0) + " blocks of operator new left");
}
int main(int argc, char** argv) {
  Main m("W02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int d = T ? 4 : 3;
  m.bounds = {"client: six handshakes (two refused), every history of " + string(T ? "4 (properties shared) and 3" : "3") + " calls out of initialize (region / object list), frame, frame with objects, wait (region / object list), terminate, copy of the object; region, image and object variants; six kinds of server messages before each wait",
              "servers: three configurations each of ServerSOT and ServerMOT, every history of " + std::to_string(d) + " calls, eight kinds of client messages before each wait", "property objects fresh, reused from call to call, and shared with a copy"};
  m.add("client", 0, 4, [](Ctx& c) { client(c, 3, false); });
  if (T) m.add("client-deep", 0, 4, [](Ctx& c) { client(c, 4, true); });
  m.add("server-sot", 0, 4, [T](Ctx& c) { server<trax::ServerSOT>(c, T ? 4 : 3); });
  m.add("server-mot", 0, 4, [d](Ctx& c) { server<trax::ServerMOT>(c, d); });
  return m.run();
}
