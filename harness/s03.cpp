// S03: the handshake transfers the declared capabilities faithfully.
#include "ref.hpp"
using namespace mc; using namespace ref;
static string q(const char* s) { return s ? "\"" + string(s) + "\"" : "null"; }
static string dmeta(const trax_metadata* m) {
  if (!m) return "nometadata";
  return "r" + std::to_string(m->format_region) + " i" + std::to_string(m->format_image) + " c" + std::to_string(m->channels) + " f" + std::to_string(m->flags) + " " + q(m->tracker_name) + q(m->tracker_description) + q(m->tracker_family) + dprops(rprops(m->custom));
}
static string dview(trax_handle* h) {
  int v = -1, mo = -1, cl = -1, so = -1; int a = trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v), b = trax_get_parameter(h, TRAX_PARAMETER_MULTIOBJECT, &mo), c = trax_get_parameter(h, TRAX_PARAMETER_CLIENT, &cl), d = trax_get_parameter(h, TRAX_PARAMETER_SOCKET, &so);
  return "v" + std::to_string(v) + " m" + std::to_string(mo) + " client" + std::to_string(cl) + " socket" + std::to_string(so) + (a == 1 && b == 1 && c == 1 && d == 1 ? "" : " (not available)") + (trax_is_alive(h) ? " alive " : " dead ") + dmeta(h->metadata);
}
static const char* NAMES[] = {nullptr, "N", "a \"quoted\"\n=name; with\\slash\t\xc3\xa9", "", "LONG"};
static string longname(5000, 'x');
static const char* name(int i) { return i == 4 ? longname.c_str() : NAMES[i]; }
static const Props CUSTOM[] = {{}, {{"vot", "1"}}, {{"a.b_C9", ""}, {"Z", "multi\nline \"v\""}, {"key.of.sixty.four.characters.012345678901234567890123456789abcde", "x"}}, {{"traxx", "1"}, {"tra", "2"}, {"xtrax.y", "3"}, {"version", "9"}, {"name", "n"}}};
// what has been declared, as both sides should see it
static string view(bool client, bool socket, int version, int regions, int imgs, int channels, bool multi, const char* n, const char* d, const char* f, const Props& cu) {
  bool mo = multi && version >= 4;
  return "v" + std::to_string(version) + " m" + std::to_string(mo) + " client" + std::to_string(client) + " socket" + std::to_string(socket) + " alive r" + std::to_string(regions) + " i" + std::to_string(imgs) + " c" + std::to_string(channels) + " f" + std::to_string(mo ? TRAX_METADATA_MULTI_OBJECT : 0) + " " + q(n) + q(d) + q(f) + dprops(cu);
}
static void handshake(Ctx& c, int version, int regions, int imgs, int channels, bool multi, int n, int d, int f, const Props& cu, bool socket) {
  auto a = std::make_shared<Pipe>(), b = std::make_shared<Pipe>();
  trax_metadata* m = trax_metadata_create(regions, imgs, channels, name(n), name(d), name(f), multi ? TRAX_METADATA_MULTI_OBJECT : 0);
  for (auto& x : cu) trax_properties_set(m->custom, x.first.c_str(), x.second.c_str());
  string before = dmeta(m); Peer s(a, b); trax_handle *sh, *ch = nullptr; Peer p(b, a);
  sh = trax_server_setup_file_v(m, s.fin, s.fout, s.logging(), version); c.step();
  int v = version < 1 ? TRAX_VERSION : version;
  if (dmeta(m) != before) c.fail("declared", "server setup changed the given metadata from " + before + " to " + dmeta(m));
  trax_metadata_release(&m);
  if (!sh) c.fail("server", "server setup failed");
  string e = view(false, false, v, regions, imgs, channels, multi, name(n), name(d), name(f), cu), g = dview(sh);
  if (e != g) c.fail("server", "server handle\n  expected " + mc::esc(e, 400) + "\n  got      " + mc::esc(g, 400));
  if (socket) {
    struct Both : shim::VFile { shim::Reader r; shim::Writer w; Both(std::shared_ptr<Pipe> i, std::shared_ptr<Pipe> o) : r(i), w(o) {} ssize_t read(void* b, size_t n) override { return r.read(b, n); } ssize_t write(const void* b, size_t n) override { return w.write(b, n); } };
    int srv = shim::vfd_open(std::make_shared<shim::VFile>()); auto both = std::make_shared<Both>(b, a);
    shim::on_accept = [both](int) { return shim::vfd_open(both); };
    ch = trax_client_setup_socket(srv, 10, p.logging());
  } else ch = trax_client_setup_file(p.fin, p.fout, p.logging());
  c.step();
  if (!ch) c.fail("client", "client setup failed on " + mc::esc(b->data, 600));
  e = view(true, socket, v, regions, imgs, channels, multi, name(n), name(d), name(f), cu); g = dview(ch);
  if (e != g) c.fail("client", "client handle after " + mc::esc(b->data, 500) + "\n  expected " + mc::esc(e, 400) + "\n  got      " + mc::esc(g, 400));
  if (a->data.size()) c.fail("client", "client wrote during setup");
  if (b->pos != b->data.size()) c.fail("client", "hello not consumed");
  c.state(fnvs(g)); c.outcome("handshake");
  trax_cleanup(&sh); trax_cleanup(&ch); shim::check_balanced(c);
}
int main(int argc, char** argv) {
  Main m("S03"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  m.bounds = {"real server to real client: every subset of region formats x image formats x channels x multi-object x version (default, 1..4); every combination of 5 names, descriptions and families (absent, plain, with special characters, empty, 5000 characters) x 4 custom property sets x versions; file and socket streams",
              "hello texts: all combinations of 7 fields, each absent or with 2-6 values including unknown ones, in every rotation, with wrong message types and surplus arguments"};
  m.add("formats", 0, 2, [](Ctx& c) {
    int v = c.choose(5), r = 1 + c.choose(7), i = 1 + c.choose(15), ch = v == 1 ? 1 : 1 + c.choose(7); bool mu = c.flip();
    int regions = (r & 1 ? TRAX_REGION_RECTANGLE : 0) | (r & 2 ? TRAX_REGION_POLYGON : 0) | (r & 4 ? TRAX_REGION_MASK : 0), imgs = (i & 1 ? TRAX_IMAGE_PATH : 0) | (i & 2 ? TRAX_IMAGE_URL : 0) | (i & 4 ? TRAX_IMAGE_MEMORY : 0) | (i & 8 ? TRAX_IMAGE_BUFFER : 0);
    handshake(c, v, regions, imgs, ch, mu, 1, 2, 0, CUSTOM[1], false);
  });
  m.add("names", 0, 2, [](Ctx& c) {
    int v = c.choose(5), n = c.choose(5), d = c.choose(5), f = c.choose(5), k = c.choose(4); bool so = c.flip();
    handshake(c, v, TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, 1, false, n, d, f, CUSTOM[k], so);
  });
  m.add("hello", 0, 3, [](Ctx& c) {
    struct F { const char* wire; int val; };   // wire null: absent; val -1: unknown
    static const F V[] = {{nullptr, 1}, {"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"abc", 1}}, R[] = {{nullptr, TRAX_REGION_RECTANGLE}, {"rectangle;", TRAX_REGION_RECTANGLE}, {"mask;polygon", TRAX_REGION_MASK | TRAX_REGION_POLYGON}, {"polygon;;rectangle;mask;", TRAX_REGION_ANY}, {"blob;", -1}, {"mask;rectangl;", -1}},
      I[] = {{nullptr, TRAX_IMAGE_PATH}, {"path", TRAX_IMAGE_PATH}, {"buffer;url;", TRAX_IMAGE_BUFFER | TRAX_IMAGE_URL}, {"memory;path;url;buffer;", TRAX_IMAGE_ANY}, {"video;", -1}, {"path;paths", -1}},
      C[] = {{nullptr, 1}, {"color;", 1}, {"", 1}, {"ir;depth", 6}, {"depth;color;ir;", 7}, {"sonar;", -1}}, M[] = {{nullptr, 0}, {"0", 0}, {"1", 1}};
    auto &v = V[c.choose(6)], &r = R[c.choose(6)], &i = I[c.choose(6)], &ch = C[v.val < 2 ? c.choose(5) : c.choose(6)], &mo = M[c.choose(3)]; int more = c.choose(3), type = c.choose(4);
    vector<std::pair<string, string>> f;
    if (v.wire) f.push_back({"trax.version", v.wire}); if (r.wire) f.push_back({"trax.region", r.wire}); if (i.wire) f.push_back({"trax.image", i.wire}); if (ch.wire) f.push_back({"trax.channels", ch.wire}); if (mo.wire) f.push_back({"trax.multiobject", mo.wire});
    Props cu; const char* nm = nullptr; if (more >= 1) { f.push_back({"trax.name", "x y"}); nm = "x y"; } if (more == 2) { f.push_back({"other", "o=1"}); cu["other"] = "o=1"; f.push_back({"trax.unknown", "ignored"}); }
    int rot = f.empty() ? 0 : (type == 0 ? c.choose(f.size()) : 0);
    string w = type == 2 ? "@@TRAX:frame" : type == 3 ? "@@TRAX:quit" : "@@TRAX:hello";
    if (type == 1) w += " surplus";
    for (size_t k = 0; k < f.size(); k++) { auto& x = f[(k + rot) % f.size()]; w += " \"" + x.first + "=" + ref::esc(x.second) + "\""; }
    Peer p; p.in->data = "some noise\n" + w + "\n"; p.in->eof = true; p.client(); c.step();
    bool ok = type == 0 && r.val > 0 && i.val > 0 && (v.val < 2 || ch.val > 0);
    if (!p.h == ok) c.fail("hello", string(ok ? "rejected" : "accepted") + " hello " + mc::esc(w, 500));
    if (p.out->data.size() && p.h) c.fail("hello", "client wrote during setup");
    if (p.h) {
      string e = view(true, false, v.val, r.val, i.val, v.val < 2 ? 1 : ch.val, mo.val, nm, nullptr, nullptr, cu), g = dview(p.h);
      if (e != g) c.fail("hello", mc::esc(w, 500) + "\n  expected " + mc::esc(e, 400) + "\n  got      " + mc::esc(g, 400));
      c.state(fnvs(g)); trax_cleanup(&p.h);
    }
    c.outcome(ok ? "accepted" : "rejected"); shim::check_balanced(c);
  });
  return m.run();
}
