// S04: two real peers always agree on the session. Client and server run as fibers over virtual
// streams; the explorer chooses the session, the scheduling at every transfer and short transfers.
#include "ref.hpp"
using namespace mc; using namespace ref;
using shim::Fiber;
struct Cfg { int version; bool multi; int channels; bool socket; size_t capacity; const char* name; };
static const Cfg CF[] = {{4, true, 1, false, 0, "v4m"}, {4, false, 3, true, 0, "v4-socket"}, {3, false, 1, false, 0, "v3"}, {2, false, 6, true, 0, "v2-socket"}, {1, false, 1, false, 0, "v1"}, {4, true, 7, false, 40, "v4m-smallpipe"}, {3, false, 2, true, 16, "v3-socket-smallpipe"}};

struct Sched {
  Ctx& c; Fiber* f[2] = {nullptr, nullptr}; bool blocked[2] = {false, false}; int cur = 0; std::exception_ptr ex; int switches = 0;
  explicit Sched(Ctx& c) : c(c) {}
  int me() { return shim::fiber_self() == f[0] ? 0 : 1; }
  void block() { int i = me(); blocked[i] = true; shim::fiber_switch(nullptr); }
  void wake(int i) { blocked[i] = false; }
  void point() { int i = me(), o = 1 - i; if (!f[o] || shim::fiber_done(f[o]) || blocked[o]) return; if (c.deviate(2)) { switches++; cur = o; shim::fiber_switch(nullptr); } }
  void run(std::function<void()> a, std::function<void()> b) {
    auto wrap = [this](std::function<void()> g) { return [this, g] { try { g(); } catch (...) { if (!ex) ex = std::current_exception(); } }; };
    f[0] = shim::fiber_new(wrap(a)); f[1] = shim::fiber_new(wrap(b)); cur = c.choose(2); bool dead = false;
    while (!ex) {
      bool r0 = !shim::fiber_done(f[0]) && !blocked[0], r1 = !shim::fiber_done(f[1]) && !blocked[1];
      if (!r0 && !r1) { dead = !shim::fiber_done(f[0]) || !shim::fiber_done(f[1]); break; }
      if (!(cur ? r1 : r0)) cur = 1 - cur;
      shim::fiber_switch(f[cur]);
    }
    for (int i = 0; i < 2; i++) shim::fiber_free(f[i]), f[i] = nullptr;
    if (ex) std::rethrow_exception(ex);
    if (dead) c.fail("deadlock", "both sides wait for each other");
  }
};
struct Chan { std::string data; size_t pos = 0, cap = 0; bool eof = false; };
struct End : shim::VFile {   // one descriptor: reads from in, writes to out
  Sched& s; std::shared_ptr<Chan> in, out; int side; bool sock;
  End(Sched& s, std::shared_ptr<Chan> i, std::shared_ptr<Chan> o, int side, bool sock) : s(s), in(i), out(o), side(side), sock(sock) {}
  ssize_t read(void* b, size_t n) override {
    s.point(); while (in->pos >= in->data.size()) { if (in->eof) return 0; s.block(); }
    size_t av = std::min(n, in->data.size() - in->pos); if (av > 1) { int d = s.c.deviate(3); if (d == 1) av = 1; else if (d == 2) av = (av + 1) / 2; }
    memcpy(b, in->data.data() + in->pos, av); in->pos += av; s.wake(1 - side); return av;
  }
  ssize_t write(const void* b, size_t n) override {
    if (out->eof || (sock && in->eof)) { errno = EPIPE; return -1; }
    if (out->cap) { while (out->data.size() - out->pos >= out->cap) s.block(); n = std::min(n, out->cap - (out->data.size() - out->pos)); }
    else if (n > 1) { int d = s.c.deviate(3); if (d == 1) n = 1; else if (d == 2) n = (n + 1) / 2; }
    out->data.append((const char*)b, n); s.wake(1 - side); s.point(); return n;
  }
  void down() { out->eof = true; s.wake(1 - side); }
  int shutdown(int) override { down(); return 0; }
  int close() override { down(); return 0; }
};
static trax_image* mkimage(int kind, int serial) {
  switch (kind) {
    case 0: return trax_image_create_path(("/dir/a b" + std::to_string(serial)).c_str());
    case 1: return trax_image_create_url(("http://h/q?x=" + std::to_string(serial)).c_str());
    case 2: { trax_image* i = trax_image_create_memory(3, 2, TRAX_IMAGE_MEMORY_RGB); for (int y = 0; y < 2; y++) { char* r = trax_image_write_memory_row(i, y); for (int x = 0; x < 9; x++) r[x] = (char)(serial * 37 + x * 11 + y * 100); } return i; }
  }
  char b[20] = "\x89PNG\r\n\x1a\n"; for (int i = 8; i < 20; i++) b[i] = (char)(serial * 5 + i * 29); return trax_image_create_buffer(20, b);
}
static trax_region* mkregion(int kind, int serial) {
  trax_region* r;
  switch (kind) {
    case 0: return trax_region_create_rectangle(serial, -2, 3.25f, 4);
    case 1: r = trax_region_create_polygon(3); for (int i = 0; i < 3; i++) trax_region_set_polygon_point(r, i, serial + i * i, i * 2.5f - 1); return r;
    case 2: r = trax_region_create_mask(serial, 1, 3, 2); for (int i = 0; i < 2; i++) { char* d = trax_region_write_mask_row(r, i); for (int k = 0; k < 3; k++) d[k] = (serial + i + k) & 1; } return r;
  }
  return trax_region_create_special(serial);
}
struct Event { string what; };
int main(int argc, char** argv) {
  Main m("S04"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  int R = T ? 4 : 3, B = 1;
  m.bounds = {"every session of a real client and a real server of up to " + std::to_string(R) + " (multi-object " + std::to_string(R - 1) + ") rounds: initialisation with 1 or 2 objects, then per round frame, frame with an added object, re-initialisation or termination by the client (waiting for the state first or not), reply or termination by the server; image and region kinds rotate through all kinds",
              "scheduling: both peers run until they block, plus up to " + std::to_string(B) + " deviation(s) (2 in the short sessions): a switch at any transfer, a transfer of one byte or of half", "file and socket streams, versions 1-4, 1-3 channels, unlimited pipes and pipes of 16 and 40 bytes"};
  auto session = [](Ctx& c, const Cfg& f, int R) {
    Sched s(c); auto a = std::make_shared<Chan>(), b = std::make_shared<Chan>(); a->cap = b->cap = f.capacity;   // a: client to server
    vector<string> csent, sgot, ssent, cgot; string cend, send; bool cleft = false, sleft = false; int nimg = 0, nreg = 0, serial = 0; bool mot = f.version >= 4;
    auto ce = std::make_shared<End>(s, b, a, 0, f.socket), se = std::make_shared<End>(s, a, b, 1, f.socket);
    auto client = [&] {
      trax_handle* h; if (f.socket) { int srv = shim::vfd_open(std::make_shared<shim::VFile>()); shim::on_accept = [&](int) { return shim::vfd_open(ce); }; h = trax_client_setup_socket(srv, 10, trax_no_log); }
      else { int fd = shim::vfd_open(ce); h = trax_client_setup_file(fd, fd, trax_no_log); }
      if (!h) c.fail("setup", "client setup failed");
      for (int r = 0;; r++) {
        int k = r == 0 ? 2 : r == R ? 4 : c.choose(f.multi ? 6 : 4); bool init = k == 2 || k == 5;   // 0 frame, 1 terminate(reason), 2 initialize 1, 3 terminate(no reason), 4 add, 5 initialize 2
        if (r == 0 && f.multi && c.flip()) k = 5;
        if (r == R) k = 1;
        if (k == 1 || k == 3) { int g = trax_terminate(h, k == 1 ? "end \"it\"" : nullptr); cleft = true; cend = k == 1 ? "quit end \"it\"" : "quit"; if (g != TRAX_OK && !f.socket) c.fail("code", "client terminate failed"); if (g != TRAX_OK) cend = ""; break; }
        int n = k == 5 ? 2 : k == 0 ? 0 : 1; trax_object_list* o = n ? trax_object_list_create(n) : nullptr; string d = init ? "init " : "frame ";
        trax_image_list* im = trax_image_list_create(); for (int q = 0; q < 3; q++) if (f.channels & (1 << q)) trax_image_list_set(im, mkimage(nimg++ % 4, serial++), 1 << q); d += dimages(im);
        for (int i = 0; i < n; i++) { trax_region* q = mkregion(nreg++ % 3, serial++); trax_object_list_set(o, i, q); trax_region_release(&q); if (mot) { trax_properties_set_int(trax_object_list_properties(o, i), "id", serial++); trax_properties_set(trax_object_list_properties(o, i), "name", "ob ject"); trax_properties_set(trax_object_list_properties(o, i), "trax.x", "y"); } }
        if (mot) d += n ? dobjects(o) : "noobjects"; else d += n ? dregion(trax_object_list_get(o, 0)) : "noobjects";
        trax_properties* p = mkprops({{"frame", std::to_string(serial++)}, {"t", "a\nb"}, {"trax.t", "u"}}); d += dprops(rprops(p));
        int g = init ? trax_client_initialize(h, im, o, p) : trax_client_frame(h, im, o, p); c.step();
        trax_properties_release(&p); if (o) trax_object_list_release(&o); trax_image_list_clear(im); trax_image_list_release(&im);
        if (g == TRAX_OK) csent.push_back(d); else if (!(f.socket && sleft)) c.fail("code", "legal client call refused: " + d);
        if (f.capacity == 0 && c.deviate(2)) { int g = trax_terminate(h, "now"); cleft = true; cend = g == TRAX_OK ? "quit now" : ""; break; }
        Res e = real_client_wait(h); c.step();
        if (e.code == TRAX_STATE) cgot.push_back(e.objects + dprops(e.props)); else if (e.code == TRAX_QUIT) { cgot.push_back("quit" + (e.props.count("trax.reason") ? " " + e.props["trax.reason"] : "")); break; } else c.fail("wait", "client wait failed in a legal session");
      }
      if (trax_is_alive(h)) c.fail("alive", "client still alive"); trax_cleanup(&h);
    };
    auto server = [&] {
      trax_metadata* m = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, f.channels, nullptr, nullptr, nullptr, f.multi ? TRAX_METADATA_MULTI_OBJECT : 0); trax_handle* h; int objs = 0;
      if (f.socket) { setenv("TRAX_SOCKET", "1", 1); shim::on_connect = [&] { return shim::vfd_open(se); }; h = trax_server_setup_v(m, trax_no_log, f.version); unsetenv("TRAX_SOCKET"); } else { int fd = shim::vfd_open(se); h = trax_server_setup_file_v(m, fd, fd, trax_no_log, f.version); }
      trax_metadata_release(&m);
      for (;;) {
        trax_image_list* im = nullptr; trax_object_list* o = nullptr; trax_region* rg = nullptr; trax_properties* p = trax_properties_create();
        int g = mot ? trax_server_wait_mot(h, &im, &o, p) : trax_server_wait_sot(h, &im, &rg, p); Props pr = rprops(p); trax_properties_release(&p); c.step();
        string d = dimages(im) + (mot ? dobjects(o) : rg ? dregion(rg) : "noobjects") + dprops(pr); int n = o ? trax_object_list_count(o) : rg ? 1 : 0;
        if (im) { trax_image_list_clear(im); trax_image_list_release(&im); } if (o) trax_object_list_release(&o); if (rg) trax_region_release(&rg);
        if (g == TRAX_QUIT) { sgot.push_back("quit" + (pr.count("trax.reason") ? " " + pr["trax.reason"] : "")); break; }
        if (g == TRAX_INITIALIZE) { sgot.push_back("init " + d); objs = n; }
        else if (g == TRAX_FRAME) { sgot.push_back("frame " + d); objs += n; }
        else c.fail("wait", "server wait failed in a legal session");
        if (c.deviate(2)) { int g = trax_terminate(h, "tired"); sleft = true; send = "quit tired"; if (g != TRAX_OK && !f.socket) c.fail("code", "server terminate failed"); if (g != TRAX_OK) send = ""; break; }
        // the real count of tracked objects is what the client tracks
        string e; 
        if (mot) { trax_object_list* q = trax_object_list_create(objs); for (int i = 0; i < objs; i++) { trax_region* z = mkregion(nreg++ % 4, serial++); trax_object_list_set(q, i, z); trax_region_release(&z); trax_properties_set_int(trax_object_list_properties(q, i), "conf", serial++); trax_properties_set(trax_object_list_properties(q, i), "trax.x", "y"); } e = dobjects(q) + "{}"; g = trax_server_reply_mot(h, q); trax_object_list_release(&q); }
        else { trax_region* z = mkregion(nreg++ % 4, serial++); trax_properties* q = mkprops({{"conf", std::to_string(serial++)}, {"trax.t", "u"}}); e = "O(" + dregion(z) + dprops(rprops(q)) + ";){}"; g = trax_server_reply_sot(h, z, q); trax_region_release(&z); trax_properties_release(&q); }
        c.step(); if (g == TRAX_OK) ssent.push_back(e); else if (!(f.socket && a->eof)) c.fail("code", "legal reply refused: " + string(trax_get_error(h) ? trax_get_error(h) : ""));
      }
      if (trax_is_alive(h)) c.fail("alive", "server still alive"); trax_cleanup(&h);
    };
    s.run(client, server);
    if (cend != "") csent.push_back(cend); if (send != "") ssent.push_back(send);
    // re-initialisation is delivered as INITIALIZE; every delivered event equals what was sent, in order
    auto cmp = [&](const char* who, const vector<string>& sent, const vector<string>& got, bool otherleft) {
      for (size_t i = 0; i < got.size(); i++) if (i >= sent.size() || sent[i] != got[i]) c.fail("agree", string(who) + " event " + std::to_string(i) + "\n  sent " + (i < sent.size() ? mc::esc(sent[i], 600) : "nothing") + "\n  got  " + mc::esc(got[i], 600));
      if (got.size() < sent.size() && !otherleft) c.fail("agree", string(who) + ": " + std::to_string(sent.size()) + " successful calls, " + std::to_string(got.size()) + " results; lost: " + mc::esc(sent[got.size()], 500));
    };
    cmp("client to server", csent, sgot, sleft); cmp("server to client", ssent, cgot, cleft);
    string all; for (auto& x : sgot) all += x; for (auto& x : cgot) all += x; c.state(fnvs(all)); c.outcome(send != "" ? (cend != "" ? "both-ended" : "server-ended") : "client-ended"); if (s.switches) c.outcome("preempted");
    shim::check_balanced(c);
  };
  for (int i = 0; i < 7; i++) m.add(string("session-") + CF[i].name, B, 2, [i, R, session](Ctx& c) { session(c, CF[i], CF[i].multi ? R - 1 : R); });
  for (int i = 0; i < 5; i++) m.add(string("short-") + CF[i].name, 2, 2, [i, T, session](Ctx& c) { session(c, CF[i], T && !CF[i].multi ? 2 : 1); });
  return m.run();
}
