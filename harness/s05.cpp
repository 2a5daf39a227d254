// S05: termination is announced once and is final; resources are balanced. Two real handles, every
// interleaving of their calls; calls that would block are not enabled (the reference decides).
#include "ref.hpp"
using namespace mc; using namespace ref;
static Dict dict;
struct Cfg { int version; bool multi; bool socket; const char* name; };
static const Cfg CF[] = {{4, true, false, "v4m-file"}, {4, false, true, "v4-socket"}, {3, false, false, "v3-file"}, {1, false, true, "v1-socket"}};
static const char* REASON[] = {nullptr, "why \"q\"\n=x", ""};
static int opened, closed;
struct Sock : shim::VFile {
  std::shared_ptr<Pipe> in, out; shim::Reader r; shim::Writer w; bool shut = false;
  Sock(std::shared_ptr<Pipe> i, std::shared_ptr<Pipe> o) : in(i), out(o), r(i), w(o) { opened++; }
  ssize_t read(void* b, size_t n) override { if (shut) return 0; return r.read(b, n); }
  ssize_t write(const void* b, size_t n) override { if (shut || in->eof) { errno = EPIPE; return -1; } return w.write(b, n); }   // the peer has shut down
  int shutdown(int) override { shut = true; out->eof = true; return 0; }
  int close() override { closed++; shut = true; out->eof = true; return 0; }
};
struct World {
  Ctx& c; const Cfg& f; std::shared_ptr<Pipe> cs = std::make_shared<Pipe>(), sc = std::make_shared<Pipe>();
  trax_handle *S = nullptr, *C = nullptr; Server s; Client cl; size_t spos = 0, cpos = 0, cs0 = 0, sc0 = 0; int serial = 0; uint64_t hist = 5; int quits[2] = {0, 0}; bool cclean = false, sclean = false; int srvfd = -1;
  World(Ctx& c, const Cfg& f) : c(c), f(f) {
    trax_metadata* m = trax_metadata_create(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, 1, "n", nullptr, "f", f.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    if (f.socket) {
      auto a = std::make_shared<Sock>(cs, sc), b = std::make_shared<Sock>(sc, cs); srvfd = shim::vfd_open(std::make_shared<shim::VFile>());
      setenv("TRAX_SOCKET", "9000", 1); shim::on_connect = [a] { return shim::vfd_open(a); }; S = trax_server_setup_v(m, trax_no_log, f.version); unsetenv("TRAX_SOCKET");
      shim::on_accept = [b](int) { return shim::vfd_open(b); }; C = trax_client_setup_socket(srvfd, 10, trax_no_log);
    } else {
      S = trax_server_setup_file_v(m, shim::vfd_open(std::make_shared<Reader>(cs)), shim::vfd_open(std::make_shared<Writer>(sc)), trax_no_log, f.version);
      C = trax_client_setup_file(shim::vfd_open(std::make_shared<Reader>(sc)), shim::vfd_open(std::make_shared<Writer>(cs)), trax_no_log);
    }
    trax_metadata_release(&m); if (!S || !C) c.fail("setup", "setup failed");
    s.version = cl.version = f.version; s.multi = cl.multi = f.multi; s.d = cl.d = &dict; s.image_formats = TRAX_IMAGE_PATH; sc0 = sc->data.size(); cpos = 1;
  }
  bool cdown() { return f.socket && sclean; }   // writes of the client fail
  bool sdown() { return f.socket && cclean; }
  void traffic(const string& what, const vector<Msg>& toserver, const vector<Msg>& toclient) {
    string a = cs->data.substr(cs0), b = sc->data.substr(sc0); cs0 = cs->data.size(); sc0 = sc->data.size();
    if (dmsgs(parse_stream(a)) != dmsgs(toserver)) c.fail("traffic", what + ": client wrote " + mc::esc(a, 300) + " expected " + mc::esc(dmsgs(toserver), 300));
    if (dmsgs(parse_stream(b)) != dmsgs(toclient)) c.fail("traffic", what + ": server wrote " + mc::esc(b, 300) + " expected " + mc::esc(dmsgs(toclient), 300));
    for (auto& m : toserver) if (m.type == TRAX_QUIT) quits[0]++; for (auto& m : toclient) if (m.type == TRAX_QUIT) quits[1]++;
    if (quits[0] > 1 || quits[1] > 1) c.fail("harness", "reference wrote quit twice");
  }
  void code(const string& what, int e, int g) { c.step(); c.trace("%s -> %d", what.c_str(), g); if (e != g) c.fail("code", what + " returned " + std::to_string(g) + ", expected " + std::to_string(e)); hist = fnvs(what + std::to_string(g), hist); }
  void client(bool init) {
    if (!C) throw Prune();
    trax_object_list* o = nullptr; vector<Msg> x; int n = init ? 1 : 0; serial++;
    trax_image_list* im = trax_image_list_create(); trax_image_list_set(im, trax_image_create_path(("/p" + std::to_string(serial)).c_str()), 1);
    if (init) { o = trax_object_list_create(1); trax_region* r = trax_region_create_rectangle(serial, 2, 3, 4); trax_object_list_set(o, 0, r); trax_region_release(&r); }
    bool ok = cl.alive && (init || cl.objects); Msg g; string path = "file:///p" + std::to_string(serial), rt = std::to_string(serial) + ".0000,2.0000,3.0000,4.0000";
    if (ok && !cdown()) {
      if (f.version >= 4) { if (init) { g.type = TRAX_INITIALIZE; if (cl.objects) x.push_back(g); g.args = {rt}; x.push_back(g); } g.type = TRAX_FRAME; g.args = {path}; x.push_back(g); }
      else { g.type = init ? TRAX_INITIALIZE : TRAX_FRAME; g.args = {path}; if (init) g.args.push_back(rt); x.push_back(g); }
      if (init) { cl.objects = 1; dict.reg[rt] = {TRAX_REGION_RECTANGLE, "rect:" + std::to_string(serial) + ",2,3,4"}; }
    }
    int got = init ? trax_client_initialize(C, im, o, nullptr) : trax_client_frame(C, im, nullptr, nullptr); (void)n;
    if (o) trax_object_list_release(&o); trax_image_list_clear(im); trax_image_list_release(&im);
    string w = init ? "client.initialize" : "client.frame"; code(w, ok && !cdown() ? TRAX_OK : TRAX_ERROR, got); traffic(w, x, {}); c.outcome(w + (got == TRAX_OK ? "" : "-refused"));
  }
  void cwait() {
    if (!C) throw Prune();
    vector<Msg> in = parse_stream(sc->data); Client t = cl; size_t q = cpos; Res e = t.wait(in, q, sc->eof); if (e.block) throw Prune();
    cl = t; cpos = q; Res r = real_client_wait(C); if (dres(e) != dres(r)) c.fail("wait", "client.wait\n  expected " + mc::esc(dres(e), 300) + "\n  got      " + mc::esc(dres(r), 300));
    code("client.wait", e.code, r.code); traffic("client.wait", {}, {}); c.outcome(e.code == TRAX_QUIT ? "client-sees-quit" : e.code == TRAX_ERROR ? "client-wait-error" : "client-wait"); hist = fnvs(dres(r), hist);
  }
  void swait() {
    if (!S) throw Prune();
    vector<Msg> in = parse_stream(cs->data); Server t = s; size_t q = spos; Res e = f.version >= 4 ? t.wait_mot(in, q, cs->eof) : t.wait_sot(in, q, cs->eof); if (e.block) throw Prune();
    s = t; spos = q; Res r = f.version >= 4 ? real_wait_mot(S) : real_wait_sot(S); if (dres(e) != dres(r)) c.fail("wait", "server.wait\n  expected " + mc::esc(dres(e), 300) + "\n  got      " + mc::esc(dres(r), 300));
    code("server.wait", e.code, r.code); traffic("server.wait", {}, {}); c.outcome(e.code == TRAX_QUIT ? "server-sees-quit" : e.code == TRAX_ERROR ? "server-wait-error" : "server-wait"); hist = fnvs(dres(r), hist);
  }
  void reply() {
    if (!S) throw Prune();
    serial++; trax_region* r = trax_region_create_rectangle(serial, 1, 1, 1); string rt = std::to_string(serial) + ".0000,1.0000,1.0000,1.0000"; vector<Msg> x; int got; bool ok = s.alive && (f.version < 4 || s.objects == 1);
    if (ok && !sdown()) { Msg g; g.type = TRAX_STATE; g.args = {rt}; x.push_back(g); dict.reg[rt] = {TRAX_REGION_RECTANGLE, "rect:" + std::to_string(serial) + ",1,1,1"}; }
    if (f.version < 4) got = trax_server_reply_sot(S, r, nullptr);
    else { trax_object_list* o = trax_object_list_create(1); trax_object_list_set(o, 0, r); got = trax_server_reply_mot(S, o); trax_object_list_release(&o); }
    trax_region_release(&r); code("server.reply", ok && !sdown() ? TRAX_OK : TRAX_ERROR, got); traffic("server.reply", {}, x); c.outcome(got == TRAX_OK ? "reply" : "reply-refused");
  }
  void terminate(bool client, int rs) {
    trax_handle* h = client ? C : S; if (!h) throw Prune();
    bool& alive = client ? cl.alive : s.alive; bool down = client ? cdown() : sdown(); vector<Msg> x; int e = TRAX_OK;
    if (alive) { if (down) e = TRAX_ERROR; else { Msg g; g.type = TRAX_QUIT; if (REASON[rs]) g.props["trax.reason"] = REASON[rs]; x.push_back(g); } } alive = false;
    string w = string(client ? "client" : "server") + ".terminate" + std::to_string(rs); int got = trax_terminate(h, REASON[rs]); code(w, e, got); traffic(w, client ? x : vector<Msg>(), client ? vector<Msg>() : x); c.outcome(w);
  }
  void cleanup(bool client) {
    trax_handle*& h = client ? C : S; bool& alive = client ? cl.alive : s.alive; bool down = client ? cdown() : sdown(); vector<Msg> x; string w = string(client ? "client" : "server") + ".cleanup";
    if (!h) { int g = trax_cleanup(&h); if (g != -1 || h) c.fail("code", "repeated cleanup returned " + std::to_string(g)); traffic(w, {}, {}); c.outcome("cleanup-again"); return; }
    if (alive && !down) { Msg g; g.type = TRAX_QUIT; x.push_back(g); } alive = false; (client ? cclean : sclean) = true;
    int got = trax_cleanup(&h); code(w, 0, got); if (h) c.fail("code", "cleanup left the handle set"); traffic(w, client ? x : vector<Msg>(), client ? vector<Msg>() : x); c.outcome(w);
  }
  void verify() {
    for (int i = 0; i < 2; i++) if (trax_handle* h = i ? C : S) {
      bool alive = i ? cl.alive : s.alive; int v = -7; if (!!trax_is_alive(h) != alive) c.fail("alive", string(i ? "client" : "server") + " reports the wrong liveness");
      int g = trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v); if (alive ? g != 1 || v != f.version : g != TRAX_ERROR) c.fail("parameter", "trax_get_parameter returned " + std::to_string(g));
      if (!alive && trax_set_parameter(h, 1, 1) != TRAX_ERROR) c.fail("parameter", "trax_set_parameter on a terminated handle");
    }
    c.state(hist);
  }
  void finish() {
    cleanup(true); verify(); cleanup(false); cleanup(true); cleanup(false); shim::check_balanced(c);
    if (f.socket) { if (opened != closed) c.fail("descriptors", std::to_string(opened) + " connections opened, " + std::to_string(closed) + " closed"); opened = closed = 0; }
  }
  void act(int k) {
    switch (k) {
      case 0: client(true); break; case 1: client(false); break; case 2: cwait(); break; case 3: swait(); break; case 4: reply(); break;
      case 5: terminate(true, 1); break; case 6: terminate(false, 1); break; case 7: cleanup(true); break; case 8: cleanup(false); break;
      case 9: terminate(true, 0); break; case 10: terminate(false, 2); break;
    }
    verify();
  }
};
int main(int argc, char** argv) {
  Main m("S05"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); dict = Dict(); opened = closed = 0; null_props = false; };
  bool T = m.thorough; int D = T ? 6 : 5, L = T ? 5 : 4;
  m.bounds = {"every interleaving of " + std::to_string(D) + " calls of a real client and a real server (initialize, frame, client wait, server wait, reply, terminate with and without reason on either side, cleanup on either side; waits that would block are not enabled), then cleanup of both in both orders, repeated",
              "the same for " + std::to_string(L) + " calls after 0..3 complete rounds", "waits with and without asking for the message properties", "versions 1, 3, 4, single and multi object, file and socket streams"};
  for (int i = 0; i < 4; i++) {
    m.add(string("any-") + CF[i].name, 0, 3, [i, D](Ctx& c) { opened = closed = 0; World w(c, CF[i]); for (int k = 0; k < D; k++) w.act(c.choose(11)); w.finish(); });
    m.add(string("noprops-") + CF[i].name, 0, 3, [i, D](Ctx& c) { opened = closed = 0; null_props = true; World w(c, CF[i]); for (int k = 0; k < D - 1; k++) w.act(c.choose(11)); w.finish(); });
    m.add(string("rounds-") + CF[i].name, 0, 3, [i, L](Ctx& c) {
      opened = closed = 0; null_props = c.choose(2); World w(c, CF[i]); int r = c.choose(4); for (int k = 0; k < r; k++) { w.act(k == 1 ? 1 : 0); w.act(3); w.act(4); w.act(2); }
      for (int k = 0; k < L; k++) w.act(c.choose(11)); w.finish();
    });
  }
  return m.run();
}
