// S02: the client side follows the protocol automaton in every history.
#include "ref.hpp"
using namespace mc; using namespace ref;
static Dict dict;
struct Cfg { int version; bool multi; int channels; const char* regions; };
static const Cfg CF[] = {{4, true, 1, "rectangle;"}, {4, false, 1, "rectangle;polygon;"}, {3, false, 3, "rectangle;"}, {4, true, 7, "polygon;mask;rectangle;"}, {2, false, 1, "rectangle;"}, {1, false, 4, "rectangle;mask;"}};
static string num4(int v) { return std::to_string(v) + ".0000"; }
static string rtext(int s) { return num4(s) + ",2.0000,3.0000,4.0000"; }
// messages a server may send; the first two make up the legal conversations
static Msg server_msg(int k, int serial) {
  Msg m; m.type = TRAX_STATE;
  switch (k) {
    case 0: m.args = {serial & 1 ? "5,6,7,8,9,1" : "1,2,3,4"}; m.props["s"] = std::to_string(serial); m.props["trax.x"] = "y" + std::to_string(serial); break;
    case 1: m.type = TRAX_QUIT; m.props["trax.reason"] = "r" + std::to_string(serial); break;
    case 2: m.args = {"1,2,3"}; break;
    case 3: break;
    case 4: m.args = {"1,2,3,4", "1,2,3,4"}; break;
    case 5: m.type = TRAX_QUIT; m.args = {"now"}; break;
    case 6: m.type = TRAX_FRAME; m.args = {"file:///x"}; break;
    case 7: m.type = TRAX_INITIALIZE; m.args = {"1,2,3,4"}; break;
    case 8: m.type = TRAX_HELLO; m.props["trax.version"] = "4"; break;
  }
  return m;
}
static const int NSRV = 9;
static trax_image_list* images(int channels, int serial, int missing) {
  trax_image_list* l = trax_image_list_create();
  for (int c = 0; c < 3; c++) if ((channels & (1 << c)) && c != missing) { trax_image* i = trax_image_create_path(("/i" + std::to_string(serial) + "." + std::to_string(c)).c_str()); trax_image_list_set(l, i, 1 << c); }
  return l;
}
static void imgargs(Msg& m, int channels, int serial) { for (int c = 0; c < 3; c++) if (channels & (1 << c)) m.args.push_back("file:///i" + std::to_string(serial) + "." + std::to_string(c)); }
static int lastch(int channels) { return channels & 4 ? 2 : channels & 2 ? 1 : 0; }
struct Sess {
  Ctx& c; Cfg f; Peer p; Client s; vector<Msg> in; size_t pos = 0, sent = 0; int serial = 0; uint64_t hist = 3;
  Sess(Ctx& c, Cfg f) : c(c), f(f) {
    p.in->data = hello(f.version, f.multi, f.channels, f.regions); p.client(); if (f.version < 2) this->f.channels = 1;   // channels exist from version 2
    if (!p.h) c.fail("setup", "client refused a legal hello");
    s.version = f.version; s.multi = f.multi; s.channels = this->f.channels; s.d = &dict;
  }
  ~Sess() { if (p.h) trax_cleanup(&p.h); }
  void after(const string& what, int code, int got, const vector<Msg>& exp) {
    c.step();
    if (code != got) c.fail("code", what + " returned " + std::to_string(got) + ", expected " + std::to_string(code));
    string out = p.out->data.substr(sent); sent = p.out->data.size(); vector<Msg> ms = parse_stream(out);
    if (dmsgs(ms) != dmsgs(exp) || (!out.empty() && out.back() != '\n')) c.fail("traffic", what + " wrote " + mc::esc(out, 500) + "\n  expected " + mc::esc(dmsgs(exp), 500));
    if (!!trax_is_alive(p.h) != s.alive) c.fail("alive", what + ": wrong liveness");
    if (code == TRAX_ERROR && what != "wait" && !trax_get_error(p.h)) c.fail("text", what + " failed without an error text");
    hist = fnvs(what + std::to_string(got) + std::to_string(s.objects) + (s.alive ? "a" : "d"), hist); c.state(hist); c.trace("%s -> %d", what.c_str(), got);
  }
  // n objects; with init: initialize, else frame (n<0: no list). texts: the expected wire forms
  void call(bool init, int n, bool noimage) {
    trax_object_list* o = n < 0 ? nullptr : trax_object_list_create(n); vector<Msg> exp; int code = TRAX_OK; int k0 = serial; bool v4 = f.version >= 4;
    for (int i = 0; i < n; i++) {
      trax_region* r = trax_region_create_rectangle(serial, 2, 3, 4); trax_object_list_set(o, i, r); trax_region_release(&r);
      if (v4) { trax_properties_set_int(trax_object_list_properties(o, i), "o", serial); trax_properties_set(trax_object_list_properties(o, i), "trax.o", std::to_string(serial).c_str()); }
      serial++;
    }
    if (n < 0) n = 0;
    int now = init ? n : s.objects + n; bool ok = s.alive && !noimage && now >= 1 && (now == 1 || f.multi) && (v4 || init || n == 0) && (!init || n >= 1);
    trax_image_list* im = images(f.channels, serial, noimage ? lastch(f.channels) : -1);
    if (ok) {
      Msg m;
      if (v4) {
        if (init && s.objects) { m.type = TRAX_INITIALIZE; exp.push_back(m); }
        for (int i = 0; i < n; i++) { m = Msg(); m.type = TRAX_INITIALIZE; m.args = {rtext(k0 + i)}; m.props["o"] = m.props["trax.o"] = std::to_string(k0 + i); exp.push_back(m); }
        m = Msg(); m.type = TRAX_FRAME; imgargs(m, f.channels, serial);
      } else { m.type = init ? TRAX_INITIALIZE : TRAX_FRAME; imgargs(m, f.channels, serial); if (init) m.args.push_back(rtext(k0)); }
      m.props["m"] = std::to_string(serial); exp.push_back(m); s.objects = now;
    } else code = TRAX_ERROR;
    trax_properties* pr = mkprops({{"m", std::to_string(serial)}}); serial++;
    int got = init ? trax_client_initialize(p.h, im, o, pr) : trax_client_frame(p.h, im, o, pr);
    trax_properties_release(&pr); if (o) trax_object_list_release(&o); trax_image_list_clear(im); trax_image_list_release(&im);
    c.outcome(string(init ? "initialize" : "frame") + (code == TRAX_OK ? "" : "-refused"));
    after((init ? "initialize(" : "frame(") + std::to_string(n) + (noimage ? ",missing image)" : ")"), code, got, exp);
  }
  // asks the explorer for further server messages while the reference would block
  void wait(int alphabet, int& ev, int D) {
    Res e;
    for (;;) {
      Client t = s; size_t q = pos; e = t.wait(in, q, p.in->eof);
      if (!e.block) { s = t; pos = q; break; }
      if (ev >= D) { p.in->eof = true; continue; }
      int j = c.choose(alphabet); ev++; Msg g = server_msg(j, serial++); in.push_back(g); p.in->data += encode(g);
    }
    Res r = real_client_wait(p.h);
    if (dres(e) != dres(r)) c.fail("wait", "wait\n  conversation\n" + dmsgs(in) + "  expected " + mc::esc(dres(e), 500) + "\n  got      " + mc::esc(dres(r), 500));
    c.outcome(r.code == TRAX_ERROR ? "wait-error" : r.code == TRAX_STATE ? "state" : "quit");
    after("wait", e.code, r.code, {});
  }
  void terminate() {
    vector<Msg> exp; if (s.alive) { Msg g; g.type = TRAX_QUIT; g.props["trax.reason"] = "why"; exp.push_back(g); } s.alive = false;
    int got = trax_terminate(p.h, "why"); c.outcome("terminate"); after("terminate", TRAX_OK, got, exp);
  }
};
int main(int argc, char** argv) {
  dict.reg["1,2,3,4"] = {TRAX_REGION_RECTANGLE, "rect:1,2,3,4"}; dict.reg["5,6,7,8,9,1"] = {TRAX_REGION_POLYGON, "poly:5,6;7,8;9,1;"};
  Main m("S02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); null_props = false; };
  bool T = m.thorough; int D = T ? 6 : 5, L = T ? 8 : 6;
  m.bounds = {"every history of " + std::to_string(D) + " events: client calls (initialize with 0..2 objects, frame with no list and 0..2 objects, frame and initialize with an image missing, wait, terminate) and, whenever a wait needs one, server messages from an alphabet of 9 legal and illegal ones",
              "every history of " + std::to_string(L) + " (multi-object) or " + std::to_string(L + 3) + " (single-object) events over legal calls and messages", "6 configurations: versions 1-4, single and multi object, 1-3 channels",
              "regions: every subset of accepted formats x every kind of given region x initialize, frame and re-initialisation x versions"};
  for (int i = 0; i < 6; i++) {
    string n = "v" + std::to_string(CF[i].version) + (CF[i].multi ? "m" : "") + "c" + std::to_string(CF[i].channels);
    m.add("history-" + n, 0, 3, [i, D](Ctx& c) {
      Sess s(c, CF[i]); int d = D - (i > 2);
      for (int ev = 0; ev < d;) {
        int k = c.choose(11); ev++;
        switch (k) {
          case 0: s.call(true, 1, false); break; case 1: s.call(true, 2, false); break; case 2: s.call(true, 0, false); break;
          case 3: s.call(false, -1, false); break; case 4: s.call(false, 0, false); break; case 5: s.call(false, 1, false); break; case 6: s.call(false, 2, false); break;
          case 7: s.call(true, 1, true); break; case 8: s.call(false, -1, true); break;
          case 9: s.wait(NSRV, ev, d); break; case 10: s.terminate(); break;
        }
      }
    });
    for (int np = 0; np < 2; np++) m.add((np ? "noprops-" : "legal-") + n, 0, np ? 2 : 4, [i, L0 = L, np](Ctx& c) {
      const Cfg& f = CF[i]; null_props = np; Sess s(c, f); int L = np ? L0 - 2 : L0;
      s.call(true, f.multi ? 1 + c.choose(2) : 1, false);
      int l = f.multi ? L : L + 3; for (int ev = 0; ev < l;) {
        int k = c.choose(f.multi ? 5 : 3); ev++;
        if (k == 0) s.wait(2, ev, l); else if (k == 1) s.call(false, -1, false); else if (k == 2) s.call(true, 1, false); else if (k == 3) s.call(false, 1, false); else s.call(true, 2, false);
      }
    });
  }
  m.add("regions", 0, 3, [](Ctx& c) {
    int version = (const int[]){4, 3, 1}[c.choose(3)], fm = 1 + c.choose(7), kind = c.choose(7), how = c.choose(version >= 4 ? 3 : 2);
    string fs; static const struct { int t; const char* n; } F[] = {{TRAX_REGION_MASK, "mask"}, {TRAX_REGION_POLYGON, "polygon"}, {TRAX_REGION_RECTANGLE, "rectangle"}};
    int formats = 0; for (int i = 0; i < 3; i++) if (fm & (1 << i)) { fs += string(F[i].n) + ";"; formats |= F[i].t; }
    Peer p; p.in->data = hello(version, true, 1, fs); p.client(); if (!p.h) c.fail("setup", "client refused a legal hello");
    trax_region* r = nullptr;
    switch (kind) {
      case 0: r = trax_region_create_rectangle(1, 2, 3, 4); break;
      case 1: r = trax_region_create_rectangle(-5.25f, -7, 2.5f, 1); break;
      case 2: r = trax_region_create_polygon(3); trax_region_set_polygon_point(r, 0, 0, 0); trax_region_set_polygon_point(r, 1, 5, 1); trax_region_set_polygon_point(r, 2, 2, 6); break;
      case 3: r = trax_region_create_polygon(4); trax_region_set_polygon_point(r, 0, -3, -3); trax_region_set_polygon_point(r, 1, 3, -3.5f); trax_region_set_polygon_point(r, 2, 4, 4); trax_region_set_polygon_point(r, 3, -2, 3); break;
      case 4: r = trax_region_create_mask(2, 3, 3, 2); for (int i = 0; i < 2; i++) { char* d = trax_region_write_mask_row(r, i); d[0] = 0; d[1] = 1; d[2] = i; } break;
      case 5: r = trax_region_create_mask(-4, 0, 2, 2); for (int i = 0; i < 2; i++) { char* d = trax_region_write_mask_row(r, i); d[0] = 1; d[1] = 0; } break;
      case 6: r = trax_region_create_special(3); break;
    }
    int t = trax_region_get_type(r); string expect;
    if (kind != 6) {
      int to = formats & t ? t : formats & TRAX_REGION_MASK ? TRAX_REGION_MASK : formats & TRAX_REGION_POLYGON ? TRAX_REGION_POLYGON : TRAX_REGION_RECTANGLE;
      trax_region* q = to == t ? trax_region_clone(r) : trax_region_convert(r, to); char* e = trax_region_encode(q); expect = e; shim::raw_free(e); trax_region_release(&q);
    }
    trax_object_list* o = trax_object_list_create(1); trax_object_list_set(o, 0, r); trax_image_list* im = images(1, 1, -1);
    size_t at = p.out->data.size();
    if (how) { trax_object_list* o2 = trax_object_list_create(1); trax_region* q = trax_region_create_rectangle(9, 9, 9, 9); trax_object_list_set(o2, 0, q); trax_region_release(&q); if (trax_client_initialize(p.h, im, o2, nullptr) != TRAX_OK) c.fail("code", "initialize failed"); trax_object_list_release(&o2); }
    at = p.out->data.size();
    int got = how == 2 ? trax_client_frame(p.h, im, o, nullptr) : trax_client_initialize(p.h, im, o, nullptr);
    vector<Msg> ms = parse_stream(p.out->data.substr(at)), exp; c.step();
    if (kind != 6) {
      Msg g; g.type = TRAX_INITIALIZE;
      if (version >= 4) { if (how == 1) exp.push_back(g); g.args = {expect}; exp.push_back(g); g = Msg(); g.type = TRAX_FRAME; imgargs(g, 1, 1); exp.push_back(g); }
      else { imgargs(g, 1, 1); g.args.push_back(expect); exp.push_back(g); }
    }
    if (got != (kind == 6 ? TRAX_ERROR : TRAX_OK)) c.fail("code", "region kind " + std::to_string(kind) + " for formats " + fs + " returned " + std::to_string(got));
    if (dmsgs(ms) != dmsgs(exp)) c.fail("traffic", "region kind " + std::to_string(kind) + " for formats " + fs + " wrote " + mc::esc(dmsgs(ms)) + " expected " + mc::esc(dmsgs(exp)));
    c.state(fnvs(expect + fs)); c.outcome(kind == 6 ? "special-refused" : "region-sent");
    trax_region_release(&r); trax_object_list_release(&o); trax_image_list_clear(im); trax_image_list_release(&im); trax_cleanup(&p.h);
  });
  return m.run();
}
