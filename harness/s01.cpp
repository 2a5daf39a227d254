// S01: the server side follows the protocol automaton in every history.
#include "ref.hpp"
using namespace mc; using namespace ref;
static Dict dict;
struct Cfg { int version; bool multi; int channels; int formats; };
static const Cfg CF[] = {{4, true, 1, TRAX_IMAGE_ANY}, {3, false, 1, TRAX_IMAGE_ANY}, {4, false, 3, TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY}, {2, false, 6, TRAX_IMAGE_URL}, {1, false, 1, TRAX_IMAGE_PATH}, {4, true, 7, TRAX_IMAGE_BUFFER | TRAX_IMAGE_PATH}};
static const char* REG[] = {"1,2,3,4", "5,6,7,8,9,1"};
// the messages a peer may send, for the given configuration
static Msg peer(const Cfg& f, int k, int serial) {
  Msg m; int n = nchannels(f.channels); string good = f.formats & TRAX_IMAGE_PATH ? "file:///i" + std::to_string(serial) : "http://h/" + std::to_string(serial), bad = f.formats & TRAX_IMAGE_URL ? "file:///x" : "http://x";
  auto imgs = [&](int c) { for (int i = 0; i < c; i++) m.args.push_back(good + "." + std::to_string(i)); };
  bool mot = f.version >= 4;
  switch (k) {
    case 0: m.type = TRAX_FRAME; imgs(n); m.props["f"] = std::to_string(serial); break;
    case 1: m.type = TRAX_INITIALIZE; if (!mot) imgs(n); m.args.push_back(REG[serial & 1]); m.props["i"] = std::to_string(serial); m.props["trax.x"] = "y" + std::to_string(serial); break;
    case 2: m.type = TRAX_INITIALIZE; break;
    case 3: m.type = TRAX_QUIT; m.props["trax.reason"] = "r" + std::to_string(serial); break;
    case 4: m.type = TRAX_INITIALIZE; if (mot) imgs(n); m.args.push_back(REG[0]); break;          // form of the other mode
    case 5: m.type = TRAX_FRAME; imgs(n + 1); break;
    case 6: m.type = TRAX_FRAME; imgs(n); if (f.formats != TRAX_IMAGE_ANY) m.args[n - 1] = bad; else m.args.pop_back(); break;
    case 7: m.type = TRAX_INITIALIZE; if (!mot) imgs(n); m.args.push_back("1,2,3"); break;          // no region
    case 8: m.type = TRAX_QUIT; m.args.push_back("now"); break;
    case 9: m.type = TRAX_STATE; m.args.push_back(REG[0]); break;
    case 10: m.type = TRAX_HELLO; m.props["trax.version"] = "4"; break;
    case 11: m.type = TRAX_FRAME; break;
  }
  return m;
}
static const int NPEER = 12;   // the first four make up the legal conversations
int main(int argc, char** argv) {
  dict.reg["1,2,3,4"] = {TRAX_REGION_RECTANGLE, "rect:1,2,3,4"}; dict.reg["5,6,7,8,9,1"] = {TRAX_REGION_POLYGON, "poly:5,6;7,8;9,1;"};
  Main m("S01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); null_props = false; };
  bool T = m.thorough; int D = T ? 7 : 6, L = T ? 13 : 10;
  m.bounds = {"every history of " + std::to_string(D) + " events (peer messages from an alphabet of 12 legal and illegal ones, generated whenever a wait needs one, and server calls: wait, wait in the other mode, single reply, replies for 0..3 objects, terminate)",
              "every history of " + std::to_string(L) + " events over the legal messages (initialize, addition, reset, frame, quit), wait and replies for 1 or 2 objects",
              "6 configurations: protocol versions 1-4, single and multi object, channel sets 1, 2 and 3 wide, restricted image kinds",
              "frame-count scenario: additions of 0..12 (23) objects in up to 4 (5) rounds with resets, complete replies in between"};
  auto history = [](Ctx& c, const Cfg& f, int D, bool narrow) {
    Peer p; p.server(f.version, f.multi, f.channels, TRAX_REGION_ANY, f.formats);
    Server s; s.version = f.version; s.multi = f.multi; s.channels = f.channels; s.image_formats = f.formats; s.d = &dict;
    vector<Msg> in; size_t pos = 0, sent = p.out->data.size(); int ev = 0, serial = 0; uint64_t hist = 7;
    trax_region* rg = trax_region_create_rectangle(9, 8, 7, 6);
    while (ev < D) {
      bool legacy = f.version < 4; int k = narrow ? (const int[]){0, legacy ? 1 : 4, legacy ? 1 : 5}[c.choose(legacy ? 2 : f.multi ? 3 : 2)] : c.choose(legacy ? 5 : 8); ev++;
      vector<Msg> exp; int code = TRAX_OK, got = TRAX_OK; string what; bool refused = false;
      if (k == 0 || (k == 1 && !legacy)) {
        bool other = k == 1; Res e, r;
        if (other) { what = "wait_sot"; r = real_wait_sot(p.h); refused = true; }
        else {
          what = "wait";
          for (;;) {
            Server t = s; size_t q = pos; e = legacy ? t.wait_sot(in, q, p.in->eof) : t.wait_mot(in, q, p.in->eof);
            if (!e.block) { s = t; pos = q; break; }
            if (ev >= D) { p.in->eof = true; continue; }
            int j = c.choose(narrow ? 4 : NPEER); ev++; Msg g = peer(f, j, serial++); in.push_back(g); p.in->data += encode(g);
          }
          r = legacy ? real_wait_sot(p.h) : real_wait_mot(p.h);
        }
        if (dres(e) != dres(r)) c.fail("wait", what + "\n  conversation\n" + dmsgs(in) + "  expected " + mc::esc(dres(e), 400) + "\n  got      " + mc::esc(dres(r), 400));
        c.outcome(r.code == TRAX_ERROR ? "wait-error" : r.code == TRAX_INITIALIZE ? "initialize" : r.code == TRAX_FRAME ? "frame" : "quit");
        got = r.code; code = e.code; hist = fnvs(dres(r), hist);
      } else if (legacy ? k == 1 : k == 2) {
        what = "reply_sot"; trax_properties* pr = mkprops({{"a", "b"}}); got = trax_server_reply_sot(p.h, rg, pr); trax_properties_release(&pr);
        if (s.alive && legacy) { Msg g; g.type = TRAX_STATE; g.args = {"9.0000,8.0000,7.0000,6.0000"}; g.props["a"] = "b"; exp.push_back(g); } else { code = TRAX_ERROR; refused = true; }
        c.outcome(code == TRAX_OK ? "reply" : "reply-refused");
      } else if (legacy ? k == 4 : k == 7) {
        what = "terminate"; got = trax_terminate(p.h, "why");
        if (s.alive) { Msg g; g.type = TRAX_QUIT; g.props["trax.reason"] = "why"; exp.push_back(g); } s.alive = false; c.outcome("terminate");
      } else {
        int n = legacy ? (k == 2 ? 0 : 2) : k - 3; what = "reply_mot(" + std::to_string(n) + ")";
        trax_object_list* o = trax_object_list_create(n); Msg g; g.type = TRAX_STATE;
        for (int i = 0; i < n; i++) { trax_region* q = trax_region_create_rectangle(i, 1, 2, 3); trax_object_list_set(o, i, q); trax_region_release(&q); trax_properties_set_int(trax_object_list_properties(o, i), "n", i); }
        got = trax_server_reply_mot(p.h, o); trax_object_list_release(&o);
        if (s.alive && n == s.objects && (f.multi || n == 1)) for (int i = 0; i < n; i++) { g.args = {std::to_string(i) + ".0000,1.0000,2.0000,3.0000"}; g.props = {{"n", std::to_string(i)}}; exp.push_back(g); } else { code = TRAX_ERROR; refused = true; }
        c.outcome(code == TRAX_OK ? "reply" : "reply-refused");
      }
      c.step();
      if (code != got) c.fail("code", what + " returned " + std::to_string(got) + ", expected " + std::to_string(code) + " after\n" + dmsgs(in));
      string out = p.out->data.substr(sent); sent = p.out->data.size();
      vector<Msg> ms = parse_stream(out); string ex = dmsgs(exp);
      if (dmsgs(ms) != ex || (!out.empty() && out.back() != '\n')) c.fail("traffic", what + " wrote " + mc::esc(out, 400) + "\n  expected " + mc::esc(ex, 400));
      if (refused && !trax_get_error(p.h)) c.fail("text", what + " was refused without an error text");
      if (!!trax_is_alive(p.h) != s.alive) c.fail("alive", what + ": wrong liveness");
      hist = fnvs(what + std::to_string(got) + std::to_string(s.objects) + (s.alive ? "a" : "d"), hist); c.state(hist);
      c.trace("%s -> %d", what.c_str(), got);
    }
    trax_region_release(&rg); trax_cleanup(&p.h);
  };
  for (int i = 0; i < 6; i++) m.add("history-v" + std::to_string(CF[i].version) + (CF[i].multi ? "m" : "") + "c" + std::to_string(CF[i].channels), 0, 3, [i, history, D](Ctx& c) { history(c, CF[i], i < 2 ? D : D - 1, false); });
  for (int i = 0; i < 4; i++) m.add("legal-v" + std::to_string(CF[i].version) + (CF[i].multi ? "m" : "") + "c" + std::to_string(CF[i].channels), 0, 4, [i, history, L](Ctx& c) { history(c, CF[i], L, true); });
  for (int i = 0; i < 6; i++) m.add("noprops-v" + std::to_string(CF[i].version) + (CF[i].multi ? "m" : "") + "c" + std::to_string(CF[i].channels), 0, 2, [i, history, D](Ctx& c) { null_props = true; history(c, CF[i], D - 2, false); });
  // legal multi-object sessions with growing object sets
  m.add("growth", 0, 3, [T](Ctx& c) {
    const Cfg& f = CF[0]; Peer p; p.server(4, true, 1); Server s; s.multi = true; s.d = &dict; vector<Msg> in; size_t pos = 0; int serial = 0; size_t sent = p.out->data.size();
    for (int r = 0; r < (T ? 5 : 4); r++) {
      int reset = c.choose(3), add = (const int[]){0, 1, 2, 12, 3, 23}[c.choose(T ? 6 : 4)];   // reset: none, before, between additions
      auto put = [&](int k) { Msg g = peer(f, k, serial++); in.push_back(g); p.in->data += encode(g); };
      if (reset == 1) put(2);
      for (int i = 0; i < add; i++) { if (reset == 2 && i == add / 2) put(2); put(1); }
      put(0); p.in->eof = false;
      Server t = s; size_t q = pos; Res e = t.wait_mot(in, q, true); s = t; pos = q;
      Res g = real_wait_mot(p.h); c.step();
      if (dres(e) != dres(g)) c.fail("growth", "expected " + mc::esc(dres(e), 800) + "\n  got      " + mc::esc(dres(g), 800));
      trax_object_list* o = trax_object_list_create(s.objects); trax_region* b = trax_region_create_rectangle(1, 1, 1, 1); for (int i = 0; i < s.objects; i++) trax_object_list_set(o, i, b);
      int code = trax_server_reply_mot(p.h, o); trax_object_list_release(&o); trax_region_release(&b);
      vector<Msg> ms = parse_stream(p.out->data.substr(sent)); sent = p.out->data.size();
      if (e.code == TRAX_ERROR) break;
      if (code != TRAX_OK || (int)ms.size() != s.objects) c.fail("growth", "reply for " + std::to_string(s.objects) + " objects returned " + std::to_string(code) + " and wrote " + std::to_string(ms.size()) + " messages");
      c.state(fnvs(dres(g))); c.outcome("round");
    }
    trax_cleanup(&p.h);
  });
  return m.run();
}
