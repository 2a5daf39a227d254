// S06: a refused client or server call has no effect: sessions with refused calls inserted are compared with
// the same session without them.
#include "ref.hpp"
using namespace mc; using namespace ref;
struct Cfg { int version; bool multi; int channels; const char* name; };
static const Cfg CF[] = {{4, true, 3, "v4m"}, {4, false, 1, "v4"}, {3, false, 5, "v3"}, {1, false, 1, "v1"}};
static trax_image_list* images(int channels, int serial, int missing = 0) {
  trax_image_list* l = trax_image_list_create();
  for (int c = 0; c < 3; c++) if (channels & ~missing & (1 << c)) trax_image_list_set(l, trax_image_create_path(("/i" + std::to_string(serial) + "." + std::to_string(c)).c_str()), 1 << c);
  return l;
}
static void freeimages(trax_image_list* l) { trax_image_list_clear(l); trax_image_list_release(&l); }
// region kinds: r rectangle, s special, n none; one letter per object
static trax_object_list* objects(const char* kinds, int serial) {
  int n = strlen(kinds); trax_object_list* o = trax_object_list_create(n);
  for (int i = 0; i < n; i++) {
    trax_region* r = kinds[i] == 'r' ? trax_region_create_rectangle(serial, i, 3, 4) : kinds[i] == 's' ? trax_region_create_special(1) : nullptr;
    if (r) { trax_object_list_set(o, i, r); trax_region_release(&r); } trax_properties_set_int(trax_object_list_properties(o, i), "o", serial * 10 + i);
  }
  return o;
}
struct Op { bool init; const char* kinds; int missing; const char* what; };   // kinds null: no list
// calls of the client that must be refused in every state of the configuration (need: 0 any, 1 no objects yet, 2 has objects)
struct Bad { Op op; int need; bool v4, v3, single, multi; };
static const Bad CBAD[] = {
  {{true, "", 0, "initialize without objects"}, 0, true, true, true, true}, {{true, "rr", 0, "initialize with too many objects"}, 0, true, true, true, false},
  {{true, "r", 1, "initialize without the color image"}, 0, true, true, true, true}, {{false, nullptr, 1, "frame without the color image"}, 2, true, true, true, true},
  {{true, "s", 0, "initialize with a special region"}, 0, true, true, true, true}, {{true, "n", 0, "initialize with an empty slot"}, 0, true, true, true, true},
  {{true, "rs", 0, "initialize with a special second region"}, 0, true, false, false, true}, {{true, "rn", 0, "initialize with an empty second slot"}, 0, true, false, false, true}, {{true, "srr", 0, "initialize with a special first region"}, 0, true, false, false, true},
  {{false, nullptr, 0, "frame before initialize"}, 1, true, true, true, true}, {{false, "r", 0, "frame adding a second object"}, 2, true, true, true, false}, {{false, "r", 0, "frame with objects"}, 1, false, true, true, true},
  {{false, "rs", 0, "frame adding a special region"}, 0, true, false, false, true}, {{false, "n", 0, "frame adding an empty slot"}, 0, true, true, true, true}, {{false, "r", 1, "frame adding without image"}, 0, true, true, true, true}, {{false, "", 0, "frame with empty list"}, 1, true, true, true, true}};
static int apply(trax_handle* h, const Cfg& f, const Op& o, int serial) {
  trax_object_list* l = o.kinds ? objects(f.version < 4 && o.init && !strcmp(o.kinds, "r") ? "r" : o.kinds, serial) : nullptr; int miss = 0; for (int c = 2; c >= 0; c--) if (o.missing && (f.channels & (1 << c))) { miss = 1 << c; break; }
  trax_image_list* im = images(f.channels, serial, miss); trax_properties* p = mkprops({{"m", std::to_string(serial)}});
  int g = o.init ? trax_client_initialize(h, im, l, p) : trax_client_frame(h, im, l, p);
  trax_properties_release(&p); freeimages(im); if (l) trax_object_list_release(&l); return g;
}
static void refused(Ctx& c, trax_handle* h, const char* what, int got, size_t before, Pipe& out, int objects) {
  c.step(); c.trace("%s -> %d", what, got); c.outcome(what);
  if (got != TRAX_ERROR) c.fail("accepted", string(what) + " returned " + std::to_string(got));
  if (out.data.size() != before) c.fail("traffic", string(what) + " was refused but wrote " + mc::esc(out.data.substr(before), 400));
  const char* e = trax_get_error(h); if (!e || !*e) c.fail("text", string(what) + " was refused without an error text");
  if (string(e).size() > 2000) c.fail("text", "error text too long"); for (const char* p = e; *p; p++) if ((unsigned char)*p < 32) c.fail("text", string(what) + ": unreadable error text " + mc::esc(e));
  if (!trax_is_alive(h)) c.fail("alive", string(what) + " ended the session");
}
// The same call refused twice in the same state gives the same text
int main(int argc, char** argv) {
  Main m("S06"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int L = T ? 4 : 3, B = 2;
  m.bounds = {"client: every legal session of " + std::to_string(L) + " calls (initialize, frame, additions, re-initialisation, waits on the states a server would send) with up to " + std::to_string(B) + " calls out of 16 kinds of refused ones inserted at every position, compared with the session without them",
              "server: every legal session of " + std::to_string(L) + " rounds (initialisation, addition, reset, frame, reply) with up to " + std::to_string(B) + " refused replies out of 6 kinds inserted at every position, compared likewise", "4 configurations"};
  for (int i = 0; i < 4; i++) {
    m.add(string("client-") + CF[i].name, B, 2, [i, L](Ctx& c) {
      const Cfg& f = CF[i]; vector<Bad> bad; for (auto& b : CBAD) if ((f.version >= 4 ? b.v4 : b.v3) && (f.multi ? b.multi : b.single)) bad.push_back(b);
      string dirty; Pipe* outp = nullptr; vector<Op> script; vector<Res> waits; string clean;
      // the session with refused calls; the explorer chooses the legal calls and where refused ones go
      { Peer p; p.in->data = hello(f.version, f.multi, f.channels, "rectangle;"); p.client(); if (!p.h) c.fail("setup", "client refused a legal hello"); outp = p.out.get(); int objs = 0, states = 0;
        auto insert = [&](int serial) {
          vector<const Bad*> en; for (auto& b : bad) if (b.need == 0 || (b.need == 1) == (objs == 0)) en.push_back(&b);
          for (;;) {
            int k = c.deviate(1 + en.size()); if (!k) return; size_t n = p.out->data.size(); const char* w = en[k - 1]->op.what;
            int g = apply(p.h, f, en[k - 1]->op, 900 + serial); refused(c, p.h, w, g, n, *p.out, objs); string t = trax_get_error(p.h);
            g = apply(p.h, f, en[k - 1]->op, 900 + serial); refused(c, p.h, w, g, n, *p.out, objs); if (t != trax_get_error(p.h)) c.fail("text", string(w) + ": the text changes from " + mc::esc(t) + " to " + mc::esc(trax_get_error(p.h)));
          }
        };
        for (int k = 0; k < L; k++) {
          insert(k);
          static const Op A[] = {{true, "r", 0, "initialize"}, {false, nullptr, 0, "frame"}, {true, "rr", 0, "initialize 2"}, {false, "r", 0, "add"}};
          int j = objs == 0 && !f.multi ? 0 : objs == 0 ? (c.flip() ? 3 : 0) : c.choose(f.multi ? 4 : 2); Op o = A[j]; if (objs == 0 && j == 3 && c.flip()) o = A[2];
          script.push_back(o); int g = apply(p.h, f, o, k); c.step(); if (g != TRAX_OK) c.fail("legal", string(o.what) + " was refused after refused calls: " + (trax_get_error(p.h) ? trax_get_error(p.h) : ""));
          objs = o.init ? strlen(o.kinds) : objs + (o.kinds ? strlen(o.kinds) : 0);
          if (f.version < 4) objs = 1;
          for (int z = 0; z < objs; z++) p.in->data += "@@TRAX:state \"" + std::to_string(k) + "," + std::to_string(z) + ",3,4\" \"x=" + std::to_string(states++) + "\"\n";
          p.in->eof = true; Res r = real_client_wait(p.h); waits.push_back(r); p.in->eof = false;
          if (r.code != TRAX_STATE) c.fail("legal", "wait failed after refused calls");
        }
        insert(L); dirty = p.out->data; trax_cleanup(&p.h); }
      { Peer p; p.in->data = hello(f.version, f.multi, f.channels, "rectangle;"); p.client(); int objs = 0, states = 0;
        for (size_t k = 0; k < script.size(); k++) {
          Op& o = script[k]; if (apply(p.h, f, o, k) != TRAX_OK) c.fail("legal", string(o.what) + " was refused in the plain session");
          objs = f.version < 4 ? 1 : o.init ? strlen(o.kinds) : objs + (o.kinds ? strlen(o.kinds) : 0);
          for (int z = 0; z < objs; z++) p.in->data += "@@TRAX:state \"" + std::to_string(k) + "," + std::to_string(z) + ",3,4\" \"x=" + std::to_string(states++) + "\"\n";
          p.in->eof = true; Res r = real_client_wait(p.h); p.in->eof = false;
          if (dres(r) != dres(waits[k])) c.fail("differs", "wait " + std::to_string(k) + " gives " + mc::esc(dres(waits[k]), 300) + " after refused calls, " + mc::esc(dres(r), 300) + " without");
        }
        clean = p.out->data; trax_cleanup(&p.h); }
      if (dmsgs(parse_stream(clean)) != dmsgs(parse_stream(dirty))) c.fail("differs", "with refused calls the peer sees\n" + mc::esc(dirty, 900) + "\n  without\n" + mc::esc(clean, 900));
      c.state(fnvs(clean)); shim::check_balanced(c);
    });
    m.add(string("server-") + CF[i].name, B, 2, [i, L](Ctx& c) {
      const Cfg& f = CF[i]; bool v4 = f.version >= 4; string outs[2]; vector<string> res[2]; vector<int> script;
      for (int pass = 0; pass < 2; pass++) {
        Peer p; p.server(f.version, f.multi, f.channels); int objs = 0;
        auto insert = [&](bool spot) {
          if (pass) return;
          for (;;) {
            // kinds of refused replies
            vector<std::pair<string, const char*>> bad; static const char* K[] = {"", "r", "rr", "rrr", "rrrr", "rrrrr", "rrrrrr", "rrrrrrr", "rrrrrrrr"};
            for (int n : {0, 1, 2, 3}) if (n != objs) bad.push_back({K[n], "reply with a wrong count"});
            if (objs + 1 > 3) bad.push_back({K[objs + 1], "reply with one state too many"});
            bad.push_back({"sot-none", "single reply without region"}); if (v4) bad.push_back({"sot", "single reply in multi-object mode"});
            int k = c.deviate(1 + bad.size()); if (!k) return; auto& b = bad[k - 1]; size_t n = p.out->data.size(); int g;
            for (int twice = 0; twice < 2; twice++) {
              if (b.first.compare(0, 3, "sot") == 0) { trax_region* r = b.first == "sot" ? trax_region_create_rectangle(1, 1, 1, 1) : nullptr; g = trax_server_reply_sot(p.h, r, nullptr); if (r) trax_region_release(&r); }
              else { trax_object_list* o = objects(b.first.c_str(), 77); g = trax_server_reply_mot(p.h, o); trax_object_list_release(&o); }
              refused(c, p.h, b.second, g, n, *p.out, objs);
            }
          }
        };
        for (int k = 0; k < L; k++) {
          insert(true); int j;
          if (!pass) { j = v4 ? c.choose(f.multi ? 4 : 2) : c.choose(2); if (objs == 0) j = v4 && j > 1 ? 3 : 1; script.push_back(j); } else j = script[k];
          string img; for (int q = 0; q < 3; q++) if (f.channels & (1 << q)) img += "\"file:///f" + std::to_string(k) + "\" ";
          string ini = "\"" + std::to_string(k) + ",2,3,4\"", w;   // 0 frame, 1 (re)initialize, 2 add one, 3 (re)initialize with two
          if (v4) { if ((j == 1 || j == 3) && objs) w += "@@TRAX:initialize\n"; if (j) w += "@@TRAX:initialize " + ini + " o=1\n"; if (j == 3) w += "@@TRAX:initialize " + ini + " o=2\n"; w += "@@TRAX:frame " + img + " m=" + std::to_string(k) + "\n"; }
          else w = j ? "@@TRAX:initialize " + img + ini + "\n" : "@@TRAX:frame " + img + "\n";
          if (j == 1) objs = 1; else if (j == 2) objs++; else if (j == 3) objs = 2;
          p.in->data += w; p.in->eof = true; Res r = v4 ? real_wait_mot(p.h) : real_wait_sot(p.h); p.in->eof = false; res[pass].push_back(dres(r)); c.step();
          if (r.code == TRAX_ERROR) c.fail("legal", "server refused " + mc::esc(w));
          insert(false);
          int g; if (v4) { trax_object_list* o = objects(string(objs, 'r').c_str(), k); g = trax_server_reply_mot(p.h, o); trax_object_list_release(&o); } else { trax_region* q = trax_region_create_rectangle(k, 1, 2, 2); g = trax_server_reply_sot(p.h, q, nullptr); trax_region_release(&q); }
          if (g != TRAX_OK) c.fail("legal", "a legal reply was refused after refused ones");
        }
        insert(true); outs[pass] = p.out->data; trax_cleanup(&p.h);
      }
      if (dmsgs(parse_stream(outs[0])) != dmsgs(parse_stream(outs[1]))) c.fail("differs", "with refused calls the peer sees\n" + mc::esc(outs[0], 900) + "\n  without\n" + mc::esc(outs[1], 900));
      if (res[0] != res[1]) c.fail("differs", "waits differ after refused replies");
      c.state(fnvs(outs[1])); shim::check_balanced(c);
    });
  }
  return m.run();
}
