// Sessions under transport faults, shared by M04 (results) and M05 (log).
#pragma once
#include "ref.hpp"
using namespace mc; using namespace ref;

struct FaultRun {
  Ctx& c; bool chk_results, chk_log;
  Peer p; Dict dict; string explog; vector<size_t> bounds; vector<size_t> allowed;
  size_t inpos = 0, outpos = 0, mpos = 0;
  FaultRun(Ctx& c_, bool r, bool l) : c(c_), chk_results(r), chk_log(l) {
    dict.reg["1,2,3,4"] = {TRAX_REGION_RECTANGLE, "rect:1,2,3,4"}; dict.reg["5,6,7,8"] = {TRAX_REGION_RECTANGLE, "rect:5,6,7,8"};
    p.rd->c = p.wr->c = &c;
  }
  string visible() { return p.rd->failed ? p.in->data.substr(0, p.in->pos) : p.in->data; }
  // account for what a receiving call must have consumed
  void received(const string& vis, const vector<size_t>& ends, size_t before, size_t after, bool hit) {
    for (size_t i = before; i < after; i++) { explog += vis.substr(inpos, ends[i] - inpos); inpos = ends[i]; bounds.push_back(explog.size()); }
    if (hit) { explog += vis.substr(inpos); inpos = vis.size(); allowed.push_back(explog.size()); }
    log("receive");
  }
  void sent() {
    string n = p.out->data.substr(outpos); outpos = p.out->data.size();
    size_t b = 0; for (size_t i = 0; i < n.size(); i++) if (n[i] == '\n') { bounds.push_back(explog.size() + i + 1); b = i + 1; }
    explog += n; if (b != n.size()) allowed.push_back(explog.size());
    if (n.empty()) allowed.push_back(explog.size());
    log("send");
  }
  void log(const char* what) {
    if (!chk_log) return;
    const Log& l = p.log;
    if (l.data != explog) c.fail("log", string("after ") + what + "\n  expected log " + mc::esc(explog, 800) + "\n  actual log   " + mc::esc(l.data, 800));
    std::set<size_t> f(l.flush_at.begin(), l.flush_at.end()), need(bounds.begin(), bounds.end());
    for (size_t b : need) if (!f.count(b)) c.fail("noflush", "no flush notification after the message ending at log offset " + std::to_string(b));
    for (size_t a : allowed) need.insert(a);
    for (size_t b : f) if (!need.count(b)) c.fail("flush", "flush notification inside a message at log offset " + std::to_string(b) + " of " + mc::esc(l.data, 600));
    c.state(fnvs(l.data, f.size() + 1));
  }
  static string rtext(trax_region* r) { char* t = trax_region_encode(r); string s = t; shim::raw_free(t); return s; }
  static Msg message(int type, const vector<string>& args, const Props& props = Props()) { Msg m; m.type = type; m.args = args; m.props = props; return m; }
  // the messages a call has to write, in order
  void send_result(const char* what, int r, const vector<Msg>& expected) {
    c.step(); c.trace("%s -> %d (out %zu)", what, r, p.out->data.size());
    string bytes = p.out->data.substr(outpos);
    sent();
    if (!chk_results) return;
    vector<Msg> got = parse_stream(bytes), want = expected; if (p.wr->failed && got.size() < want.size()) want.resize(got.size());
    if (dmsgs(got) != dmsgs(want)) c.fail("altered", string(what) + " wrote " + mc::esc(bytes, 500) + "\n  expected messages " + mc::esc(dmsgs(want), 500));
    if (p.wr->failed && r != TRAX_ERROR) c.fail("lost-write", string(what) + " reported success although the message could not be written");
    if (!p.wr->failed && r != TRAX_OK) c.fail("bad-error", string(what) + " failed although everything could be written");
    if (!p.wr->failed && (p.out->data.empty() || p.out->data.back() != '\n')) c.fail("partial", string(what) + " returned before the message was complete");
    c.state(fnvs(p.out->data, r + 10)); c.outcome(r == TRAX_OK ? "sent" : "send-error");
  }
  void compare(const char* what, const Res& e, const Res& r) {
    c.step(); c.trace("%s -> %s", what, mc::esc(dres(r), 120).c_str());
    c.outcome(r.code == TRAX_ERROR ? (p.rd->failed ? "recv-fault" : "recv-eof") : "received");
    if (!chk_results) return;
    c.state(fnvs(dres(r), p.in->pos * 4 + p.rd->failed + 1));
    if (dres(e) != dres(r)) c.fail("result", string(what) + " after " + std::to_string(p.in->pos) + " bytes, fault=" + std::to_string(p.rd->failed) + "\n  expected " + mc::esc(dres(e), 300) + "\n  got      " + mc::esc(dres(r), 300));
    if (p.rd->reads_after_end > 60) c.fail("spin", "the stream is read again and again after its end");
  }
  static std::vector<string> server_streams() {
    return {
      "@@TRAX:initialize \"1,2,3,4\" \"i=1\" \n@@TRAX:frame \"http://a\" \"k=v\\\"\" \n@@TRAX:frame \"http://b\" \n@@TRAX:quit \"trax.reason=x\" \n",
      "noise\n@@TRAX:initialize 1,2,3,4\n@@TRAX:frame \"http://a\" k=v\n\n@@TRAX:bad \"x\n@@TRAX:initialize 5,6,7,8\n@@TRAX:frame \"http://b\" \n@@TRAX:frame http://c\n",
      "@@TRAX:frame \"http://a\" \n@@TRAX:initialize \n@@TRAX:initialize \"1,2,3,4\" \n@@TRAX:frame \"http://a\" \n@@TRAX:quit\n@@TRAX:frame \"http://z\" \n"};
  }
  // server side session over a scripted incoming stream
  void server(int version, bool multi, const string& stream) {
    p.server(version, multi, 1); bool hf = p.wr->failed;
    sent();
    p.in->data = stream; p.in->eof = true;
    Server s; s.version = version; s.multi = multi; s.d = &dict;
    trax_region* g = trax_region_create_rectangle(5, 6, 7, 8);
    int total = 0;
    for (int i = 0; i < 30; i++) {
      Res r = version >= 4 ? real_wait_mot(p.h) : real_wait_sot(p.h);
      string vis = visible(); vector<Msg> ms = parse_stream(vis); size_t before = mpos;
      Res e = version >= 4 ? s.wait_mot(ms, mpos, true) : s.wait_sot(ms, mpos, true);
      compare("wait", e, r); received(vis, message_ends(vis), before, mpos, e.hit);
      if (r.code == TRAX_ERROR) { if (mpos >= ms.size()) break; continue; }
      if (r.code == TRAX_QUIT) break;
      int q; vector<Msg> x;
      if (version >= 4) {
        int n = s.objects; trax_object_list* o = trax_object_list_create(n);
        for (int k = 0; k < n; k++) { trax_object_list_set(o, k, g); trax_properties_set(trax_object_list_properties(o, k), "p", "a\"\n"); x.push_back(message(TRAX_STATE, {rtext(g)}, {{"p", "a\"\n"}})); }
        q = trax_server_reply_mot(p.h, o); trax_object_list_release(&o);
      } else { trax_properties* pr = mkprops({{"p", "a\"\n"}}); q = trax_server_reply_sot(p.h, g, pr); trax_properties_release(&pr); x.push_back(message(TRAX_STATE, {rtext(g)}, {{"p", "a\"\n"}})); }
      send_result("reply", q, x);
      if (hf) break;
      if (++total > 10) break;
    }
    // later waits stay in error
    for (int i = 0; i < 2 && s.alive && mpos >= parse_stream(visible()).size(); i++) {
      Res r = version >= 4 ? real_wait_mot(p.h) : real_wait_sot(p.h); Res e; compare("wait again", e, r); string vis = visible(); received(vis, message_ends(vis), mpos, mpos, true);
    }
    trax_region_release(&g);
    bool alive = trax_is_alive(p.h); size_t had = p.out->data.size(); (void)had;
    int q = trax_terminate(p.h, "done"); if (alive) send_result("terminate", q, {message(TRAX_QUIT, {}, {{"trax.reason", "done"}})});
    trax_cleanup(&p.h); sent();
  }
  void client(int version, bool multi, int nobj, const string& tail) {
    string stream = hello(version, multi, 1) + tail; p.in->data = stream; p.in->eof = true;
    p.client();
    string vis = visible(); vector<Msg> ms = parse_stream(vis);
    bool ok = !ms.empty();
    c.step();
    if (chk_results && ok != (p.h != nullptr)) c.fail("result", "setup: hello complete=" + std::to_string(ok) + " handle=" + std::to_string(p.h != nullptr));
    if (!p.h) { received(vis, message_ends(vis), 0, 0, true); return; }
    mpos = 1; received(vis, message_ends(vis), 0, 1, false);
    Client s; s.version = version; s.multi = multi; s.d = &dict;
    trax_image_list* il = trax_image_list_create(); trax_image* im = trax_image_create_url("http://i\"\n"); trax_image_list_set(il, im, TRAX_CHANNEL_COLOR);
    trax_object_list* ol = trax_object_list_create(nobj); trax_region* rg = trax_region_create_rectangle(1, 2, 3, 4);
    for (int i = 0; i < nobj; i++) trax_object_list_set(ol, i, rg);
    trax_properties* pr = mkprops({{"q", "\\x"}});
    vector<Msg> x0; Msg xf = message(TRAX_FRAME, {"http://i\"\n"}, {{"q", "\\x"}});
    if (version >= 4) { for (int i = 0; i < nobj; i++) x0.push_back(message(TRAX_INITIALIZE, {rtext(rg)})); x0.push_back(xf); } else x0.push_back(message(TRAX_INITIALIZE, {"http://i\"\n", rtext(rg)}, {{"q", "\\x"}}));
    int r0 = trax_client_initialize(p.h, il, ol, pr); send_result("initialize", r0, x0);
    if (r0 == TRAX_OK) s.objects = nobj;
    for (int i = 0; i < 6 && s.objects; i++) {
      Res r = real_client_wait(p.h); vis = visible(); ms = parse_stream(vis); size_t before = mpos;
      Res e = s.wait(ms, mpos, true); compare("wait", e, r); received(vis, message_ends(vis), before, mpos, e.hit);
      if (r.code != TRAX_STATE) break;
      int f = trax_client_frame(p.h, il, nullptr, pr); send_result("frame", f, {xf});
      if (f != TRAX_OK) break;
    }
    for (int i = 0; i < 2 && s.alive && s.objects && mpos >= parse_stream(visible()).size(); i++) { Res r = real_client_wait(p.h); Res e; compare("wait again", e, r); vis = visible(); received(vis, message_ends(vis), mpos, mpos, true); }
    trax_region_release(&rg); trax_image_list_clear(il); trax_image_list_release(&il); trax_object_list_release(&ol); trax_properties_release(&pr);
    bool alive = trax_is_alive(p.h);
    int q = trax_terminate(p.h, nullptr); if (alive) send_result("terminate", q, {message(TRAX_QUIT, {})});
    trax_cleanup(&p.h); sent();
  }
};

inline void fault_scenarios(Main& m, bool res, bool log) {
  bool T = m.thorough;
  m.bounds = {"3 server and 3 client transcripts (noise, additions, re-initialisation, errors), protocol versions 3 and 4, single and multi object",
              "byte-wise transport with every placement of 1 fault (2 thorough on the shortest transcripts): EINTR, error or end of stream at any read, EINTR or error at any write",
              "block transport with every placement of 1 (2 thorough) short reads, short writes and faults",
              "end of stream after every byte of the transcript"};
  static const char* ctails[] = {"@@TRAX:state \"1,2,3,4\" \"a=b\" \n@@TRAX:state \"5,6,7,8\" \n@@TRAX:state \"1,2,3,4\" \n@@TRAX:state \"1,2,3,4\" \n",
                                 "log line\n@@TRAX:state 1,2,3,4\n@@TRAX:state \"5,6,7,8\" x=\"y\n\n@@TRAX:quit \"trax.reason=r\" \n", "@@TRAX:state \"1,2,3,4\" \n@@TRAX:frame \n@@TRAX:state \"1,2,3,4\" \n"};
  static const struct { int v; bool m; } md[] = {{4, true}, {4, false}, {3, false}};
  auto serve = [res, log](Ctx& c, bool one) {
    int k = c.choose(3), t = c.choose(3); FaultRun f(c, res, log);
    f.p.rd->mode = one ? Reader::ONE : Reader::CHOOSE; f.p.wr->mode = one ? Writer::ONE : Writer::CHOOSE; f.p.rd->faults = f.p.wr->faults = true;
    string s = FaultRun::server_streams()[t]; if (md[k].v < 4) { // same session in the old message layout
      string o; for (auto& x : {std::pair<string, string>("@@TRAX:initialize \"1,2,3,4\"", "@@TRAX:initialize \"http://a\" \"1,2,3,4\""), {"@@TRAX:initialize 1,2,3,4", "@@TRAX:initialize http://a 1,2,3,4"}, {"@@TRAX:initialize 5,6,7,8", "@@TRAX:initialize http://a 5,6,7,8"}}) { size_t i = s.find(x.first); if (i != string::npos) s.replace(i, x.first.size(), x.second); } }
    f.server(md[k].v, md[k].m, s);
  };
  auto cli = [res, log](Ctx& c, bool one) {
    int k = c.choose(3), t = c.choose(3); FaultRun f(c, res, log);
    f.p.rd->mode = one ? Reader::ONE : Reader::CHOOSE; f.p.wr->mode = one ? Writer::ONE : Writer::CHOOSE; f.p.rd->faults = f.p.wr->faults = true;
    f.client(md[k].v, md[k].m, md[k].m ? 2 : 1, ctails[t]);
  };
  m.add("server-bytes", 1, 3, [serve](Ctx& c) { serve(c, true); });
  m.add("client-bytes", 1, 3, [cli](Ctx& c) { cli(c, true); });
  m.add("server-blocks", T ? 2 : 1, 4, [serve](Ctx& c) { serve(c, false); });
  m.add("client-blocks", T ? 2 : 1, 4, [cli](Ctx& c) { cli(c, false); });
  if (T) m.add("two-faults", 2, 3, [res, log](Ctx& c) {
    int k = c.choose(3), side = c.choose(2); FaultRun f(c, res, log);
    f.p.rd->mode = Reader::ONE; f.p.wr->mode = Writer::ALL; f.p.rd->faults = f.p.wr->faults = true;
    if (side) f.server(md[k].v, md[k].m, md[k].v < 4 ? "@@TRAX:initialize u:a 1,2,3,4\n@@TRAX:frame u:a k=v\n@@TRAX:quit\n" : "@@TRAX:initialize 1,2,3,4\n@@TRAX:frame u:a k=v\n@@TRAX:quit\n");
    else f.client(md[k].v, md[k].m, md[k].m ? 2 : 1, "@@TRAX:state 1,2,3,4 a=b\n@@TRAX:state 5,6,7,8\n@@TRAX:quit\n");
  });
  m.add("truncate", 0, 2, [res, log](Ctx& c) {
    int k = c.choose(3), t = c.choose(3), side = c.choose(2); FaultRun f(c, res, log);
    if (side) { string s = FaultRun::server_streams()[t]; s.resize(c.choose(s.size() + 1)); f.server(md[k].v, md[k].m, s); }
    else { string s = ctails[t]; s.resize(c.choose(s.size() + 1)); f.client(md[k].v, md[k].m, md[k].m ? 2 : 1, s); }
  });
}
