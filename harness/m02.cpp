// M02: the delivered messages are a function of the bytes alone; malformed lines are skipped whole.
#include "ref.hpp"
using namespace mc; using namespace ref;

static Dict dict;
static const char* K_INIT = "@@TRAX:initialize \"1,2,3,4\" \"id=7\" \n";

struct Mode { int version; bool multi; };

// Drives one real server over `stream` and compares every wait with the reference.
static void run_server(Ctx& c, int version, bool multi, int channels, const string& stream, int frag) {
  Peer p; p.server(version, multi, channels);
  p.in->data = stream; p.in->eof = true;
  p.rd->c = &c;
  if (frag == 1) p.rd->mode = Reader::ONE;
  if (frag == 2) p.rd->mode = Reader::CHOOSE;
  vector<Msg> msgs = parse_stream(stream); size_t pos = 0;
  Server s; s.version = version; s.multi = multi; s.channels = channels; s.d = &dict;
  for (int i = 0; i < 40; i++) {
    bool more = pos < msgs.size();
    Res e = version >= 4 ? s.wait_mot(msgs, pos, true) : s.wait_sot(msgs, pos, true);
    Res r = version >= 4 ? real_wait_mot(p.h) : real_wait_sot(p.h);
    c.step();
    string de = dres(e), dr = dres(r);
    c.trace("wait -> %s", mc::esc(dr, 160).c_str());
    c.state(fnvs(dr, fnvs(stream.substr(0, p.in->pos))));
    if (de != dr) c.fail("parse", "stream:\n" + mc::esc(stream, 600) + "\n  call " + std::to_string(i) + "\n  expected " + mc::esc(de, 400) + "\n  got      " + mc::esc(dr, 400));
    c.outcome(r.code == TRAX_ERROR ? (more ? "error" : "eof") : r.code == TRAX_QUIT ? "quit" : r.code == TRAX_FRAME ? "frame" : "initialize");
    if (!more || !s.alive) break;
  }
  trax_cleanup(&p.h);
}
static void run_client(Ctx& c, int version, bool multi, int nobj, const string& tail, int frag) {
  string stream = hello(version, multi, 1) + tail;
  Peer p; p.in->data = stream; p.in->eof = true; p.rd->c = &c;
  if (frag == 1) p.rd->mode = Reader::ONE;
  if (frag == 2) p.rd->mode = Reader::CHOOSE;
  p.client(); if (!p.h) c.fail("setup", "hello refused");
  trax_image_list* il = trax_image_list_create(); trax_image* im = trax_image_create_url("http://i"); trax_image_list_set(il, im, TRAX_CHANNEL_COLOR);
  trax_object_list* ol = trax_object_list_create(nobj); trax_region* rg = trax_region_create_rectangle(1, 2, 3, 4);
  for (int i = 0; i < nobj; i++) trax_object_list_set(ol, i, rg);
  trax_properties* pr = trax_properties_create();
  if (trax_client_initialize(p.h, il, ol, pr) != TRAX_OK) c.fail("setup", "initialize refused");
  trax_region_release(&rg); trax_image_list_clear(il); trax_image_list_release(&il); trax_object_list_release(&ol); trax_properties_release(&pr);
  vector<Msg> msgs = parse_stream(stream); size_t pos = 1;
  Client s; s.version = version; s.multi = multi; s.d = &dict; s.objects = nobj;
  for (int i = 0; i < 40; i++) {
    bool more = pos < msgs.size();
    Res e = s.wait(msgs, pos, true), r = real_client_wait(p.h);
    string de = dres(e), dr = dres(r);
    c.trace("client wait -> %s", mc::esc(dr, 160).c_str());
    c.state(fnvs(dr, fnvs(stream.substr(0, p.in->pos), 77)));
    if (de != dr) c.fail("parse", "stream:\n" + mc::esc(stream, 600) + "\n  call " + std::to_string(i) + "\n  expected " + mc::esc(de, 400) + "\n  got      " + mc::esc(dr, 400));
    c.outcome(r.code == TRAX_ERROR ? (more ? "error" : "eof") : r.code == TRAX_QUIT ? "quit" : "state");
    if (!more || !s.alive) break;
  }
  trax_cleanup(&p.h);
}

int main(int argc, char** argv) {
  dict.reg["1,2,3,4"] = {TRAX_REGION_RECTANGLE, "rect:1,2,3,4"};
  dict.reg["5,6,7,8"] = {TRAX_REGION_RECTANGLE, "rect:5,6,7,8"};
  Main m("M02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {"line scenario: every sequence of 3 lines (4 thorough) from an alphabet of well-formed, malformed and noise lines, three fragmentations",
              "byte scenario: every byte string of length 1..6 (7 thorough) over {space,quote,backslash,n,newline,=,a} in the argument part of a message followed by a sentinel message",
              "header scenario: every byte string of length <= 5 (6) over {@,T,:,space,newline,q} spliced into the message header",
              "split scenario: every set of up to 2 (3) short reads over a transcript with messages around the 4096 byte read buffer"};

  // 1. sequences of lines
  static vector<string> lines = {
    "@@TRAX:frame \"http://a b\" \"k=v w\" \n", "@@TRAX:frame http://x k=v\n", "@@TRAX:frame \"http://q\\\"\\\\\\n\" \n", "@@TRAX:initialize \"5,6,7,8\" \"p=q\" \n",
    "@@TRAX:initialize \n", "@@TRAX:quit \"trax.reason=bye\" \n", "@@TRAX:QUIT\n", "@@TRAX:hello \n", "@@TRAX:state \"1,2,3,4\" \"s=t\" \n", "@@TRAX:status 5,6,7,8\n",
    "\n", "tracker output\n", "@@TRAX\n", "@@TRAX:\n", "@@TRAX: frame http://x\n", "x@@TRAX:quit \n", " @@TRAX:quit \n", "@@TRAX:bogus \"z=1\" \"a\"\n", "@@TRAX:bogus\n",
    "@@TRAX:frame \"z=1\" \"http://u\n", "@@TRAX:frame \"z=1\" \"http://u\"x \n", "@@TRAX:frame \"z=1\" http://u\\\n", "@@TRAX:frame z=1 k=\\\n", "@@TRAX:frame \"z=1\" \"http://u\\\n",
    "@@TRAX:frame \"z=1\n", "@@TRAX:frame \"z=1\\\n", "@@TRAX:frame! http://x\n", "@@@TRAX:quit \n", "@@TRAX@@TRAX:quit \n", string("@@TRAX:qu\0it \n", 15), "\xff\xfe\x80\n", "@@TRAX:frame \"http://\xc3\xa9\xff\" \"k=\xff\" \n", "@@TRAX:\xff quit \n"
  };
  m.add("lines-server", 0, 3, [T](Ctx& c) {
    static const Mode md[] = {{4, true}, {4, false}, {3, false}};
    int mode = c.choose(3), frag = c.choose(2); int n = T ? 4 : 3;
    string s = md[mode].version >= 4 ? string(K_INIT) + "@@TRAX:frame \"http://0\" \n" : "@@TRAX:initialize \"http://0\" \"1,2,3,4\" \"id=7\" \n";
    for (int i = 0; i < n; i++) s += lines[c.choose(lines.size())];
    s += "@@TRAX:frame \"http://last\" \"end=1\" \n";
    run_server(c, md[mode].version, md[mode].multi, 1, s, frag);
  });
  m.add("lines-client", 0, 3, [T](Ctx& c) {
    int mode = c.choose(3), frag = c.choose(2), n = T ? 4 : 3; string s;
    for (int i = 0; i < n; i++) s += lines[c.choose(lines.size())];
    s += "@@TRAX:state \"5,6,7,8\" \"end=1\" \n@@TRAX:state \"1,2,3,4\" \"end=2\" \n";
    run_client(c, mode == 2 ? 3 : 4, mode == 0, mode == 0 ? 2 : 1, s, frag);
  });
  // 2. bytes of the argument part
  m.add("bytes", 0, 4, [T](Ctx& c) {
    static const char al[] = " \"\\n\n=a";
    int ch = c.choose(2); int L = 1 + c.choose(T ? 7 : 6);
    string b; for (int i = 0; i < L; i++) b += al[c.choose(7)];
    string s = "@@TRAX:initialize \"http://0\" " + string(ch ? "\"http://1\" " : "") + "1,2,3,4\n@@TRAX:frame " + string(ch ? "u:1 " : "") + b + "\n@@TRAX:frame \"http://s\" " + (ch ? "\"http://t\"" : "") + " z=z\n";
    run_server(c, 3, false, ch ? 3 : 1, s, 0);
  });
  // 3. bytes of the header
  m.add("header", 0, 4, [T](Ctx& c) {
    static const char al[] = "@T: \nq";
    static const string bases[] = {"@@TRAX:quit", "@@TRAX:frame", "@@TRAX:"};
    const string& base = bases[c.choose(3)];
    size_t at = c.choose(base.size() + 1); int del = c.choose(2); int L = c.choose(T ? 5 : 4);
    string b = base.substr(0, at); for (int i = 0; i < L; i++) b += al[c.choose(6)];
    if (at + del <= base.size()) b += base.substr(at + del);
    string s = "@@TRAX:initialize \"http://0\" 1,2,3,4\n" + b + "\n@@TRAX:frame \"http://s\" z=z\n";
    run_server(c, 3, false, 1, s, 0);
  });
  // 4. short reads anywhere, messages longer than the read buffer
  m.add("splits", T ? 3 : 2, 3, [T](Ctx& c) {
    static const int sizes[] = {1, 3, 4040, 4060, 8192};
    int v = c.choose(5), k = c.choose(2);
    string big(sizes[v], 'x'); for (size_t i = 0; i < big.size(); i += 7) big[i] = k ? '"' : ' ';
    Msg a; a.type = TRAX_INITIALIZE; a.args = {"1,2,3,4"}; a.props["b"] = big;
    Msg f; f.type = TRAX_FRAME; f.args = {"http://" + big}; f.props["c"] = big;
    string s = "noise @@TRAX:quit \n" + encode(a) + "\n" + encode(f) + "@@TRAX:quit \"r=" + big + "\" \n";
    run_server(c, 4, true, 1, s, 2);
  });
  // every single cut position and every pair around boundaries
  m.add("cut", 0, 2, [T](Ctx& c) {
    string s = "n\n@@TRAX:initialize \"1,2,3,4\" \"a=\\\\\\\"\\n\" \n@@TRAX:bad \"x\n@@TRAX:frame \"http://a b\" k=v\n@@TRAX:quit x=y\n";
    size_t i = c.choose(s.size()), j = T ? c.choose(s.size()) : 0;
    Peer p; p.server(4, true, 1); p.in->data = s; p.in->eof = true; p.rd->cuts = {i, j};
    if (j < i) p.rd->cuts = {j, i};
    vector<Msg> ms = parse_stream(s); size_t pos = 0; Server sv; sv.multi = true; sv.d = &dict;
    for (int k = 0; k < 4; k++) {
      string e = dres(sv.wait_mot(ms, pos, true)), r = dres(real_wait_mot(p.h)); c.state(fnvs(r, i * 1000 + j + 1));
      if (e != r) c.fail("parse", "cut at " + std::to_string(i) + "," + std::to_string(j) + ": expected " + e + " got " + r);
    }
    trax_cleanup(&p.h);
  });
  return m.run();
}
