// M01: every message sent through the API arrives exactly once, in order and byte-identical.
#include "ref.hpp"
using namespace mc; using namespace ref;

static const vector<string>& atoms() {
  static vector<string> a = {"a", "\"", "\\", "\n", " ", "=", "n", "\r", "\t", "\x01", "\x80", "\xff", ";", ",", "'", "%s", "@@TRAX:", ":"};
  return a;
}
// value of up to L atoms
static string value(Ctx& c, int L) { int n = c.choose(L + 1); string s; for (int i = 0; i < n; i++) s += c.pick(atoms()); return s; }

// A conversation: client <-> server over two pipes; both ends real.
struct Pair {
  std::shared_ptr<Pipe> c2s = std::make_shared<Pipe>(), s2c = std::make_shared<Pipe>();
  Peer s, k; Ctx& c;
  Pair(Ctx& c_, int version, bool multi, int channels, const Props& custom = {}, const char* name = nullptr, const char* desc = nullptr, const char* fam = nullptr) : s(c2s, s2c), k(s2c, c2s), c(c_) {
    trax_metadata* m = trax_metadata_create(TRAX_REGION_ANY, TRAX_IMAGE_ANY, channels, name, desc, fam, multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    for (auto& p : custom) trax_properties_set(m->custom, p.first.c_str(), p.second.c_str());
    s.h = trax_server_setup_file_v(m, s.fin, s.fout, s.logging(), version); trax_metadata_release(&m);
    k.client();
    if (!s.h || !k.h) c.fail("setup", "handshake failed");
  }
  void done() { c2s->eof = s2c->eof = true; trax_cleanup(&k.h); trax_cleanup(&s.h); }
};
static trax_object_list* objs(const vector<Props>& ps) {
  trax_object_list* l = trax_object_list_create(ps.size()); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4);
  for (size_t i = 0; i < ps.size(); i++) { trax_object_list_set(l, i, r); for (auto& p : ps[i]) trax_properties_set(trax_object_list_properties(l, i), p.first.c_str(), p.second.c_str()); }
  trax_region_release(&r); return l;
}
static string dobj(const vector<Props>& ps) { string r = "O("; for (auto& p : ps) r += "rect:1,2,3,4" + dprops(p) + ";"; return r + ")"; }
static void expect(Ctx& c, const char* what, const string& e, const string& g) {
  c.state(fnvs(g)); c.step(); c.trace("%s: %s", what, mc::esc(g, 150).c_str());
  if (e != g) c.fail("altered", string(what) + ":\n  sent     " + mc::esc(e, 600) + "\n  received " + mc::esc(g, 600));
}
// one full round: initialize, frame, state, quit with the given properties and image text
static void round_trip(Ctx& c, int version, bool multi, const Props& p, const string& url, bool path, int nobj, bool one) {
  Pair x(c, version, multi, 1, p, "na me", "de\"sc\\", "fam\nily");
  if (one) { x.s.rd->mode = x.k.rd->mode = Reader::ONE; x.s.wr->mode = x.k.wr->mode = Writer::ONE; }
  expect(c, "hello custom", dprops(p), dprops(rprops(x.k.h->metadata->custom)));
  expect(c, "hello name", "na me|de\"sc\\|fam\nily", string(x.k.h->metadata->tracker_name) + "|" + x.k.h->metadata->tracker_description + "|" + x.k.h->metadata->tracker_family);
  trax_image_list* il = trax_image_list_create(); trax_image* im = path ? trax_image_create_path(url.c_str()) : trax_image_create_url(url.c_str());
  trax_image_list_set(il, im, TRAX_CHANNEL_COLOR);
  string di = "I(" + string(path ? "path:" : "url:") + url + ";none;none;)";
  vector<Props> ps(nobj, p); for (int i = 1; i < nobj; i++) ps[i]["o"] = std::to_string(i);
  trax_object_list* ol = objs(ps); trax_properties* pr = mkprops(p); trax_object_list* none = nullptr;
  if (trax_client_initialize(x.k.h, il, ol, pr) != TRAX_OK) c.fail("refused", "initialize refused");
  if (version >= 4) {
    Res r = real_wait_mot(x.s.h); Res e; e.code = TRAX_INITIALIZE; e.images = di; e.objects = dobj(ps); e.props = p;
    expect(c, "initialize", dres(e), dres(r));
    if (trax_server_reply_mot(x.s.h, ol) != TRAX_OK) c.fail("refused", "reply refused");
  } else {
    Res r = real_wait_sot(x.s.h); Res e; e.code = TRAX_INITIALIZE; e.images = di; e.objects = "rect:1,2,3,4"; e.props = p;
    expect(c, "initialize", dres(e), dres(r));
    trax_region* g = trax_region_create_rectangle(1, 2, 3, 4);
    if (trax_server_reply_sot(x.s.h, g, pr) != TRAX_OK) c.fail("refused", "reply refused"); trax_region_release(&g);
  }
  { Res r = real_client_wait(x.k.h); Res e; e.code = TRAX_STATE; e.objects = dobj(ps); expect(c, "state", dres(e), dres(r)); }
  for (int i = 0; i < 2; i++) if (trax_client_frame(x.k.h, il, none, pr) != TRAX_OK) c.fail("refused", "frame refused");   // two in a row: order and exactly-once
  for (int i = 0; i < 2; i++) {
    Res r = version >= 4 ? real_wait_mot(x.s.h) : real_wait_sot(x.s.h); Res e; e.code = TRAX_FRAME; e.images = di; e.props = p; expect(c, "frame", dres(e), dres(r));
  }
  // quit: the reason travels as a property
  auto it = p.begin(); string reason = it == p.end() ? "" : it->second;
  trax_terminate(x.k.h, reason.c_str());
  { Res r = version >= 4 ? real_wait_mot(x.s.h) : real_wait_sot(x.s.h); Res e; e.code = TRAX_QUIT; e.props["trax.reason"] = reason; expect(c, "quit", dres(e), dres(r)); }
  if (x.c2s->pos != x.c2s->data.size()) c.fail("extra", "bytes left after the last message");
  trax_image_list_clear(il); trax_image_list_release(&il); trax_object_list_release(&ol); trax_properties_release(&pr);
  x.done();
  c.outcome("round");
}

int main(int argc, char** argv) {
  Main m("M01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough;
  m.bounds = {"values: every concatenation of up to 3 (4 thorough) atoms out of 18 byte classes", "keys: every key of 1..2 characters of the allowed alphabet sample plus lengths 63 and 64", "lengths: values and image texts of length around 1024, 4096, 8192, 16384, 32768, 65536, 2^17 (to 2^20 thorough), up to 1000 properties and 257 objects, every special byte at every position of a window around the buffer limit", "sets of up to 3 properties", "versions 1..4, 1..3 objects, all-at-once and byte-wise transport"};
  m.add("values", 0, 3, [T](Ctx& c) {
    int v = c.choose(2); string s = value(c, T ? 4 : 3); Props p; p["key"] = s; string u = "x:" + s;
    round_trip(c, v ? 4 : 3, v, p, v ? "dir/" + s : u, v, v ? 2 : 1, false);
  });
  m.add("keys", 0, 2, [T](Ctx& c) {
    static const string al = "aZ09._zA"; int n = c.choose(5); Props p; string k;
    if (n < 2) for (int i = 0; i <= n; i++) k += al[c.choose(al.size())];
    else if (n == 2) { k = string(63, 'k'); k[c.choose(63)] = c.flip() ? '.' : '_'; }
    else if (n == 3) { k = string(64, 'K'); k[c.choose(64)] = c.flip() ? '.' : '_'; }
    else { for (char ch = 'a'; ch <= 'z'; ch++) k += ch; for (char ch = 'A'; ch <= 'Z'; ch++) k += ch; k += "0123456789._"; }
    p[k] = value(c, 1); if (c.flip()) p["other"] = "v=\"1\"";
    round_trip(c, 4, true, p, "http://u", false, 1, false);
  });
  m.add("sets", 0, 3, [T](Ctx& c) {
    int v = 1 + c.choose(4); int n = c.choose(4); Props p; static const char* ks[] = {"a", "b.c", "Trax_x"};
    static const vector<string> small = {"", "a", "\"", "\\", "\n", " ", "=x"};
    for (int i = 0; i < n; i++) p[ks[i]] = T && n < 3 ? value(c, 1) : c.pick(small);
    int no = v == 4 ? 1 + c.choose(3) : 1; bool one = n < 2 || T ? c.flip() : false;
    round_trip(c, v, v == 4, p, "s3:" + c.pick(small), false, no, one);
  });
  m.add("lengths", 0, 2, [T](Ctx& c) {
    static vector<int> base = {4096, 8192, 1024, 16384, 32768, 65536, 1 << 17}; static vector<int> tb = {4096, 8192, 65536, 1 << 20, 1024, 2048, 16384, 20480, 32768, 1 << 17, 1 << 18};
    int b = c.pick(T ? tb : base); int d = b > 8192 && !T ? 30 + c.choose(8) : c.choose(T ? 80 : 40); int kind = c.choose(b > 8192 && !T ? 2 : 6); bool one = b < 9000 && T ? c.flip() : false;
    string s(b - (T ? 60 : 34) + d, 'x'); const char sp[] = "\"\\\nx\xff "; 
    s[s.size() - 1] = sp[kind]; s[s.size() / 2] = sp[kind];
    Props p; p["k"] = s;
    round_trip(c, 4, true, p, "u:" + s, d & 1, 1, one);
  });
  m.add("many", 0, 1, [](Ctx& c) {   // many properties, many objects with many properties
    static const int NS[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}; int n = NS[c.choose(16)], no = c.choose(3); Props p; for (int i = 0; i < n; i++) p["k" + std::to_string(i)] = "v\"" + std::to_string(i * 7);
    if (no == 0) round_trip(c, 3 + c.choose(2), false, p, "u:many", false, 1, false);
    else if (no == 1) round_trip(c, 4, true, p, "many", true, 3, false);
    else { Props q; q["a"] = "b"; round_trip(c, 4, true, q, "u:objects", false, std::min(n, 257), false); }
  });
  m.add("alltext", 0, 1, [](Ctx& c) {   // every single byte value
    int b = 1 + c.choose(255); string s = string("x") + char(b) + "y"; Props p; p["k"] = s; p["l"] = string(1, char(b));
    bool path = c.flip(); round_trip(c, path ? 4 : 3, path, p, path ? s : "u:" + s, path, 1, false);
  });
  return m.run();
}
