// M03: no byte stream from a peer can corrupt, abort or hang the process. Crashes, out-of-bounds
// accesses, failed assertions, endless loops and leaks are the oracle (AddressSanitizer, tracked
// allocator, a limit on I/O calls and on time); what is returned is used through the whole API.
#include "ref.hpp"
using namespace mc; using namespace ref;
static volatile uint64_t sink;
static void use(Ctx& c, const trax_region* r) {
  if (!r) return; int t = trax_region_get_type(r); c.outcome(t == TRAX_REGION_MASK ? "mask" : t == TRAX_REGION_POLYGON ? "polygon" : t == TRAX_REGION_RECTANGLE ? "rectangle" : t == TRAX_REGION_SPECIAL ? "special" : "unknown-type");
  if (t != TRAX_REGION_MASK && t != TRAX_REGION_POLYGON && t != TRAX_REGION_RECTANGLE && t != TRAX_REGION_SPECIAL) c.fail("type", "region of type " + std::to_string(t));
  sink += dregion(r).size();
  char* e = trax_region_encode(r); if (e) { sink += strlen(e); trax_region* d = trax_region_decode(e); if (d) trax_region_release(&d); shim::raw_free(e); }
  trax_region* k = trax_region_clone(r); if (k) { sink += trax_region_overlap(r, k, trax_no_bounds) > 0.5f; trax_region_release(&k); }
  trax_bounds b = trax_region_bounds(r); sink += b.top == b.top;
  sink += trax_region_contains(r, 1, 1) + trax_region_contains(r, -1e30f, 3);
  static const int to[] = {TRAX_REGION_SPECIAL, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK};
  for (int x : to) { trax_region* q = trax_region_convert(r, x); if (q) { if (trax_region_get_type(q) != x) c.fail("type", "conversion of wrong type"); sink += dregion(q).size(); trax_region_release(&q); } }
}
static void use(Ctx& c, const trax_image_list* l) {
  if (!l) return; static const int ch[] = {1, 2, 4}; for (int k : ch) { trax_image* i = trax_image_list_get(l, k); if (i) { int t = trax_image_get_type(i); if (t != TRAX_IMAGE_PATH && t != TRAX_IMAGE_URL && t != TRAX_IMAGE_MEMORY && t != TRAX_IMAGE_BUFFER) c.fail("type", "image of type " + std::to_string(t)); if (t == TRAX_IMAGE_MEMORY) { int w, h, f; trax_image_get_memory_header(i, &w, &h, &f); if (w < 1 || h < 1) c.fail("size", "image of size " + std::to_string(w) + "x" + std::to_string(h)); } sink += dimage(i).size(); } }
}
// reads as a server until it fails or the stream has ended
static void server(Ctx& c, int version, bool multi, int channels, const string& stream, int maxcalls = 12) {
  Peer p; p.server(version, multi, channels); p.in->data = stream; p.in->eof = true; int errors = 0;
  for (int i = 0; i < maxcalls; i++) {
    trax_image_list* im = (trax_image_list*)-1; trax_object_list* o = (trax_object_list*)-1; trax_region* rg = (trax_region*)-1; trax_properties* pr = trax_properties_create();
    int g = version >= 4 ? trax_server_wait_mot(p.h, &im, &o, pr) : trax_server_wait_sot(p.h, &im, &rg, pr); c.step();
    if (version >= 4) rg = nullptr; else o = nullptr;
    if (g != TRAX_ERROR && g != TRAX_QUIT && g != TRAX_INITIALIZE && g != TRAX_FRAME) c.fail("code", "server wait returned " + std::to_string(g));
    if (g == TRAX_ERROR || g == TRAX_QUIT) { if (im || o || rg) c.fail("outputs", "server wait returned " + std::to_string(g) + " and outputs"); }
    else {
      if (!im) c.fail("outputs", "no images"); use(c, im);
      if (o) { int n = trax_object_list_count(o); if (n < 1) c.fail("outputs", "empty object list"); for (int k = 0; k < n; k++) { use(c, trax_object_list_get(o, k)); sink += rprops(trax_object_list_properties(o, k)).size(); } } use(c, rg);
      if (g == TRAX_INITIALIZE && !o && !rg) c.fail("outputs", "initialize without object");
    }
    sink += rprops(pr).size(); const char* e = trax_get_error(p.h); if (e) sink += strlen(e);
    if (im) { trax_image_list_clear(im); trax_image_list_release(&im); } if (o) trax_object_list_release(&o); if (rg) trax_region_release(&rg); trax_properties_release(&pr);
    c.outcome(g == TRAX_ERROR ? "error" : g == TRAX_QUIT ? "quit" : "message");
    if (g == TRAX_ERROR && ++errors > 1 && p.in->pos >= p.in->data.size()) break;
  }
  trax_terminate(p.h, nullptr); trax_cleanup(&p.h); shim::check_balanced(c);
}
// sets up a client on the stream, initialises and waits
static void client(Ctx& c, const string& stream, int nobj = 1) {
  Peer p; p.in->data = stream; p.in->eof = true; p.client(); c.step(); if (!p.h) { c.outcome("setup-refused"); shim::check_balanced(c); return; }
  c.outcome("setup"); int v; trax_get_parameter(p.h, TRAX_PARAMETER_VERSION, &v); sink += v;
  trax_metadata* m = p.h->metadata; if (!m || (m->channels & 7) == 0 || (m->channels & ~7)) c.fail("metadata", "unusable metadata"); sink += rprops(m->custom).size(); if (m->tracker_name) sink += strlen(m->tracker_name);
  trax_image_list* im = trax_image_list_create(); for (int k = 0; k < 3; k++) trax_image_list_set(im, trax_image_create_path("/x"), 1 << k);
  trax_object_list* o = trax_object_list_create(nobj); for (int i = 0; i < nobj; i++) { trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); trax_object_list_set(o, i, r); trax_region_release(&r); }
  int g = trax_client_initialize(p.h, im, o, nullptr); trax_object_list_release(&o); int errors = 0;
  for (int i = 0; i < 8; i++) {
    trax_object_list* l = (trax_object_list*)-1; trax_properties* pr = trax_properties_create(); g = trax_client_wait(p.h, &l, pr); c.step();
    if (g != TRAX_ERROR && g != TRAX_QUIT && g != TRAX_STATE) c.fail("code", "client wait returned " + std::to_string(g));
    if (g == TRAX_STATE) { if (!l || trax_object_list_count(l) != nobj) c.fail("outputs", "wrong number of objects"); for (int k = 0; k < nobj; k++) { if (!trax_object_list_get(l, k)) c.fail("outputs", "no region"); use(c, trax_object_list_get(l, k)); sink += rprops(trax_object_list_properties(l, k)).size(); } trax_object_list_release(&l); }
    else if (l) c.fail("outputs", "client wait returned " + std::to_string(g) + " and objects");
    sink += rprops(pr).size(); trax_properties_release(&pr); c.outcome(g == TRAX_ERROR ? "error" : g == TRAX_QUIT ? "quit" : "message");
    if (g == TRAX_ERROR && ++errors > 1) break; if (g != TRAX_ERROR) trax_client_frame(p.h, im, nullptr, nullptr);
  }
  trax_image_list_clear(im); trax_image_list_release(&im); trax_cleanup(&p.h); shim::check_balanced(c);
}
static void decode(Ctx& c, const string& t) { trax_region* r = trax_region_decode(t.c_str()); c.step(); c.outcome(r ? "decoded" : "refused"); use(c, r); if (r) trax_region_release(&r); c.state(fnvs(t)); shim::check_balanced(c); }
static string b64(const string& d) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string r; size_t i = 0; for (; i + 2 < d.size(); i += 3) { unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2]; for (int k = 3; k >= 0; k--) r += A[v >> (6 * k) & 63]; } if (i < d.size()) { unsigned v = (unsigned char)d[i] << 16 | (i + 1 < d.size() ? (unsigned char)d[i + 1] << 8 : 0); r += A[v >> 18 & 63]; r += A[v >> 12 & 63]; r += i + 1 < d.size() ? A[v >> 6 & 63] : '='; r += '='; } return r; }

int main(int argc, char** argv) {
  Main m("M03"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); }; m.hang = 30;
  bool T = m.thorough;
  m.bounds = {"every single replacement, insertion, deletion and truncation at every byte of 6 base transcripts with each of 24 bytes" + string(T ? ", and every pair of replacements by 8 bytes within 12 bytes of each other" : ""),
              "region texts: every sequence of up to " + string(T ? "4" : "3") + " tokens out of 18 numbers (empty, negative, huge, non-finite, malformed) after each of 10 prefixes, with and without a trailing separator; every byte string of length <= " + string(T ? "6" : "5") + " over 9 bytes",
              "image texts: every combination of width, height, format, data and separators from lists of legal and illegal tokens, for all declared image kinds",
              "hello texts: every field with every hostile value, pairs of fields", "lines, keys, values and argument counts of 0 .. 100000", "whatever is returned is read, converted, encoded, compared and released through the API"};
  static const string T0 = "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle;mask;polygon;\" \"trax.image=path;memory;\" \"trax.channels=color;\" \"trax.multiobject=1\" \"a=b\" \n@@TRAX:state \"1,2,3,4\" \"k=v\" \n@@TRAX:quit \"trax.reason=r\" \n";
  static const string T1 = "@@TRAX:initialize \"1.5,2,3,4\" \"id=1\" \n@@TRAX:frame \"image:2;1;rgb;" + b64("abcdef") + "\" \"p=q\" \n@@TRAX:initialize \"m0,0,3,2,1,2,3\" \n@@TRAX:frame \"data:image/png;" + b64("\x89PNG\r\n\x1a\n12345") + "\" \n@@TRAX:quit \n";
  static const string T2 = "@@TRAX:initialize \"file:///a/b.png\" \"0,0,10,0,10,10,0,10\" \"x=\\\"\\\\y\\n\" \n@@TRAX:frame \"http://h/x\" \n@@TRAX:frame \"data:image/jpeg;" + b64("\xff\xd8\xff 567") + "\" \n@@TRAX:quit \"trax.reason=x\" \n";
  static const string T3 = "@@TRAX:hello trax.version=3 trax.region=polygon trax.image=url\n@@TRAX:state m1,1,2,2,0,4\n@@TRAX:state 5\n@@TRAX:state nan,1,1,1\n@@TRAX:quit\n";
  static const string T4 = "@@TRAX:initialize 1,2,3,4\n@@TRAX:initialize\n@@TRAX:initialize 1,2,3,4,5,6 a=1 a=2\n@@TRAX:initialize special:3\n@@TRAX:frame image:1;2;gray16;" + b64("wxyz") + " image:2;2;gray8;" + b64("wxyz") + "\n@@TRAX:quit\n";
  static const vector<string> base = {T1, T2, T0, T3, T4};
  auto play = [](Ctx& c, int k, const string& s) {
    switch (k) { case 0: server(c, 4, true, 1, s); break; case 1: server(c, 3, false, 1, s); break; case 2: client(c, s); break; case 3: client(c, s); break; case 4: server(c, 4, true, 3, s); break; }
  };
  static const string BY = string("\0\n\r\"\\=;,: -+09azAm@\x7f\x80\xff/.", 24);
  m.add("bytes", 0, 2, [play](Ctx& c) {
    int k = c.choose(5); const string& b = base[k]; size_t at = c.choose(b.size()); int op = c.choose(4); string s = b;
    if (op == 0) s[at] = BY[c.choose(24)]; else if (op == 1) s.insert(s.begin() + at, BY[c.choose(24)]); else if (op == 2) s.erase(at, 1); else s.resize(at);
    play(c, k, s); c.state(fnvs(s));
  });
  if (T) m.add("bytes-pairs", 0, 2, [play](Ctx& c) {
    static const string B2 = string("\n\"\\=;, 9", 8); int k = c.choose(5); const string& b = base[k]; size_t at = c.choose(b.size() - 12), d = 1 + c.choose(11); string s = b; s[at] = B2[c.choose(8)]; s[at + d] = B2[c.choose(8)];
    play(c, k, s); c.state(fnvs(s));
  });
  m.add("lines", 0, 2, [play](Ctx& c) {   // repetition, removal and exchange of whole lines
    int k = c.choose(5); vector<string> l; size_t b = 0; for (;;) { size_t e = base[k].find('\n', b); if (e == string::npos) break; l.push_back(base[k].substr(b, e - b + 1)); b = e + 1; }
    vector<string> all = l; all.push_back("@@TRAX:hello\n"); all.push_back("@@TRAX:state\n"); all.push_back("@@TRAX:initialize\n"); all.push_back("@@TRAX:frame\n"); all.push_back("@@TRAX:initialize 1,1,1,1\n"); string s; bool cl = k == 2 || k == 3; if (cl) s = l[0];
    for (int i = 0; i < 4; i++) s += all[c.choose(all.size())]; play(c, k, s); c.state(fnvs(s));
  });
  static const char* NUM[] = {"1", "", "-1", "0", "nan", "inf", "-inf", "3e38", "-3e38", "1e400", "2147483647", "-2147483648", "4294967297", "99999999999999999999", "1x", "2.5", "60000", " "};
  m.add("region-tokens", 0, 3, [T](Ctx& c) {
    static const char* PRE[] = {"", "m", "mask:", "poly:", "rect:", "special:", "M", "m-", ",", "rect"}; string t = PRE[c.choose(10)]; int n = c.choose(T ? 5 : 4), tail = c.choose(2);
    for (int i = 0; i < n; i++) { if (i) t += ","; t += NUM[c.choose(18)]; } if (tail) t += ","; decode(c, t);
  });
  m.add("mask-runs", 0, 3, [T](Ctx& c) {
    static const char* H[] = {"m0,0,", "mask:-5,2147483647,", "m-2147483648,-2147483648,"}, *S[] = {"2", "1", "0", "-1", "3", "70000", "2147483647", "65536", "4294967297", ""}, *R[] = {"0", "1", "2", "6", "-1", "2147483647", "4294967295", "nan", "", "x", "1.5"};
    string t = H[c.choose(3)]; t += S[c.choose(10)]; t += ","; t += S[c.choose(10)]; int n = c.choose(T ? 5 : 4); for (int i = 0; i < n; i++) { t += ","; t += R[c.choose(11)]; } decode(c, t);
  });
  m.add("long-regions", 0, 2, [](Ctx& c) {
    static const int N[] = {3, 6, 7, 1000, 1023, 1024, 4095, 4096, 4097, 20001}; static const char* P[] = {"", "poly:", "m0,0,40,30,", "rect:", "special:"}, *V[] = {"1", "0.5", "-3", "nan"}; int n = N[c.choose(10)]; string t = P[c.choose(5)]; const char* v = V[c.choose(4)]; for (int i = 0; i < n; i++) { if (i) t += ","; t += v; } decode(c, t);
  });
  m.add("region-bytes", 0, 3, [T](Ctx& c) {
    static const char* PRE[] = {"", "m", "m0,0,2,2", "poly:", "1,2,3"}; static const char al[] = "0-.,em:9n"; string t = PRE[c.choose(5)]; int n = c.choose(T ? 7 : 6); for (int i = 0; i < n; i++) t += al[c.choose(9)]; decode(c, t);
  });
  m.add("images", 0, 3, [T](Ctx& c) {
    static const char* D[] = {"2", "1", "3", "0", "-1", "2147483647", "65536", "100000", "4294967297", "", "x", "1.5"}, *F[] = {"rgb", "gray8", "gray16", "rgba", "", "RGB"};
    int kind = c.choose(4); string w;
    if (kind == 0) { w = c.flip() ? "image:" : "image://"; w += D[c.choose(12)]; w += ";"; w += D[c.choose(12)]; w += c.flip() ? ";" : ","; w += F[c.choose(6)]; int s = c.choose(3); if (s == 0) w += ";"; else if (s == 1) w += ";;"; static const int L[] = {12, 0, 1, 2, 3, 4, 6, 8, 13, 18, 4000}; string d; for (int i = 0, n = L[c.choose(11)]; i < n; i++) d += (char)(i * 7 + 200); d = b64(d); int k = c.choose(4); if (k == 1 && d.size()) d.pop_back(); if (k == 2) d += "===="; if (k == 3) d = "!" + d + "\xff*"; w += d; }
    else if (kind == 1) { static const char* M[] = {"image/png", "image/jpeg", "image/jpg", "image/gif", "", "text/plain", "image/png;base64", ";;;", ","}; w = c.flip() ? "data:" : "data"; w += M[c.choose(9)]; w += c.flip() ? ";" : ""; static const string S[] = {"", "\x89PNG\r\n\x1a\n", "\x89PNG\r\n\x1a\nIHDR....", "\xff\xd8\xff", "\xff\xd8", "\xff\xd8\xff\xe0 data", "x"}; string d = b64(S[c.choose(7)]); int k = c.choose(3); if (k == 1 && d.size()) d.pop_back(); if (k == 2) d = "\xff" + d; w += d; }
    else if (kind == 2) { static const char* U[] = {"http:", "file:", "file:/", "file://", "file:///", ":", "://", "a:", "aaaaaaaaaaaaaaaa:x", "aaaaaaaaaaaaaaa:x", "image:", "data:", "image", "/", "", "h\xfftp://x", "image:;", "image:1;1;", "image:1", "data:;", "image:1;1;gray8", "data:image/png"}; w = U[c.choose(22)]; }
    else { static const char al[] = "a:/;1 "; int n = c.choose(T ? 6 : 5); for (int i = 0; i < n; i++) w += al[c.choose(6)]; }
    string s; for (char ch : w) { if (ch == '"' || ch == '\\') s += '\\'; s += ch; }
    server(c, 3, false, 1, "@@TRAX:initialize \"" + s + "\" \"1,1,2,2\" \n@@TRAX:frame \"" + s + "\" \n", 4); c.state(fnvs(w));
  });
  m.add("hello", 0, 2, [](Ctx& c) {
    static const char* K[] = {"trax.version", "trax.region", "trax.image", "trax.channels", "trax.multiobject", "trax.name", "trax.description", "trax.family", "x", "trax."};
    static const string V[] = {"", ";", " ", "0", "-1", "5", "2147483648", "-2147483649", "99999999999999999999", "nan", "rectangle", ";;;rectangle", " ; ;", "mask; mask", string(5000, ';'), string(5000, 'x'), "color", "color;color;", "path;;", "\xff", "4", "1"};
    int a = c.choose(10), va = c.choose(22), b = c.choose(10), vb = c.choose(22); string s = "@@TRAX:hello";
    if (c.flip()) s += " trax.version=4"; s += " \"" + string(K[a]) + "=" + V[va] + "\" \"" + K[b] + "=" + V[vb] + "\"\n@@TRAX:state 1,2,3,4\n"; client(c, s); c.state(fnvs(s));
  });
  m.add("objects", 0, 2, [](Ctx& c) {   // many objects, new and old ones, in one request and in one reply
    int n = 1 + c.choose(45), who = c.choose(3), w = c.choose(4); string s;
    static const char* P[] = {"", " id=1", " \"a=b\" \"c=d\"", " =x"};
    auto init = [&](int k) { string t; for (int i = 0; i < k; i++) t += "@@TRAX:initialize \"" + std::to_string(i + 1) + ",2,3,4\"" + P[w] + "\n"; return t; };
    if (who == 0) { int more = c.choose(3) * 10 + c.choose(3); s = init(n) + "@@TRAX:frame http://x\n" + init(more) + "@@TRAX:frame http://y\n@@TRAX:quit\n"; server(c, 4, true, 1, s); }
    else if (who == 1) { s = init(n); int e = c.choose(4); static const char* E[] = {"", "@@TRAX:quit\n", "@@TRAX:initialize bad\n", "@@TRAX:state\n"}; s += E[e]; server(c, 4, true, 1, s); }
    else { int d = c.choose(3) - 1; s = "@@TRAX:hello trax.version=4 trax.multiobject=1\n"; for (int k = 0; k < 2; k++) for (int i = 0; i < n + (k ? d : 0); i++) s += "@@TRAX:state \"" + std::to_string(i + 1) + ",2,3,4\"" + P[w] + "\n"; client(c, s, n); }
    c.state(fnvs(s));
  });
  m.add("sizes", 0, 2, [play](Ctx& c) {   // long keys, values, arguments and many of them
    static const int N[] = {0, 1, 63, 64, 65, 66, 127, 255, 1023, 1024, 1025, 4090, 4095, 4096, 4097, 8192, 100000}; int n = N[c.choose(17)], k = c.choose(7), q = c.choose(2), who = c.choose(3); string Q = q ? "\"" : "", a;
    if (k == 0) a = " " + Q + string(n, 'k') + "=v" + Q; else if (k == 1) a = " " + Q + "k=" + string(n, 'v') + Q; else if (k == 2) a = " " + Q + string(n, 'a') + Q; else if (k == 3) for (int i = 0; i < n && i < 9000; i++) a += " " + Q + "a" + Q; else if (k == 4) for (int i = 0; i < n && i < 9000; i++) a += " " + Q + "k" + std::to_string(i) + "=v" + Q; else if (k == 5) a = string(n, ' ') + "x"; else a = string(n, '\\') + (q ? "n" : "");
    static const char* P[] = {"@@TRAX:frame http://x", "@@TRAX:quit", "@@TRAX:"}; int w = c.choose(3); string s = who == 2 ? "@@TRAX:hello trax.version=4" + a + "\n@@TRAX:state" + a + "\n" : string("@@TRAX:initialize 1,1,1,1\n") + P[w] + (k == 2 && w == 2 ? string(n, 'f') : a) + "\n" + string(n, 'N') + "\n@@TRAX:frame http://y\n";
    if (who == 2) client(c, s); else server(c, who ? 3 : 4, true, 1, who ? "@@TRAX:initialize http://x 1,1,1,1\n" + s : s); c.state(fnvs(s));
  });
  return m.run();
}
