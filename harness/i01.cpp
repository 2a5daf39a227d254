// I01: images of every kind cross the wire bit-exactly; the wire text is the documented encoding.
#include "ref.hpp"
using namespace mc; using namespace ref;
static const int FMT[] = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB};
static const int BPP[] = {1, 2, 3}; static const char* FN[] = {"gray8", "gray16", "rgb"};
static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};

static const int T_BIG = 4 + 27;   // 2^8 .. 2^16
static string b64(const string& s) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0; int n = std::min<size_t>(3, s.size() - i);
    for (int k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
    for (int k = 0; k < 4; k++) r += k <= n ? t[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return r;
}
struct Img { trax_image* im; string desc, wire; };
static Img mem(int w, int h, int f, const string& data) {
  Img i; i.im = trax_image_create_memory(w, h, FMT[f]);
  for (int y = 0; y < h; y++) memcpy(trax_image_write_memory_row(i.im, y), data.data() + (size_t)y * w * BPP[f], (size_t)w * BPP[f]);
  i.desc = "mem:" + std::to_string(w) + "x" + std::to_string(h) + ":" + std::to_string(FMT[f]) + ":" + data;
  i.wire = "image:" + std::to_string(w) + ";" + std::to_string(h) + ";" + FN[f] + ";" + b64(data); return i;
}
static Img buf(bool png, const string& tail, int marker = 0) {   // (a JPEG file may begin with other segments than the one of JFIF)
  static const char* M[] = {"\xe0", "\xe1", "\xdb", "\xfe", "\xee", "\xc0"}; string d = (png ? string("\x89PNG", 4) : string("\xff\xd8\xff", 3) + M[marker]) + tail;
  Img i; i.im = trax_image_create_buffer(d.size(), d.data()); i.desc = "buf:" + std::to_string(png ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG) + ":" + d;
  i.wire = string("data:image/") + (png ? "png;" : "jpeg;") + b64(d); return i;
}
static Img path(const string& s) { return {trax_image_create_path(s.c_str()), "path:" + s, "file://" + s}; }
static Img url(const string& s) { return {trax_image_create_url(s.c_str()), "url:" + s, s}; }

// sends the images on their channels (as initialize + frame) and receives them
static void roundtrip(Ctx& c, vector<Img> v, int channels, int version, bool one = false, bool raw = true) {
  auto a = std::make_shared<Pipe>(), b = std::make_shared<Pipe>(); Peer s(a, b), k(b, a);
  s.server(version, version >= 4, channels); k.client(); if (!k.h) c.fail("setup", "handshake");
  if (one) s.rd->mode = Reader::ONE;
  trax_image_list* il = trax_image_list_create(); size_t j = 0; string e = "I("; Msg fr; fr.type = TRAX_FRAME;
  for (int i = 0; i < 3; i++) if (channels & CH[i]) { trax_image_list_set(il, v[j].im, CH[i]); e += v[j].desc + ";"; fr.args.push_back(v[j].wire); j++; } else e += "none;";
  e += ")";
  trax_object_list* ol = trax_object_list_create(1); trax_region* r = trax_region_create_rectangle(1, 2, 3, 4); trax_object_list_set(ol, 0, r); trax_region_release(&r);
  if (trax_client_initialize(k.h, il, ol, nullptr) != TRAX_OK) c.fail("refused", "initialize");
  for (int i = 0; i < 2; i++) {
    size_t at = a->data.size();
    if (i && trax_client_frame(k.h, il, nullptr, nullptr) != TRAX_OK) c.fail("refused", "frame");
    // the documented text is on the wire
    if (raw && i) { auto ms = parse_stream(a->data.substr(at)); if (ms.size() != 1 || dmsg(ms[0]) != dmsg(fr)) c.fail("encoding", "expected " + mc::esc(dmsg(fr), 300) + "\n  wire     " + mc::esc(a->data.substr(at), 400)); }
    Res x = version >= 4 ? real_wait_mot(s.h) : real_wait_sot(s.h); c.step();
    if (x.code != (i ? TRAX_FRAME : TRAX_INITIALIZE) || x.images != e) c.fail("image", "sent " + mc::esc(e, 400) + "\n  received code " + std::to_string(x.code) + " " + mc::esc(x.images, 400) + (s.h->error ? s.h->error : ""));
  }
  c.state(fnvs(e)); c.outcome(std::to_string(v.size()) + " channel " + v[0].desc.substr(0, 4));
  trax_image_list_clear(il); trax_image_list_release(&il); trax_object_list_release(&ol); a->eof = b->eof = true; trax_cleanup(&k.h); trax_cleanup(&s.h); shim::check_balanced(c);
}
// decodes the documented text sent by some other peer
static void decode(Ctx& c, const string& wire, const string& desc) {
  Peer p; p.server(3, false, 1); Msg i; i.type = TRAX_INITIALIZE; i.args = {wire, "1,2,3,4"}; p.in->data = encode(i); p.in->eof = true;
  Res x = real_wait_sot(p.h); string e = "I(" + desc + ";none;none;)"; c.step();
  if (x.code != TRAX_INITIALIZE || x.images != e) c.fail("decode", "text " + mc::esc(wire, 300) + "\n  expected " + mc::esc(e, 300) + "\n  got code " + std::to_string(x.code) + " " + mc::esc(x.images, 300));
  c.state(fnvs(e)); trax_cleanup(&p.h); shim::check_balanced(c);
}

int main(int argc, char** argv) {
  Main m("I01"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int N = T ? 64 : 24, BL = T ? 12400 : 4200;
  m.bounds = {"memory images of every size up to " + std::to_string(N) + "x" + std::to_string(N) + ", three formats, two contents", "memory images of 2^8-1 .. 2^16+1 pixels in one direction and of up to 2.9 million pixels; encoded buffers of 2^12 .. 2^21 bytes", "every byte value at every offset of a 5x2 RGB image",
    "encoded buffers of every length 5.." + std::to_string(BL) + " (and around every multiple of 1024 up to 12400)", "every path/URL of up to 3 (4) atoms of a hostile alphabet",
    "every kind on every channel of every channel subset, versions 1,3,4"};
  m.add("memory", 0, 3, [N](Ctx& c) {
    int w = 1 + c.choose(N), h = 1 + c.choose(N), f = c.choose(3), k = c.choose(2); string d; for (int i = 0; i < w * h * BPP[f]; i++) d += (char)(k ? i * 37 + w : i % 5 == 0 ? 0 : 255 - i);
    roundtrip(c, {mem(w, h, f, d)}, 1, 4);
  });
  m.add("big", 0, 1, [](Ctx& c) {   // around every power of two in one direction, and as many pixels as a camera has
    int big = c.choose(T_BIG), w, h, f = c.choose(3); static const int P[][2] = {{1920, 1080}, {1024, 1024}, {1025, 1365}, {4100, 700}};
    if (big < 4) { w = P[big][0]; h = P[big][1]; } else { int n = (1 << (8 + (big - 4) / 3)) + (big - 4) % 3 - 1, o = 1 + c.choose(2); if (c.flip()) w = n, h = o; else w = o, h = n; }
    string d((size_t)w * h * BPP[f], 0); for (size_t i = 0; i < d.size(); i++) d[i] = (char)(i * 37 + i / 251 + i / 65537); roundtrip(c, {mem(w, h, f, d)}, 1, 4, false, big >= 4);
  });
  m.add("bigbuffer", 0, 1, [](Ctx& c) { int n = (1 << (12 + c.choose(10))) + c.choose(9) - 8, png = c.choose(2); string t; for (int i = 0; i < n; i++) t += (char)(i * 73 + i / 257 + n); roundtrip(c, {buf(png, t)}, 1, 3); });
  m.add("bytes", 0, 1, [](Ctx& c) { int v = c.choose(256), at = c.choose(30); string d(30, (char)(255 - v)); d[at] = v; Img i = mem(5, 2, 2, d); roundtrip(c, {i}, 1, 3); });
  m.add("buffer", 0, 1, [BL](Ctx& c) { int kind = c.choose(7), png = kind == 0, n = 1 + c.choose(BL - 4); string t; for (int i = 0; i < n; i++) t += (char)(i * 73 + n); roundtrip(c, {buf(png, t, png ? 0 : kind - 1)}, 1, 3); });
  m.add("boundaries", 0, 1, [](Ctx& c) { int k = 1 + c.choose(12), d = c.choose(17) - 8, sh = c.choose(2); int enc = k * 1024 + d, n = enc * 3 / 4 - 4; string t; for (int i = 0; i < n; i++) t += (char)(i * 73 + n); roundtrip(c, {buf(false, t)}, 1, 4, sh); });
  m.add("text", 0, 2, [T](Ctx& c) {
    static const vector<string> at = {"a", ":", "/", " ", "\"", "\\", "=", "\n", ";", "%", "\xff", "file:", "//", "A"};
    int k = c.choose(2), n = c.choose(T ? 5 : 4); string s; for (int i = 0; i < n; i++) s += c.pick(at);
    if (k) roundtrip(c, {url("http" + string(":") + s)}, 1, 3);
    else roundtrip(c, {path(s)}, 1, 4);
  });
  m.add("url-schemes", 0, 1, [](Ctx& c) {
    static const vector<string> sch = {"http", "https", "s3", "rtsp", "a", "git+ssh", "x-y.z", "fifteencharsxxx", "filex", "images", "datax", "h264"};
    static const vector<string> rest = {"", "//h/p", ":", "a b"}; roundtrip(c, {url(c.pick(sch) + ":" + c.pick(rest))}, 1, 3);
  });
  m.add("channels", 0, 2, [](Ctx& c) {
    static const int V[] = {1, 3, 4}; int ch = 1 + c.choose(7), v = V[c.choose(3)]; if (v == 1 && ch != 1) return;
    vector<Img> im; for (int i = 0; i < nchannels(ch); i++) switch (c.choose(6)) {
      case 0: im.push_back(path("/p/" + std::to_string(i))); break; case 1: im.push_back(url("http://u/" + std::to_string(i))); break;
      case 2: im.push_back(mem(2, 1, 0, string(1, i) + "x")); break; case 3: im.push_back(mem(1, 2, 1, "ab\xff" + string(1, i))); break; case 4: im.push_back(mem(1, 1, 2, "rg" + string(1, i))); break;
      case 5: im.push_back(buf(i & 1, string(1, i))); break; }
    roundtrip(c, im, ch, v);
  });
  // texts other implementations may send
  m.add("decode", 0, 1, [T](Ctx& c) {
    int k = c.choose(6);
    if (k < 3) { int n = 1 + c.choose(T ? 64 : 24), pad = c.choose(2); string d; for (int i = 0; i < n * BPP[k]; i++) d += (char)(i * 51 + n); string b = b64(d); if (pad) while (b.size() && b.back() == '=') b.pop_back();
      decode(c, "image:" + std::to_string(n) + ";1;" + FN[k] + ";" + b, "mem:" + std::to_string(n) + "x1:" + std::to_string(FMT[k]) + ":" + d); }
    else if (k < 5) { int n = 1 + c.choose(40), pad = c.choose(2); string d; for (int i = 0; i < n; i++) d += (char)(i * 51 + n); string b = b64(d); if (pad) while (b.size() && b.back() == '=') b.pop_back();
      decode(c, string("data:image/") + (k == 3 ? "png;" : "jpeg;") + b, "buf:" + std::to_string(k == 3 ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG) + ":" + d); }
    else { static const vector<std::pair<string, string>> t = {{"/a/b.jpg", "path:/a/b.jpg"}, {"file:/a", "path:/a"}, {"file:///a:b", "path:/a:b"}, {"file://a", "path:a"}, {"a b.jpg", "path:a b.jpg"}, {"C:\\x", "path:C:\\x"}, {"http://h:80/p:q", "url:http://h:80/p:q"}, {"averyveryverylongscheme:x", "path:averyveryverylongscheme:x"}};
      auto& p = c.pick(t); decode(c, p.first, p.second); }
  });
  return m.run();
}
