// I02: image and image-list accessors address exactly the declared pixels.
#include "ref.hpp"
using namespace mc; using namespace ref;
static const int FMT[] = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB};
static const int BPP[] = {1, 2, 3};
int main(int argc, char** argv) {
  Main m("I02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int N = T ? 24 : 12;
  m.bounds = {"rows: every width and height 1.." + std::to_string(N) + ", three formats, every order of writing up to 3 rows (4 thorough)",
              "list: every sequence of " + string(T ? "6" : "4") + " set/unset/clear operations over the three channels and three unknown channels",
              "content: path/URL strings of every length 0..40, buffers of every length 5..80 for JPEG and PNG signatures"};
  m.add("rows", 0, 3, [N, T](Ctx& c) {
    int w = 1 + c.choose(N), h = 1 + c.choose(N), f = c.choose(3), b = BPP[f];
    trax_image* im = trax_image_create_memory(w, h, FMT[f]);
    int W, H, F; trax_image_get_memory_header(im, &W, &H, &F);
    if (W != w || H != h || F != FMT[f] || trax_image_get_type(im) != TRAX_IMAGE_MEMORY) c.fail("header", "header is " + std::to_string(W) + "x" + std::to_string(H));
    string mem(w * h * b, 0);
    char* base = trax_image_write_memory_row(im, 0);
    for (int y = 0; y < h; y++) { char* p = trax_image_write_memory_row(im, y); if (p != trax_image_get_memory_row(im, y)) c.fail("row", "read and write row differ"); if (p - base != (long)y * w * b) c.fail("row", "row " + std::to_string(y) + " of " + std::to_string(w) + "x" + std::to_string(h) + " format " + std::to_string(F) + " starts at byte " + std::to_string(p - base)); for (int i = 0; i < w * b; i++) { p[i] = mem[y * w * b + i] = (char)(y * 31 + i * 7 + 1); } }
    for (int k = 0; k < (T ? 4 : 3); k++) {
      int y = c.choose(h); char* p = trax_image_write_memory_row(im, y); for (int i = 0; i < w * b; i++) p[i] = mem[y * w * b + i] = (char)(200 - k * 50 - i);
      for (int r = 0; r < h; r++) if (memcmp(trax_image_get_memory_row(im, r), &mem[r * w * b], w * b)) c.fail("content", "row " + std::to_string(r) + " after writing row " + std::to_string(y) + " of " + std::to_string(w) + "x" + std::to_string(h));
      c.step();
    }
    c.state(fnvs(mem, w * 100 + h)); c.outcome(f == 0 ? "gray8" : f == 1 ? "gray16" : "rgb"); trax_image_release(&im); if (im) c.fail("release", "kept"); shim::check_balanced(c);
  });
  m.add("list", 0, 2, [T](Ctx& c) {
    static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR, 0, 3, 8, -1};
    trax_image_list* l = trax_image_list_create(); trax_image* pool[2]; pool[0] = trax_image_create_path("a"); pool[1] = trax_image_create_url("b:c");
    trax_image* ref[3] = {};
    for (int i = 0; i < 3; i++) if (trax_image_list_get(l, CH[i])) c.fail("list", "fresh list not empty");
    for (int k = 0; k < (T ? 6 : 4); k++) {
      int ch = c.choose(7), v = c.choose(3); trax_image* im = v == 2 ? nullptr : pool[v];
      trax_image_list_set(l, im, CH[ch]); if (ch < 3) ref[ch] = im;
      for (int i = 0; i < 7; i++) if (trax_image_list_get(l, CH[i]) != (i < 3 ? ref[i] : nullptr)) c.fail("list", "channel " + std::to_string(CH[i]) + " after setting channel " + std::to_string(CH[ch]));
      c.step(); c.state(fnv(ref, sizeof ref));
    }
    if (c.choose(2)) {   // clearing releases what is stored: store distinct images only
      for (int i = 0; i < 3; i++) trax_image_list_set(l, nullptr, CH[i]);
      trax_image_list_set(l, pool[0], CH[0]); trax_image_list_set(l, pool[1], CH[2]);
      trax_image_list_clear(l); for (int i = 0; i < 3; i++) if (trax_image_list_get(l, CH[i])) c.fail("clear", "not empty");
      trax_image_list_clear(l);
    } else for (auto& p : pool) trax_image_release(&p);
    trax_image_list_release(&l); if (l) c.fail("release", "kept"); shim::check_balanced(c);
  });
  m.add("count", 0, 1, [](Ctx& c) { int ch = c.choose(8); if (trax_image_list_count(ch) != nchannels(ch)) c.fail("count", std::to_string(ch)); });
  m.add("content", 0, 1, [](Ctx& c) {
    int kind = c.choose(4); string s;
    if (kind < 2) {
      int n = c.choose(41); for (int i = 0; i < n; i++) s += (char)(1 + (i * 37 + n) % 255);
      trax_image* im = kind ? trax_image_create_url(s.c_str()) : trax_image_create_path(s.c_str());
      if (trax_image_get_type(im) != (kind ? TRAX_IMAGE_URL : TRAX_IMAGE_PATH) || s != (kind ? trax_image_get_url(im) : trax_image_get_path(im))) c.fail("content", mc::esc(s));
      trax_image_release(&im);
    } else {
      int n = 5 + c.choose(76); s = kind == 2 ? string("\xff\xd8\xff\xe0", 4) : string("\x89PNG", 4); while ((int)s.size() < n) s += (char)(s.size() * 11);
      trax_image* im = trax_image_create_buffer(n, s.data()); int l, f; const char* p = trax_image_get_buffer(im, &l, &f);
      if (trax_image_get_type(im) != TRAX_IMAGE_BUFFER || l != n || f != (kind == 2 ? TRAX_IMAGE_BUFFER_JPEG : TRAX_IMAGE_BUFFER_PNG) || memcmp(p, s.data(), n)) c.fail("content", "buffer of " + std::to_string(n));
      trax_image_release(&im);
    }
    if (trax_image_get_type(nullptr) != TRAX_IMAGE_EMPTY) c.fail("type", "NULL image");
    c.state(s); shim::check_balanced(c);
  });
  return m.run();
}
