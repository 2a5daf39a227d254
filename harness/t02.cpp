// T02: images and regions survive the way to OpenCV structures and back.
#include <opencv2/core/core.hpp>
#include <opencv2/imgcodecs/imgcodecs.hpp>
#include "regref.hpp"
#include <trax/opencv.hpp>
using namespace mc; using namespace ref;
typedef trax::Image Img; typedef trax::Region Reg;
static const int FMT[] = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB};
static const int CVT[] = {CV_8UC1, CV_16UC1, CV_8UC3};
static const int BPP[] = {1, 2, 3};
static const char* FN[] = {"gray8", "gray16", "rgb"};
// sample of a pixel row: position dependent, full range, channels differ
static unsigned char byte(int w, int h, int y, int i, int k) { return k == 0 ? (unsigned char)(y * 37 + i * 11 + w + 3 * h + 1) : k == 1 ? (unsigned char)((y * w * 3 + i) * 151 + 77) : (unsigned char)((y ^ i) & 1 ? 255 : 0); }
// the bytes of an image row as the row of a matrix: red and blue change places
static string row(const string& s, int f) { string r = s; if (f == 2) for (size_t i = 0; i + 2 < r.size(); i += 3) std::swap(r[i], r[i + 2]); return r; }
static string matrow(const cv::Mat& m, int y) { return string((const char*)m.ptr(y), m.cols * m.elemSize()); }
static string sz(int w, int h) { return std::to_string(w) + "x" + std::to_string(h); }
template <class F> static void guard(Ctx& c, const char* what, F f) {
  string e; try { f(); } catch (const cv::Exception& x) { e = x.what(); } catch (const std::runtime_error& x) { e = x.what(); }
  if (!e.empty()) c.fail(string("exception:") + what, string(what) + " threw: " + e);
}
static void want_mat(Ctx& c, const cv::Mat& m, int w, int h, int f, const vector<string>& rows, const char* what) {
  if (m.cols != w || m.rows != h || m.type() != CVT[f]) c.fail(string("matrix:") + FN[f], string(what) + ": " + sz(w, h) + " " + FN[f] + " became a " + sz(m.cols, m.rows) + " matrix of type " + std::to_string(m.type()));
  for (int y = 0; y < h; y++) if (matrow(m, y) != row(rows[y], f)) c.fail(string("pixels:") + FN[f], string(what) + ": row " + std::to_string(y) + " of " + sz(w, h) + " " + FN[f] + " is " + mc::esc(matrow(m, y)) + ", wanted " + mc::esc(row(rows[y], f)));
}
static void want_image(Ctx& c, const Img& im, int w, int h, int f, const vector<string>& rows, const char* what) {
  if (im.type() != TRAX_IMAGE_MEMORY) c.fail("image", string(what) + ": not a memory image");
  int W, H, F; im.get_memory_header(&W, &H, &F);
  if (W != w || H != h || F != FMT[f]) c.fail(string("image:") + FN[f], string(what) + ": " + sz(w, h) + " " + FN[f] + " became " + sz(W, H) + " format " + std::to_string(F));
  for (int y = 0; y < h; y++) { string r(im.get_memory_row(y), w * BPP[f]); if (r != rows[y]) c.fail(string("pixels:") + FN[f], string(what) + ": row " + std::to_string(y) + " of " + sz(w, h) + " " + FN[f] + " is " + mc::esc(r) + ", wanted " + mc::esc(rows[y])); }
}
static cv::Mat within(cv::Mat& big, int w, int h, int type, int margin) {   // a matrix that lies inside of a bigger one
  big = cv::Mat(h + 2 * margin, w + 2 * margin, type); memset(big.data, 0xa5, big.total() * big.elemSize());
  return big(cv::Rect(margin, margin, w, h));
}
static rg::Pix pix(const cv::Mat& m) { rg::Pix s; for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) if (m.at<unsigned char>(y, x)) s.insert({y, x}); return s; }
static rg::Pix pix(Ctx& c, const Reg& r) {
  rg::Pix s; int x, y, w, h; if (r.type() != TRAX_REGION_MASK) c.fail("region", "not a mask"); r.get_mask_header(&x, &y, &w, &h);
  for (int i = 0; i < h; i++) { const char* p = r.get_mask_row(i); for (int j = 0; j < w; j++) if (p[j]) s.insert({y + i, x + j}); }
  return s;
}
static rg::R masks(Ctx& c, int W, int H, int range, string& what) {
  int w = 1 + c.choose(W), h = 1 + c.choose(H), bits = 0; for (int i = 0; i < h; i++) bits |= c.choose(1 << w) << (i * w); int x = c.choose(2 * range + 1) - range, y = c.choose(2 * range + 1) - range, val = c.choose(2);
  string d; for (int i = 0; i < w * h; i++) d += (char)(bits >> i & 1);
  rg::R r = rg::mask(x, y, w, h, d); what = rg::desc(r);
  if (val) for (auto& b : r.md) if (b) b = (char)255;
  return r;
}
static Reg region(const rg::R& r) {
  switch (r.type) {
    case TRAX_REGION_RECTANGLE: return Reg::create_rectangle(r.v[0], r.v[1], r.v[2], r.v[3]);
    case TRAX_REGION_POLYGON: { Reg p = Reg::create_polygon((int)r.p.size()); for (size_t i = 0; i < r.p.size(); i++) p.set_polygon_point((int)i, r.p[i].first, r.p[i].second); return p; }
    case TRAX_REGION_MASK: { Reg m = Reg::create_mask(r.mx, r.my, r.mw, r.mh); for (int y = 0; y < r.mh; y++) memcpy(m.write_mask_row(y), &r.md[y * r.mw], r.mw); return m; }
  }
  return Reg::create_special(r.code);
}
int main(int argc, char** argv) {
  cv::setNumThreads(0);
  Main m("T02"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); };
  bool T = m.thorough; int N = T ? 32 : 14;
  m.bounds = {"images and matrices: every width and height 1.." + std::to_string(N) + ", three formats, three position-dependent contents, matrices on their own and inside of bigger ones; every OpenCV element type with up to four channels",
              "encoded: colour and gray PNG and JPEG of every size 1.." + std::to_string(T ? 12 : 6) + " as buffer and as file",
              "rectangles: whole coordinates -3..3 and sizes 0..4, every combination of ten fractional values; polygons of 3.." + string(T ? "5" : "4") + " points over six points",
              "masks: every mask up to " + string(T ? "4x4" : "3x3") + " at every offset -4..4, pixel values 1 and 255",
              "drawing: every mask up to 2x2 at offsets -3..3 on canvases up to " + string(T ? "5x5" : "4x4") + " of four element types; rectangles and polygons on and off the canvas"};
  m.add("image", 0, 3, [N](Ctx& c) {
    int w = 1 + c.choose(N), h = 1 + c.choose(N), f = c.choose(3), k = c.choose(3); c.trace("memory image %dx%d %s", w, h, FN[f]);
    {
      vector<string> rows(h); Img im = Img::create_memory(w, h, FMT[f]);
      for (int y = 0; y < h; y++) { for (int i = 0; i < w * BPP[f]; i++) rows[y] += (char)byte(w, h, y, i, k); memcpy(im.write_memory_row(y), rows[y].data(), rows[y].size()); }
      cv::Mat mat, again; guard(c, "image_to_mat", [&] { mat = trax::image_to_mat(im); });
      want_mat(c, mat, w, h, f, rows, "image_to_mat"); c.step();
      Img back; guard(c, "mat_to_image", [&] { back = trax::mat_to_image(mat); });
      want_image(c, back, w, h, f, rows, "mat_to_image(image_to_mat)"); want_image(c, im, w, h, f, rows, "the image converted"); c.step();
      // neither of them follows what happens to the other one
      vector<string> other(h); for (int y = 0; y < h; y++) { for (int i = 0; i < w * BPP[f]; i++) other[y] += (char)~rows[y][i]; memcpy(im.write_memory_row(y), other[y].data(), other[y].size()); }
      want_mat(c, mat, w, h, f, rows, "image_to_mat, image changed"); im = Img(); want_mat(c, mat, w, h, f, rows, "image_to_mat, image gone");
      mat.setTo(cv::Scalar::all(9)); mat = cv::Mat(); want_image(c, back, w, h, f, rows, "mat_to_image, matrix gone");
      c.state(fnvs(rows[h - 1], w * 100 + h)); c.outcome(FN[f]);
    }
    shim::check_balanced(c);
  });
  m.add("matrix", 0, 3, [N](Ctx& c) {
    int w = 1 + c.choose(N), h = 1 + c.choose(N), f = c.choose(3), k = c.choose(2), margin = c.choose(3); c.trace("matrix for %dx%d %s, placement %d, margin %d", w, h, FN[f], k, margin);
    {
      cv::Mat big, mat = within(big, w, h, CVT[f], margin); vector<string> rows(h);
      for (int y = 0; y < h; y++) { for (int i = 0; i < w * BPP[f]; i++) rows[y] += (char)byte(w, h, y, i, k); string r = row(rows[y], f); memcpy(mat.ptr(y), r.data(), r.size()); }
      cv::Mat was = big.clone(); Img im; guard(c, "mat_to_image", [&] { im = trax::mat_to_image(mat); });
      want_image(c, im, w, h, f, rows, "mat_to_image"); if (memcmp(was.data, big.data, was.total() * was.elemSize())) c.fail("source", "mat_to_image changed its argument");
      cv::Mat back; guard(c, "image_to_mat", [&] { back = trax::image_to_mat(im); }); want_mat(c, back, w, h, f, rows, "image_to_mat(mat_to_image)");
      c.step(); c.state(fnvs(rows[h - 1], w * 1000 + h * 10 + margin)); c.outcome(FN[f]);
    }
    shim::check_balanced(c);
  });
  m.add("types", 0, 1, [](Ctx& c) {   // what cannot be represented is refused
    int depth = c.choose(7), ch = 1 + c.choose(4), w = 1 + c.choose(3), h = 1 + c.choose(3), type = CV_MAKETYPE(depth, ch), f = -1; for (int i = 0; i < 3; i++) if (CVT[i] == type) f = i;
    {
      cv::Mat mat = cv::Mat::ones(h, w, type); bool threw = false; string e; Img im;
      try { im = trax::mat_to_image(mat); } catch (const std::exception& x) { threw = true; e = x.what(); }
      if (threw != (f < 0)) c.fail("type", "matrix of type " + std::to_string(type) + (threw ? " refused: " + e : " accepted"));
      threw = false; try { Reg r = trax::mat_to_region(mat); } catch (const std::exception& x) { threw = true; } if (threw != (type != CV_8UC1)) c.fail("type", "mat_to_region of type " + std::to_string(type) + (threw ? " refused" : " accepted"));
      c.outcome(f < 0 ? "refused" : "accepted");
    }
    shim::check_balanced(c);
  });
  m.add("none", 0, 1, [](Ctx& c) {
    int k = c.choose(3);
    { Img im; if (k == 1) im = Img::create_url("http://a/b"); if (k == 2) im = Img::create_path("/nonexistent/image.png"); cv::Mat mat = cv::Mat::ones(2, 2, CV_8UC1); guard(c, "image_to_mat", [&] { mat = trax::image_to_mat(im); }); if (!mat.empty()) c.fail("none", "a matrix without image"); }
    shim::check_balanced(c);
  });
  m.add("encoded", 0, 2, [T](Ctx& c) {
    int N = T ? 12 : 6, w = 1 + c.choose(N), h = 1 + c.choose(N), kind = c.choose(3), file = c.choose(2), k = c.choose(2);
    {
      cv::Mat mat(h, w, kind == 1 ? CV_8UC1 : CV_8UC3); for (int y = 0; y < h; y++) for (int i = 0; i < w * (int)mat.elemSize(); i++) mat.ptr(y)[i] = byte(w, h, y, i, k);
      vector<unsigned char> buf; cv::imencode(kind == 2 ? ".jpg" : ".png", mat, buf);
      Img im; string path = "/dev/shm/t02-" + std::to_string(getpid()) + (kind == 2 ? ".jpg" : ".png");
      if (file) { FILE* o = fopen(path.c_str(), "wb"); fwrite(buf.data(), 1, buf.size(), o); fclose(o); im = Img::create_path(path); } else im = Img::create_buffer((int)buf.size(), (const char*)buf.data());
      cv::Mat got; string e; try { got = trax::image_to_mat(im); } catch (const std::exception& x) { e = x.what(); } if (file) unlink(path.c_str());
      if (!e.empty()) c.fail("exception:encoded", e);
      cv::Mat want = cv::imdecode(buf, cv::IMREAD_COLOR); if (got.size() != want.size() || got.type() != CV_8UC3) c.fail("encoded", sz(w, h) + " became " + sz(got.cols, got.rows) + " type " + std::to_string(got.type()));
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int q = 0; q < 3; q++) { int g = got.at<cv::Vec3b>(y, x)[q], r = kind == 0 ? mat.at<cv::Vec3b>(y, x)[q] : kind == 1 ? mat.at<unsigned char>(y, x) : want.at<cv::Vec3b>(y, x)[q]; if (g != r) c.fail("encoded", "pixel " + std::to_string(x) + "," + std::to_string(y) + " of " + sz(w, h)); }
      c.state(fnv(buf.data(), buf.size())); c.outcome(kind == 0 ? "png" : kind == 1 ? "gray png" : "jpeg");
    }
    shim::check_balanced(c);
  });
  m.add("rect", 0, 2, [](Ctx& c) {
    int x = c.choose(7) - 3, y = c.choose(7) - 3, w = c.choose(5), h = c.choose(5), s = c.choose(2) ? 1 : 100000;
    cv::Rect r(x * s, y * s, w * s, h * s);
    { Reg g = trax::rect_to_region(r); float X, Y, W, H; if (g.type() != TRAX_REGION_RECTANGLE) c.fail("rect", "not a rectangle"); g.get(&X, &Y, &W, &H);
      if (X != r.x || Y != r.y || W != r.width || H != r.height) c.fail("rect", "rect_to_region"); cv::Rect b = trax::region_to_rect(g); if (b != r) c.fail("rect", "region_to_rect of " + rg::desc(rg::rect(X, Y, W, H)) + " is " + sz(b.width, b.height) + " at " + std::to_string(b.x) + "," + std::to_string(b.y)); }
    c.step(); c.state(fnv(&r, sizeof r)); shim::check_balanced(c);
  });
  static const float FV[] = {-2.75f, -1.5f, -0.25f, 0, 0.25f, 0.75f, 1.25f, 2, 5.75f, 100.25f};
  m.add("rect-fraction", 0, 2, [](Ctx& c) {   // nearest whole number
    float v[4]; for (auto& q : v) q = FV[c.choose(10)]; if (v[2] < 0 || v[3] < 0) throw Prune{};
    { Reg g = Reg::create_rectangle(v[0], v[1], v[2], v[3]); cv::Rect b = trax::region_to_rect(g); int o[4] = {b.x, b.y, b.width, b.height};
      for (int i = 0; i < 4; i++) if (std::fabs(o[i] - v[i]) > 0.5f) c.fail("rect", "region_to_rect: " + fnum(v[i]) + " became " + std::to_string(o[i])); }
    c.step(); c.state(fnv(v, sizeof v)); shim::check_balanced(c);
  });
  static const float PP[][2] = {{0, 0}, {4, 0.5f}, {-3.25f, 7}, {1e6f, -1e-3f}, {2, 2}, {-0.1f, 1e-7f}};
  m.add("points", 0, 2, [T](Ctx& c) {
    int n = 3 + c.choose(T ? 3 : 2); vector<cv::Point2f> p; vector<std::pair<float, float>> q; for (int i = 0; i < n; i++) { int k = c.choose(6); p.push_back(cv::Point2f(PP[k][0], PP[k][1])); q.push_back({PP[k][0], PP[k][1]}); }
    string d = rg::desc(rg::poly(q));
    { Reg g = trax::points_to_region(p); if (g.type() != TRAX_REGION_POLYGON || g.get_polygon_count() != n) c.fail("points", "points_to_region of " + d);
      for (int i = 0; i < n; i++) { float x, y; g.get_polygon_point(i, &x, &y); if (x != p[i].x || y != p[i].y) c.fail("points", "point " + std::to_string(i) + " of " + d); }
      vector<cv::Point2f> b = trax::region_to_points(g); if (b != p) c.fail("points", "region_to_points of " + d); }
    c.step(); c.state(d); shim::check_balanced(c);
  });
  m.add("other-kinds", 0, 2, [](Ctx& c) {   // regions of the other kinds arrive as the library converts them
    static const rg::R pool[] = {rg::rect(1, 2, 3, 4), rg::rect(-1.5f, 0.25f, 2, 7.5f), rg::rect(0, 0, 0, 0), rg::poly({{0, 0}, {4, 0}, {4, 4}}), rg::poly({{-1.5f, 2}, {3, 8.25f}, {0, 1}, {5, 5}}), rg::mask(2, 3, 2, 2, string("\1\0\1\1", 4)), rg::mask(-3, 0, 3, 1, string("\1\1\1", 3)), rg::special(0), rg::special(7)};
    const rg::R& r = pool[c.choose(9)]; int to = c.choose(2);
    {
      Reg g = region(r); trax_region* t = rg::make(r); trax_region* q = trax_region_convert(t, to ? TRAX_REGION_POLYGON : TRAX_REGION_RECTANGLE);
      if (to) {
        vector<cv::Point2f> p = trax::region_to_points(g); int n = q && trax_region_get_type(q) == TRAX_REGION_POLYGON ? trax_region_get_polygon_count(q) : 0;
        if ((int)p.size() != n) c.fail("points", "region_to_points of " + rg::desc(r) + " has " + std::to_string(p.size()) + " points, not " + std::to_string(n));
        for (int i = 0; i < n; i++) { float x, y; trax_region_get_polygon_point(q, i, &x, &y); if (x != p[i].x || y != p[i].y) c.fail("points", "point of " + rg::desc(r)); }
      } else if (q && r.type != TRAX_REGION_SPECIAL) {
        float v[4]; trax_region_get_rectangle(q, v, v + 1, v + 2, v + 3); cv::Rect b = trax::region_to_rect(g); int o[4] = {b.x, b.y, b.width, b.height};
        for (int i = 0; i < 4; i++) if (std::fabs(o[i] - v[i]) > 0.5f) c.fail("rect", "region_to_rect of " + rg::desc(r));
      }
      else if (!to) { if (trax::region_to_rect(g) != cv::Rect() || trax::region_to_rect(Reg()) != cv::Rect()) c.fail("rect", "a place for " + rg::desc(r) + " or for nothing"); }
      trax_region_release(&t); if (q) trax_region_release(&q);
    }
    c.step(); c.state(rg::desc(r)); shim::check_balanced(c);
  });
  m.add("mask", 0, 4, [T](Ctx& c) {
    string what; rg::R r = masks(c, T ? 4 : 3, T ? 4 : 3, 4, what); int margin = c.choose(2); c.trace("%s, margin %d", what.c_str(), margin);
    {
      Reg g = region(r); cv::Mat mat; guard(c, "region_to_mat", [&] { mat = trax::region_to_mat(g); });
      rg::Pix want, all = rg::pixels(r); for (auto& p : all) if (p.first >= 0 && p.second >= 0) want.insert(p);
      if (r.mx + r.mw > 0 && r.my + r.mh > 0 ? mat.cols != r.mx + r.mw || mat.rows != r.my + r.mh || mat.type() != CV_8UC1 : !mat.empty()) c.fail("mask:size", "region_to_mat of " + what + " is " + sz(mat.cols, mat.rows));
      if (pix(mat) != want) c.fail("mask:pixels", "region_to_mat of " + what);
      c.step();
      if (!mat.empty()) {
        cv::Mat big, in = within(big, mat.cols, mat.rows, CV_8UC1, margin); mat.copyTo(in);
        Reg back; guard(c, "mat_to_region", [&] { back = trax::mat_to_region(in); });
        if (pix(c, back) != want) c.fail("mask:back", "mat_to_region(region_to_mat) of " + what);
        // the region is one the library understands: its textual form denotes the same pixels
        string text = string(back); Reg parsed = Reg::create_rectangle(0, 0, 1, 1); std::istringstream is(text); is >> parsed;
        if (pix(c, parsed) != want) c.fail("mask:text", "textual form " + text + " of the region made from " + what);
        big.setTo(0); in = cv::Mat(); big = cv::Mat(); if (pix(c, back) != want) c.fail("mask:alias", what);
        c.step();
      }
    }
    c.state(what); shim::check_balanced(c);
  });
  m.add("draw-mask", 0, 4, [T](Ctx& c) {
    static const int TY[] = {CV_8UC1, CV_8UC3, CV_8UC4, CV_16UC1};
    int N = T ? 5 : 4, w = 1 + c.choose(N), h = 1 + c.choose(N), ty = TY[c.choose(4)]; string what; rg::R r = masks(c, 2, 2, 3, what); int margin = c.choose(2), width = c.choose(2) ? 1 : -1;
    what += " on " + sz(w, h) + " of type " + std::to_string(ty);
    {
      cv::Mat big, canvas = within(big, w, h, ty, margin); unsigned char* at = canvas.data; int ch = canvas.channels(); cv::Scalar color(10, 200, 30, 255);
      for (int y = 0; y < h; y++) for (int i = 0; i < w * (int)canvas.elemSize(); i++) canvas.ptr(y)[i] = byte(w, h, y, i, 0);
      cv::Mat want = big.clone(); cv::Mat win = want(cv::Rect(margin, margin, w, h));
      for (auto& p : rg::pixels(r)) if (p.first >= 0 && p.second >= 0 && p.first < h && p.second < w) for (int k = 0; k < ch; k++) { if (ty == CV_16UC1) win.ptr<unsigned short>(p.first)[p.second] = (unsigned short)color[k]; else win.ptr(p.first)[p.second * ch + k] = (unsigned char)color[k]; }
      Reg g = region(r); guard(c, "draw_region", [&] { trax::draw_region(canvas, g, color, width); });
      if (canvas.cols != w || canvas.rows != h || canvas.type() != ty) c.fail("draw:canvas", what);
      for (int y = 0; y < h; y++) if (matrow(canvas, y) != matrow(win, y)) c.fail("draw:pixels", "row " + std::to_string(y) + " after drawing " + what + " is " + mc::esc(matrow(canvas, y)) + ", wanted " + mc::esc(matrow(win, y)));
      if (canvas.data == at && memcmp(big.data, want.data, want.total() * want.elemSize())) c.fail("draw:outside", "pixels outside of the canvas changed: " + what);
    }
    c.step(); c.state(what); shim::check_balanced(c);
  });
  m.add("draw-shape", 0, 3, [](Ctx& c) {
    static const float V[] = {-5, -1, 0, 1.5f, 3, 9};
    int w = 1 + c.choose(4), h = 1 + c.choose(4), kind = c.choose(3), width = c.choose(3) - 1, margin = 1; rg::R r = rg::special(0);
    if (kind == 1) { float v[4]; for (int i = 0; i < 4; i++) v[i] = V[c.choose(6)]; if (v[2] < 0 || v[3] < 0) throw Prune{}; r = rg::rect(v[0], v[1], v[2], v[3]); }
    if (kind == 2) { vector<std::pair<float, float>> p; for (int i = 0; i < 3; i++) { int k = c.choose(9); p.push_back({V[k % 3 * 2], V[k / 3 * 2 + 1]}); } r = rg::poly(p); }
    if (kind == 1 && width == 0) width = 2;
    {
      cv::Mat big, canvas = within(big, w, h, CV_8UC3, margin); canvas.setTo(cv::Scalar(1, 2, 3)); cv::Mat was = big.clone();
      Reg g = region(r); guard(c, "draw_region", [&] { trax::draw_region(canvas, g, cv::Scalar(10, 200, 30), width); });
      if (canvas.cols != w || canvas.rows != h || canvas.type() != CV_8UC3) c.fail("draw:canvas", rg::desc(r));
      int n = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { cv::Vec3b v = canvas.at<cv::Vec3b>(y, x); if (v == cv::Vec3b(10, 200, 30)) n++; else if (v != cv::Vec3b(1, 2, 3)) c.fail("draw:colour", rg::desc(r)); }
      if (kind == 0 && n) c.fail("draw:nothing", "something was drawn for a region without place");
      if (kind == 1 && r.v[2] >= 1 && r.v[3] >= 1) { int x = (int)rg::rnd(r.v[0]), y = (int)rg::rnd(r.v[1]); if (x >= 0 && y >= 0 && x < w && y < h && canvas.at<cv::Vec3b>(y, x) != cv::Vec3b(10, 200, 30)) c.fail("draw:corner", "the corner of " + rg::desc(r) + " was not drawn"); }
      if (kind == 2) for (auto& q : r.p) { int x = (int)q.first, y = (int)q.second; if (x == q.first && y == q.second && x >= 0 && y >= 0 && x < w && y < h && canvas.at<cv::Vec3b>(y, x) != cv::Vec3b(10, 200, 30)) c.fail("draw:corner", "a corner of " + rg::desc(r) + " was not drawn"); }
      if (n) canvas.setTo(cv::Scalar(1, 2, 3)); if (memcmp(big.data, was.data, was.total() * was.elemSize())) c.fail("draw:outside", "pixels outside of the canvas changed: " + rg::desc(r));
      c.outcome(n ? "drawn" : "nothing");
    }
    c.step(); c.state(rg::desc(r) + sz(w, h)); shim::check_balanced(c);
  });
  return m.run();
}
