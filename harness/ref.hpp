// Independent reference of the TraX message format and of both protocol automata, written from
// docs/protocol.rst and trax.h.  All observations are canonical strings so that the real library
// and the reference can be compared step by step.
#pragma once
#include "mc.hpp"
#include "shim.hpp"
#include "trax.h"
#include <optional>

namespace ref {
using std::string; using std::vector; typedef std::map<string, string> Props;

struct Msg { int type = -1; vector<string> args; Props props; };

inline string esc(const string& s) {
  string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; } return r;
}
inline const char* tname(int t) { return t == TRAX_HELLO ? "hello" : t == TRAX_INITIALIZE ? "initialize" : t == TRAX_FRAME ? "frame" : t == TRAX_STATE ? "state" : t == TRAX_QUIT ? "quit" : "?"; }
// canonical encoding (all arguments quoted, properties after arguments)
inline string encode(const Msg& m) {
  string r = string("@@TRAX:") + tname(m.type) + " ";
  for (auto& a : m.args) r += "\"" + esc(a) + "\" ";
  for (auto& p : m.props) r += "\"" + p.first + "=" + esc(p.second) + "\" ";
  return r + "\n";
}
inline bool keychars(const string& k) {
  if (k.size() > 64) return false;
  for (unsigned char c : k) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '.' || c == '_')) return false;
  return true;
}
// One complete line (without its newline). nullopt: not a message / malformed, to be skipped.
inline std::optional<Msg> parse_line(const string& l) {
  const string pre = "@@TRAX:";
  if (l.compare(0, pre.size(), pre)) return {};
  size_t i = pre.size(); string t;
  while (i < l.size() && isalnum((unsigned char)l[i]) && (unsigned char)l[i] < 128) t += tolower(l[i++]);
  if (i < l.size() && l[i] != ' ') return {};
  Msg m;
  m.type = t == "hello" ? TRAX_HELLO : t == "initialize" ? TRAX_INITIALIZE : t == "frame" ? TRAX_FRAME : t == "state" || t == "status" ? TRAX_STATE : t == "quit" ? TRAX_QUIT : -1;
  if (m.type == -1) return {};
  while (true) {
    while (i < l.size() && (l[i] == ' ' || l[i] == '\r')) i++;
    if (i >= l.size()) break;
    bool q = l[i] == '"'; if (q) i++;
    string key, val; bool kw = false, first = !q;
    for (;;) {
      if (i >= l.size()) { if (q) return {}; break; }
      char c = l[i];
      if (q ? c == '"' : c == ' ') { i++; break; }
      i++;
      if (c == '\\' && !first) {
        if (i >= l.size()) return {};
        c = l[i++]; (kw ? val : key) += c == 'n' ? '\n' : c;
      } else if (c == '=' && !kw && !first && keychars(key)) kw = true;
      else (kw ? val : key) += c;
      first = false;
    }
    if (kw) m.props[key] = val; else m.args.push_back(key);
    if (q && i < l.size() && l[i] != ' ') return {};
  }
  return m;
}
// All messages of a byte stream; the incomplete last line is not delivered
inline vector<Msg> parse_stream(const string& s) {
  vector<Msg> r; size_t b = 0;
  for (;;) {
    size_t e = s.find('\n', b); if (e == string::npos) return r;
    if (auto m = parse_line(s.substr(b, e - b))) r.push_back(*m);
    b = e + 1;
  }
}

// end offset of every message delivered from the stream
inline vector<size_t> message_ends(const string& s) {
  vector<size_t> r; size_t b = 0;
  for (;;) {
    size_t e = s.find('\n', b); if (e == string::npos) return r;
    if (parse_line(s.substr(b, e - b))) r.push_back(e + 1);
    b = e + 1;
  }
}

// ---- canonical descriptions ---------------------------------------------------------
inline string dprops(const Props& p) { string r = "{"; for (auto& x : p) r += x.first + "=" + x.second + ","; return r + "}"; }
inline string dlist(const vector<string>& v) { string r = "["; for (auto& x : v) r += x + "|"; return r + "]"; }

// real objects -> description
inline Props rprops(const trax_properties* p) {
  Props m; if (!p) return m;
  trax_properties_enumerate(p, [](const char* k, const char* v, const void* o) { (*(Props*)o)[k] = v; }, &m);
  return m;
}
inline string dimage(const trax_image* i) {
  if (!i) return "none";
  switch (trax_image_get_type(i)) {
    case TRAX_IMAGE_PATH: return string("path:") + trax_image_get_path(i);
    case TRAX_IMAGE_URL: return string("url:") + trax_image_get_url(i);
    case TRAX_IMAGE_MEMORY: {
      int w, h, f; trax_image_get_memory_header(i, &w, &h, &f);
      int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
      string r = "mem:" + std::to_string(w) + "x" + std::to_string(h) + ":" + std::to_string(f) + ":";
      for (int y = 0; y < h; y++) { const char* p = trax_image_get_memory_row(i, y); if (!p) { r += "NULLROW"; break; } r.append(p, (size_t)w * bpp); }
      return r;
    }
    case TRAX_IMAGE_BUFFER: { int l, f; const char* p = trax_image_get_buffer(i, &l, &f); return "buf:" + std::to_string(f) + ":" + string(p, l); }
  }
  return "badtype" + std::to_string(trax_image_get_type(i));
}
inline string dimages(const trax_image_list* l) {
  if (!l) return "noimages";
  string r = "I(";
  static const int ch[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
  for (int c : ch) r += dimage(trax_image_list_get(l, c)) + ";";
  return r + ")";
}
inline string fnum(float f) { char b[64]; if (f != f) return "nan"; snprintf(b, sizeof b, "%.9g", f); return string(b) == "-0" ? "0" : b; }
inline string dregion(const trax_region* r) {
  if (!r) return "noregion";
  switch (trax_region_get_type(r)) {
    case TRAX_REGION_SPECIAL: return "special:" + std::to_string(trax_region_get_special(r));
    case TRAX_REGION_RECTANGLE: { float x, y, w, h; trax_region_get_rectangle(r, &x, &y, &w, &h); return "rect:" + fnum(x) + "," + fnum(y) + "," + fnum(w) + "," + fnum(h); }
    case TRAX_REGION_POLYGON: {
      string s = "poly:"; int n = trax_region_get_polygon_count(r);
      for (int i = 0; i < n; i++) { float x, y; trax_region_get_polygon_point(r, i, &x, &y); s += fnum(x) + "," + fnum(y) + ";"; } return s; }
    case TRAX_REGION_MASK: {
      int x, y, w, h; trax_region_get_mask_header(r, &x, &y, &w, &h);
      string s = "mask:" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(w) + "x" + std::to_string(h) + ":";
      for (int i = 0; i < h && w > 0; i++) { const char* p = trax_region_get_mask_row(r, i); if (!p) { s += "NULLROW"; break; } for (int k = 0; k < w; k++) s += p[k] ? '1' : '0'; } return s; }
  }
  return "badtype" + std::to_string(trax_region_get_type(r));
}
inline string dobjects(trax_object_list* l) {
  if (!l) return "noobjects";
  string r = "O("; int n = trax_object_list_count(l);
  for (int i = 0; i < n; i++) r += dregion(trax_object_list_get(l, i)) + dprops(rprops(trax_object_list_properties(l, i))) + ";";
  return r + ")";
}

// ---- wire forms with known meaning -----------------------------------------------------
struct ImgForm { string wire; int kind; string desc; };   // kind 0 = not decodable
struct RegForm { string wire; int type; string desc; };   // type 0 = not decodable

// generic image text -> description, for the textual (path / url) kinds
inline std::pair<int, string> image_meaning(const string& t) {
  size_t i = 0; while (i < 16 && i < t.size() && ((t[i] >= 'a' && t[i] <= 'z') || t[i] == '+' || t[i] == '.' || t[i] == '-' || (i && t[i] >= '0' && t[i] <= '9'))) i++;
  if (i >= 16 || i >= t.size() || t[i] != ':') return {TRAX_IMAGE_PATH, "path:" + t};
  string s = t.substr(0, i);
  if (s == "file") { string r = t.substr(i + 1); if (r.compare(0, 2, "//") == 0) r = r.substr(2); return {TRAX_IMAGE_PATH, "path:" + r}; }
  if (s == "image" || s == "data") return {-1, "?"};
  return {TRAX_IMAGE_URL, "url:" + t};
}

// ---- decoding table for arguments the scenarios use ---------------------------------------
struct Dict {
  std::map<string, std::pair<int, string>> img;   // wire -> kind, description (kind 0: undecodable)
  std::map<string, std::pair<int, string>> reg;   // wire -> type, description (type 0: undecodable)
  std::pair<int, string> image(const string& w) const { auto i = img.find(w); return i != img.end() ? i->second : image_meaning(w); }
  std::pair<int, string> region(const string& w) const { auto i = reg.find(w); return i != reg.end() ? i->second : std::pair<int, string>{0, "?"}; }
};

inline int nchannels(int c) { return ((c & 1) != 0) + ((c & 2) != 0) + ((c & 4) != 0); }

// ---- server automaton -----------------------------------------------------------------------
struct Res { int code = TRAX_ERROR; string images = "noimages", objects = "noobjects"; Props props; bool block = false; bool hit = false; };
inline bool null_props = false;   // waits do not ask for message properties
inline string dres(const Res& r) { return r.block ? "BLOCK" : "code=" + std::to_string(r.code) + " " + r.images + " " + r.objects + " " + (null_props ? "" : dprops(r.props)); }

struct Server {
  int version = 4; bool multi = false; int channels = 1; int image_formats = TRAX_IMAGE_ANY;
  int objects = 0; bool alive = true; const Dict* d = nullptr;
  bool decode_images(const vector<string>& a, string& out) const {
    out = "I("; size_t j = 0;
    for (int c = 0; c < 3; c++) {
      if (!(channels & (1 << c))) { out += "none;"; continue; }
      auto m = d->image(a[j++]); if (m.first <= 0 || !(m.first & image_formats)) return false;
      out += m.second + ";";
    }
    out += ")"; return true;
  }
  // in: messages available from position pos; eof: stream ends after them
  Res wait_sot(const vector<Msg>& in, size_t& pos, bool eof) {
    Res r; if (!alive || version >= 4) return r;
    if (pos >= in.size()) { r.block = !eof; r.hit = true; return r; }
    const Msg& m = in[pos++]; size_t n = nchannels(channels);
    if (m.type == TRAX_QUIT) { if (m.args.size()) return r; alive = false; r.code = TRAX_QUIT; r.props = m.props; return r; }
    if (m.type == TRAX_FRAME) {
      string im; if (objects == 0 || m.args.size() != n || !decode_images(m.args, im)) return r;
      r.code = TRAX_FRAME; r.images = im; r.props = m.props; return r;
    }
    if (m.type == TRAX_INITIALIZE) {
      string im; if (m.args.size() != n + 1 || !decode_images(m.args, im)) return r;
      auto g = d->region(m.args[n]); if (!g.first) return r;
      objects = 1; r.code = TRAX_INITIALIZE; r.images = im; r.objects = g.second; r.props = m.props; return r;
    }
    return r;
  }
  Res wait_mot(const vector<Msg>& in, size_t& pos, bool eof) {
    Res r; if (!alive) return r;
    size_t n = nchannels(channels); bool reset = false; vector<std::pair<string, Props>> pend;
    for (;;) {
      if (pos >= in.size()) { r.block = !eof; r.hit = true; return r; }
      const Msg& m = in[pos++];
      if (m.type == TRAX_QUIT) { if (m.args.size()) return r; alive = false; r.code = TRAX_QUIT; r.props = m.props; return r; }
      if (m.type == TRAX_INITIALIZE) {
        if (m.args.empty()) { reset = true; objects = 0; pend.clear(); continue; }
        if (m.args.size() != 1) return r;
        auto g = d->region(m.args[0]); if (!g.first) return r;
        if (!multi && objects + (int)pend.size() + 1 > 1) return r;
        pend.push_back({g.second, m.props}); continue;
      }
      if (m.type == TRAX_FRAME) {
        if (objects + pend.size() == 0) return r;
        string im; if (m.args.size() != n || !decode_images(m.args, im)) return r;
        r.code = objects == 0 && !pend.empty() ? TRAX_INITIALIZE : TRAX_FRAME; r.images = im; r.props = m.props;
        if (!pend.empty()) { r.objects = "O("; for (auto& p : pend) r.objects += p.first + dprops(p.second) + ";"; r.objects += ")"; }
        objects += pend.size(); return r;
      }
      return r;
    }
    (void)reset;
  }
};

// performs one real wait on a server handle and describes it
inline Res real_wait_sot(trax_handle* h) {
  trax_image_list* im = nullptr; trax_region* rg = nullptr; trax_properties* p = trax_properties_create();
  Res r; r.code = trax_server_wait_sot(h, &im, &rg, null_props ? nullptr : p);
  r.images = dimages(im); r.objects = rg ? dregion(rg) : "noobjects"; r.props = rprops(p);
  if (im) { trax_image_list_clear(im); trax_image_list_release(&im); }
  if (rg) trax_region_release(&rg);
  trax_properties_release(&p); return r;
}
inline Res real_wait_mot(trax_handle* h) {
  trax_image_list* im = nullptr; trax_object_list* o = nullptr; trax_properties* p = trax_properties_create();
  Res r; r.code = trax_server_wait_mot(h, &im, &o, null_props ? nullptr : p);
  r.images = dimages(im); r.objects = dobjects(o); r.props = rprops(p);
  if (im) { trax_image_list_clear(im); trax_image_list_release(&im); }
  if (o) trax_object_list_release(&o);
  trax_properties_release(&p); return r;
}

// ---- client automaton -----------------------------------------------------------------------
struct Client {
  int version = 4; bool multi = false; int channels = 1; int objects = 0; bool alive = true; const Dict* d = nullptr;
  Res wait(const vector<Msg>& in, size_t& pos, bool eof) {
    Res r; if (!alive || objects == 0) return r;
    string o = "O(";
    for (int i = 0; i < objects; i++) {
      if (pos >= in.size()) { r.block = !eof; r.hit = true; return r; }
      const Msg& m = in[pos++];
      if (m.type == TRAX_QUIT) { if (m.args.size()) return r; alive = false; r.code = TRAX_QUIT; r.props = m.props; return r; }
      if (m.type != TRAX_STATE || m.args.size() != 1) return r;
      auto g = d->region(m.args[0]); if (!g.first) return r;
      o += g.second + dprops(m.props) + ";";
    }
    r.code = TRAX_STATE; r.objects = o + ")"; return r;
  }
};
inline Res real_client_wait(trax_handle* h) {
  trax_object_list* o = nullptr; trax_properties* p = trax_properties_create();
  Res r; r.code = trax_client_wait(h, &o, null_props ? nullptr : p);
  r.objects = dobjects(o); r.props = rprops(p);
  if (o) trax_object_list_release(&o);
  trax_properties_release(&p); return r;
}

// messages as a comparable string
inline string dmsg(const Msg& m) { return string(tname(m.type)) + dlist(m.args) + dprops(m.props); }
inline string dmsgs(const vector<Msg>& v) { string r; for (auto& m : v) r += dmsg(m) + "\n"; return r; }

// ---- session scaffolding ----------------------------------------------------------------------
using shim::Pipe; using shim::Reader; using shim::Writer;
struct Log { string data; bool flushed = true; vector<size_t> flush_at; };
inline void logcb(const char* s, int n, void* o) {
  Log* l = (Log*)o; if (!s) { l->flush_at.push_back(l->data.size()); return; } l->data.append(s, n);
}
struct Peer {   // one real handle over virtual streams
  std::shared_ptr<Pipe> in = std::make_shared<Pipe>(), out = std::make_shared<Pipe>();
  std::shared_ptr<Reader> rd; std::shared_ptr<Writer> wr; int fin, fout; Log log; trax_handle* h = nullptr;
  Peer() { init(); }
  Peer(std::shared_ptr<Pipe> i, std::shared_ptr<Pipe> o) : in(i), out(o) { init(); }
  void init() { rd = std::make_shared<Reader>(in); wr = std::make_shared<Writer>(out); fin = shim::vfd_open(rd); fout = shim::vfd_open(wr); }
  trax_logging logging() { return trax_logger_setup(logcb, &log, 0); }
  void server(int version, bool multi, int channels, int region_formats = TRAX_REGION_ANY, int image_formats = TRAX_IMAGE_ANY) {
    trax_metadata* m = trax_metadata_create(region_formats, image_formats, channels, nullptr, nullptr, nullptr, multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    h = trax_server_setup_file_v(m, fin, fout, logging(), version);
    trax_metadata_release(&m);
  }
  void client() { h = trax_client_setup_file(fin, fout, logging()); }
};
inline string hello(int version, bool multi, int channels, const string& regions = "rectangle;polygon;mask;", const string& images = "path;url;memory;buffer;") {
  Msg m; m.type = TRAX_HELLO; m.props["trax.version"] = std::to_string(version); m.props["trax.region"] = regions; m.props["trax.image"] = images;
  string c; if (channels & 1) c += "color;"; if (channels & 2) c += "depth;"; if (channels & 4) c += "ir;"; m.props["trax.channels"] = c;
  if (multi) m.props["trax.multiobject"] = "1";
  return encode(m);
}
inline trax_properties* mkprops(const Props& p) { trax_properties* r = trax_properties_create(); for (auto& x : p) trax_properties_set(r, x.first.c_str(), x.second.c_str()); return r; }
}  // namespace ref
