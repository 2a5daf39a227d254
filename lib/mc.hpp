// Stateless model checker: exhaustive depth-first enumeration of every choice sequence of a
// "scenario", executed on the real code.  See DESIGN.md, section "Explorer".
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Violation { std::string key, msg; };
struct Skip {};   // prefix owned by another worker
struct Prune {};  // harness: this branch is outside the explored domain

static const int MAXD = 6000;
static const int MAXW = 16;
static const size_t NCLAIM = 1u << 20;
static const size_t NHASH = 1u << 22;
static const int NOUT = 256;
static const int NSAMPLE = 6;

struct Shared {
  std::atomic<uint64_t> execs, trans, states, hash_full, maxdepth;
  std::atomic<int> stop;
  struct Worker {
    std::atomic<uint64_t> seq;   // executions started (heartbeat)
    std::atomic<int> active;
    int len;
    uint64_t claim_idx;
    uint16_t ch[MAXD], ar[MAXD];
    int violated;
    char key[300], msg[6000];
  } w[MAXW];
  struct Out { std::atomic<int> used; char name[80]; std::atomic<uint64_t> n; } out[NOUT];
  struct Smp { char text[900]; } smp[NSAMPLE];
  std::atomic<uint32_t> nknown;
  struct Known { char key[300]; std::atomic<uint64_t> n; } known[64];
  std::atomic<uint8_t> claims[NCLAIM];
  std::atomic<uint64_t> hash[NHASH];
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h ? h : 1;
}
inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// printable form of arbitrary bytes
inline std::string esc(const std::string& s, size_t cap = 200) {
  std::string r; char b[8];
  for (size_t i = 0; i < s.size(); i++) {
    if (r.size() > cap) { snprintf(b, sizeof b, "..."); r += b; r += "(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char c = s[i];
    if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r;
}

struct Ctx {
  Shared* sh = nullptr; int wi = 0;
  std::vector<std::pair<uint16_t,uint16_t>> trail;  // choice, arity
  size_t pos = 0;
  int budget = 0;
  bool replay = false, tracing = false, owned = true, thorough = false;
  int split = 0; bool counted = true;
  uint64_t steps = 0;
  std::string tr;

  int choose(int n) {
    if (n <= 0) fail("harness", "choose(0)");
    if (n > 65535) fail("harness", "choose: arity too large");
    if (pos == (size_t)split && !owned && !replay) claim();
    int c;
    if (pos < trail.size()) {
      if (trail[pos].second == 0) trail[pos].second = n;
      if (trail[pos].second != n) {
        if (replay && trail[pos].first < n) trail[pos].second = n;
        else fail("harness", "nondeterministic execution: arity changed at depth " + std::to_string(pos));
      }
      c = trail[pos].first;
    } else {
      if (replay) { c = 0; trail.emplace_back(0, n); }
      else {
        if (trail.size() >= (size_t)MAXD) fail("harness", "execution too deep");
        trail.emplace_back(0, n); c = 0;
      }
      if (sh && !replay) { auto& w = sh->w[wi]; w.ch[pos] = 0; w.ar[pos] = n; w.len = pos + 1; }
    }
    pos++;
    return c;
  }
  // choice of cost: 0 is the default and free, every other value consumes one deviation
  int deviate(int n) {
    if (budget <= 0 || n <= 1) return 0;
    int c = choose(n);
    if (c) budget--;
    return c;
  }
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  // Exceptions do not unwind the stack of a simulated thread (it may be inside a destructor): the
  // scheduler takes them over and the thread is abandoned.
  std::function<void(std::exception_ptr)> escape;
  template <class E> [[noreturn]] void raise(const E& e) { if (escape) escape(std::make_exception_ptr(e)); throw e; }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { raise(Violation{key, msg}); }
  void check(bool ok, const char* key, const std::string& msg) { if (!ok) fail(key, msg); }
  void step() { steps++; }
  // Count a distinct state
  void state(uint64_t h) {
    steps++;
    if (!sh || replay) return;
    if (!h) h = 1;
    size_t i = h % NHASH;
    for (int k = 0; k < 64; k++, i = (i + 1) % NHASH) {
      uint64_t v = sh->hash[i].load(std::memory_order_relaxed);
      if (v == h) return;
      if (v == 0) {
        uint64_t z = 0;
        if (sh->hash[i].compare_exchange_strong(z, h)) { sh->states++; return; }
        if (z == h) return;
      }
    }
    sh->hash_full++;
  }
  void state(const std::string& s) { state(fnvs(s)); }
  void outcome(const std::string& name) { outcome(name.c_str()); }
  void outcome(const char* name) {
    if (!sh || replay) return;
    for (int i = 0; i < NOUT; i++) {
      auto& o = sh->out[i];
      int u = o.used.load();
      if (u == 0) {
        int z = 0;
        if (o.used.compare_exchange_strong(z, 1)) { strncpy(o.name, name, sizeof o.name - 1); o.used = 2; o.n++; return; }
      }
      while (o.used.load() == 1) ;
      if (!strncmp(o.name, name, sizeof o.name - 1)) { o.n++; return; }
    }
  }
  void trace(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    if (!tracing) return;
    char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    tr += b; tr += "; ";
    if (replay) { fprintf(stderr, "  # %s\n", b); }
  }
  void claim() {
    auto& w = sh->w[wi];
    uint64_t i = w.claim_idx++;
    bool mine = i < NCLAIM ? sh->claims[i].exchange(1) == 0 : (int)(i % MAXW) == wi;
    if (!mine) raise(Skip());
    owned = true;
  }
};

typedef std::function<void(Ctx&)> Body;
struct Scenario { std::string name; int budget; int split; Body body; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Main {
  std::string prop;
  std::vector<Scenario> sc;
  bool thorough = false;
  std::string tier = "quick", evidence, knownfile, replaydir = "/tmp", replayfile, only;
  int nworkers = 8;
  double cap = 700, hang = 20;
  std::vector<std::string> assumptions, bounds;
  std::map<std::string, std::string> known;  // key -> text
  std::function<void()> cleanup_after;  // reset harness state after each execution
  std::string traces_note;
  uint64_t extra_validated = 0;
  Shared* sh = nullptr;

  explicit Main(const char* p) : prop(p) {}
  void parse(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--tier") tier = nx(); else if (a == "--evidence") evidence = nx();
      else if (a == "--known") knownfile = nx(); else if (a == "--replaydir") replaydir = nx();
      else if (a == "--replay") replayfile = nx(); else if (a == "--only") only = nx();
      else if (a == "--workers") nworkers = atoi(nx().c_str());
      else if (a == "--cap") cap = atof(nx().c_str());
    }
    thorough = tier == "thorough";
    std::ifstream f(knownfile); std::string line;
    // format: open: property=<id> key=<key> <text>
    while (std::getline(f, line)) {
      if (line.compare(0, 5, "open:")) continue;
      std::istringstream is(line.substr(5)); std::string p, k, rest; is >> p >> k; std::getline(is, rest);
      if (p == "property=" + prop && k.compare(0, 4, "key=") == 0) known[k.substr(4)] = rest;
    }
  }
  void add(const std::string& n, int budget, int split, Body b) { sc.push_back({n, budget, split, b}); }
  void add(const std::string& n, Body b) { add(n, 0, 3, b); }

  // runs one execution with ctx.trail as forced prefix. Returns true if it was not skipped.
  bool exec(Ctx& c, const Scenario& s, Violation* v) {
    c.pos = 0; c.budget = s.budget; c.steps = 0; c.tr.clear();
    bool ok = true;
    try { s.body(c); }
    catch (Skip&) { ok = false; }
    catch (Prune&) { }
    catch (Violation& e) { if (v) *v = e; }
    if (cleanup_after) cleanup_after();
    return ok;
  }
  bool advance(Ctx& c) {
    auto& t = c.trail;
    t.resize(c.pos < t.size() ? c.pos : t.size());
    while (!t.empty() && t.back().first + 1 >= t.back().second) t.pop_back();
    if (t.empty()) return false;
    t.back().first++;
    if (t.size() <= (size_t)c.split) c.owned = false;
    return true;
  }
  void publish(Ctx& c) {
    auto& w = sh->w[c.wi];
    for (size_t i = 0; i < c.trail.size(); i++) { w.ch[i] = c.trail[i].first; w.ar[i] = c.trail[i].second; }
    w.len = c.trail.size();
  }
  void worker(int wi, const Scenario& s, const std::vector<std::pair<uint16_t,uint16_t>>* resume) {
    Ctx c; c.trail.reserve(MAXD); c.tr.reserve(1 << 16); c.sh = sh; c.wi = wi; c.split = s.split; c.thorough = thorough; c.owned = false;
    auto& w = sh->w[wi];
    if (resume) {
      c.trail = *resume; c.pos = c.trail.size(); c.owned = true;
      if (!advance(c)) _exit(0);
    } else w.claim_idx = 0;
    for (;;) {
      if (sh->stop.load()) _exit(0);
      publish(c);
      uint64_t n = ++w.seq;
      c.tracing = wi == 0 && (n & (n - 1)) == 0 && n >= 2;
      Violation v;
      bool ok = exec(c, s, &v);
      if (ok && !c.owned) {  // shorter than the split depth: everybody runs it, one counts it
        try { c.claim(); } catch (Skip&) { ok = false; }
      }
      if (ok) {
        sh->execs++; sh->trans += c.steps;
        uint64_t d = c.pos, m = sh->maxdepth; while (d > m && !sh->maxdepth.compare_exchange_weak(m, d)) ;
        if (c.tracing && !c.tr.empty()) {
          int k = 0; while ((1ull << k) < n) k++;
          snprintf(sh->smp[k % NSAMPLE].text, sizeof sh->smp[0].text, "[%s] %s", s.name.c_str(), c.tr.c_str());
        }
        if (!v.key.empty()) {
          if (known.count(v.key)) note_known(v.key);
          else {
            w.len = c.pos < c.trail.size() ? c.pos : c.trail.size();
            snprintf(w.key, sizeof w.key, "%s", v.key.c_str());
            snprintf(w.msg, sizeof w.msg, "%s", v.msg.c_str());
            w.violated = 1; sh->stop = 1; _exit(3);
          }
        }
      }
      if (!advance(c)) break;
    }
    _exit(0);
  }
  void note_known(const std::string& key) {
    for (int i = 0; i < 64; i++) {
      if (i >= (int)sh->nknown.load()) {
        uint32_t n = i;
        snprintf(sh->known[i].key, sizeof sh->known[i].key, "%s", key.c_str());
        if (sh->nknown.compare_exchange_strong(n, i + 1)) { sh->known[i].n++; return; }
      }
      if (key == sh->known[i].key) { sh->known[i].n++; return; }
    }
  }

  static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

  // Re-execute one trail in a fresh child. Returns key ("" = clean) and report.
  std::string rerun(const Scenario& s, const std::vector<std::pair<uint16_t,uint16_t>>& trail, std::string& report) {
    char errf[] = "/tmp/mcerrXXXXXX"; int fd = mkstemp(errf);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      dup2(fd, 2); close(fd);
      setpgid(0, 0);
      Ctx c; c.trail.reserve(MAXD); c.tr.reserve(1 << 16); c.replay = true; c.tracing = true; c.trail = trail; c.trail.reserve(MAXD); c.thorough = thorough; c.split = -1;
      Violation v; exec(c, s, &v);
      if (!v.key.empty()) { fprintf(stderr, "MCKEY %s\nMCMSG %s\n", v.key.c_str(), v.msg.c_str()); fflush(stderr); _exit(3); }
      _exit(0);
    }
    double t0 = now(); int st = 0; bool hung = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (now() - t0 > hang * 1.5) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
      usleep(2000);
    }
    report = slurp(errf); close(fd); unlink(errf);
    if (hung) return "hang";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    size_t k = report.rfind("MCKEY ");
    if (k != std::string::npos) { size_t e = report.find('\n', k); return report.substr(k + 6, e - k - 6); }
    return crash_key(report, st);
  }
  static std::string crash_key(const std::string& r, int st) {
    std::string kind, where;
    size_t a = r.find("ERROR: AddressSanitizer: ");
    if (a != std::string::npos) { size_t b = r.find_first_of(" \n", a + 25); kind = r.substr(a + 25, b - a - 25); }
    size_t as = r.find("Assertion `");
    if (as != std::string::npos) {
      size_t e = r.find("' failed", as); kind = "assert";
      size_t ls = r.rfind('\n', as); std::string line = r.substr(ls == std::string::npos ? 0 : ls + 1, as - ls);
      size_t f2 = line.rfind(": "), f1 = f2 == std::string::npos ? f2 : line.rfind(": ", f2 - 1);
      (void)e; if (f1 != std::string::npos) { std::string fn = line.substr(f1 + 2, f2 - f1 - 2); where = fn; }
      else where = "assert";
      std::string w; for (char ch : where) if (isalnum((unsigned char)ch) || ch == '_') w += ch; else if (ch == '(') break; else w.clear();
      return "assert:" + w;
    }
    // first frame inside the checked sources
    size_t p = 0;
    while ((p = r.find("    #", p)) != std::string::npos) {
      size_t e = r.find('\n', p); std::string l = r.substr(p, e - p); p = e == std::string::npos ? r.size() : e;
      if (l.find("/src/") != std::string::npos || l.find("/support/") != std::string::npos || l.find("/include/") != std::string::npos) {
        if (l.find("libsanitizer") != std::string::npos || l.find("/verif/") != std::string::npos) continue;
        size_t in = l.find(" in "); if (in == std::string::npos) continue;
        size_t en = l.find_first_of(" (", in + 4); where = l.substr(in + 4, en - in - 4); break;
      }
    }
    if (kind.empty()) { std::ostringstream o; if (WIFSIGNALED(st)) o << "signal" << WTERMSIG(st); else o << "exit" << WEXITSTATUS(st); kind = o.str(); }
    return "crash:" + kind + ":" + where;
  }
  static std::string jesc(const std::string& s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n";
      else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c;
    }
    return r;
  }
  std::string write_replay(const Scenario& s, const std::vector<std::pair<uint16_t,uint16_t>>& t, const std::string& key, const std::string& report) {
    mkdir(replaydir.c_str(), 0777);
    std::string p = replaydir + "/" + prop + "-" + s.name + ".replay";
    std::ofstream f(p);
    f << "property " << prop << "\nscenario " << s.name << "\ntier " << tier << "\nkey " << key << "\ntrail";
    for (auto& x : t) f << ' ' << x.first << '/' << x.second;
    f << "\nreport\n" << report << "\n";
    return p;
  }
  int mypid = getpid();
  std::string errfile(int i) { return "/tmp/mcw." + std::to_string(mypid) + "." + std::to_string(i); }
  int do_replay() {
    std::ifstream f(replayfile); std::string line, name, key; std::vector<std::pair<uint16_t,uint16_t>> t;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string w; is >> w;
      if (w == "scenario") is >> name; else if (w == "key") key = line.substr(4);
      else if (w == "trail") { std::string x; while (is >> x) { int a, b; sscanf(x.c_str(), "%d/%d", &a, &b); t.emplace_back(a, b); } }
      else if (w == "report") break;
    }
    for (auto& s : sc) if (s.name == name) {
      std::string rep, k = rerun(s, t, rep);
      printf("%s\nrecorded key: %s\nreproduced key: %s\n", rep.c_str(), key.c_str(), k.c_str());
      return k.empty() ? 0 : 1;
    }
    fprintf(stderr, "scenario %s not found\n", name.c_str());
    return 2;
  }

  int run() {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (!replayfile.empty()) return do_replay();
    double t0 = now();
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    bool violation = false, complete = true;
    std::map<std::string, uint64_t> knownseen;
    std::string viol_line, viol_json;
    std::vector<std::string> scj;
    for (auto& s : sc) {
      if (!only.empty() && s.name.find(only) == std::string::npos) continue;
      uint64_t e0 = sh->execs, tr0 = sh->trans, st0 = sh->states; double ts = now();
      memset((void*)sh->claims, 0, sizeof sh->claims);
      memset((void*)sh->w, 0, sizeof sh->w);
      sh->stop = 0; sh->maxdepth = 0;
      std::vector<pid_t> pid(nworkers, 0); std::vector<double> beat(nworkers, now()); std::vector<uint64_t> seen(nworkers, 0);
      fflush(stdout); fflush(stderr);
      auto spawn = [&](int i, const std::vector<std::pair<uint16_t,uint16_t>>* r) {
        beat[i] = now();
        pid_t p = fork();
        if (p == 0) {
          int n = open("/dev/null", O_WRONLY); dup2(n, 1);
          std::string ef = errfile(i); int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e < 0 ? n : e, 2);
          worker(i, s, r); _exit(0);
        }
        pid[i] = p;
      };
      for (int i = 0; i < nworkers; i++) spawn(i, nullptr);
      int alive = nworkers; bool capped = false;
      std::string vkey, vrep; std::vector<std::pair<uint16_t,uint16_t>> vtrail;
      while (alive) {
        bool prog = false;
        for (int i = 0; i < nworkers; i++) if (pid[i]) {
          int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
          bool hung = false;
          if (r == 0) {
            uint64_t q = sh->w[i].seq;
            if (q != seen[i]) { seen[i] = q; beat[i] = now(); continue; }
            else if (now() - beat[i] > hang) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hung = true; }
            else continue;
          }
          prog = true;
          if (r < 0) perror("waitpid");
          pid[i] = 0; alive--;
          if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          if (sh->stop && !sh->w[i].violated) continue;
          std::vector<std::pair<uint16_t,uint16_t>> t;
          for (int k = 0; k < sh->w[i].len; k++) t.emplace_back(sh->w[i].ch[k], sh->w[i].ar[k]);
          std::string rep, key;
          if (vkey.empty()) {
            key = rerun(s, t, rep);
            if (key.empty()) key = rerun(s, t, rep);
            if (key.empty()) {
              // not reproducible in isolation: state leaked between executions or machine hiccup
              if (sh->w[i].violated || !hung) { key = std::string("unreproducible:") + (sh->w[i].violated ? sh->w[i].key : "crash"); rep += sh->w[i].msg; std::ifstream ef(errfile(i)); std::stringstream es; es << ef.rdbuf(); rep += "\nworker stderr:\n" + es.str().substr(0, 4000); }
            }
            if (key.empty()) { spawn(i, &t); alive++; continue; }
            if (known.count(key)) { note_known(key); spawn(i, &t); alive++; continue; }
            vkey = key; vrep = rep; vtrail = t; sh->stop = 1;
          }
        }
        if (now() - t0 > cap && !capped) { capped = true; sh->stop = 1; }
        if (!prog) usleep(3000);
      }
      for (int i = 0; i < nworkers; i++) unlink(errfile(i).c_str());
      if (capped) complete = false;
      char b[400];
      snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"deviations\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"max_depth\":%llu,\"exhausted\":%s,\"wall_s\":%.2f}",
               jesc(s.name).c_str(), s.budget, (unsigned long long)(sh->execs - e0), (unsigned long long)(sh->trans - tr0),
               (unsigned long long)(sh->states - st0), (unsigned long long)sh->maxdepth.load(), capped || !vkey.empty() ? "false" : "true", now() - ts);
      scj.push_back(b); printf("%s\n", b);
      if (!vkey.empty()) {
        std::string p = write_replay(s, vtrail, vkey, vrep);
        printf("%s\n", vrep.substr(0, 6000).c_str());
        viol_line = "VIOLATION property=" + prop + " replay=" + p;
        viol_json = "{\"scenario\":\"" + jesc(s.name) + "\",\"key\":\"" + jesc(vkey) + "\",\"replay\":\"" + jesc(p) + "\"}";
        violation = true; break;
      }
      if (capped) break;
    }
    for (uint32_t i = 0; i < sh->nknown; i++) knownseen[sh->known[i].key] = sh->known[i].n;
    for (auto& k : knownseen) printf("KNOWN-FINDING: property=%s %s (%s; %llu executions)\n", prop.c_str(), known[k.first].c_str(), k.first.c_str(), (unsigned long long)k.second);
    // evidence
    if (!evidence.empty()) {
      std::ofstream f(evidence);
      const char* seed = getenv("VERIF_SEED");
      f << "{\"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"seed\":" << (seed ? atoi(seed) : 1) << ",\"level\":\"model_checking\",\n\"coverage\":{\"states\":" << (sh->states.load() ? sh->states.load() : sh->execs.load())
        << ",\"transitions\":" << (sh->trans.load() ? sh->trans.load() : sh->execs.load()) << ",\"executions\":" << sh->execs
        << ",\"traces_validated_against_impl\":" << sh->execs + extra_validated << ",\"exhaustive\":" << (complete && !violation ? "true" : "false") << ",\n\"samples\":[";
      bool first = true;
      for (int i = 0; i < NSAMPLE; i++) if (sh->smp[i].text[0]) { f << (first ? "" : ",\n") << "\"" << jesc(sh->smp[i].text) << "\""; first = false; }
      if (first) f << "\"(no trace recorded)\"";
      f << "],\n\"scenarios\":["; for (size_t i = 0; i < scj.size(); i++) f << (i ? ",\n" : "") << scj[i];
      f << "],\n\"outcomes\":{"; first = true;
      for (int i = 0; i < NOUT; i++) if (sh->out[i].used == 2) { f << (first ? "" : ",") << "\"" << jesc(sh->out[i].name) << "\":" << sh->out[i].n; first = false; }
      f << "}},\n\"assumptions\":["; for (size_t i = 0; i < assumptions.size(); i++) f << (i ? "," : "") << "\"" << jesc(assumptions[i]) << "\"";
      f << "],\n\"bounds\":["; for (size_t i = 0; i < bounds.size(); i++) f << (i ? "," : "") << "\"" << jesc(bounds[i]) << "\"";
      f << "],\n\"wall_s\":" << now() - t0 << ",\"violations\":" << (violation ? 1 : 0) << ",\"violation\":[" << viol_json << "]}\n";
    }
    printf("outcomes:"); for (int i = 0; i < NOUT; i++) if (sh->out[i].used == 2) printf(" %s=%llu", sh->out[i].name, (unsigned long long)sh->out[i].n);
    printf("\n%s %s: %llu executions, %llu transitions, %llu states, %.1f s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)sh->execs, (unsigned long long)sh->trans,
           (unsigned long long)sh->states, now() - t0, complete ? "" : " (time cap reached)");
    if (violation) { printf("%s\n", viol_line.c_str()); return 1; }
    return 0;
  }
};

}  // namespace mc
