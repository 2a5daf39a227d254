#include "shim.hpp"
#include <dlfcn.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <ucontext.h>
#include <stdarg.h>
#include <cxxabi.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:"
         "detect_stack_use_after_return=0:malloc_context_size=2:print_legend=0:quarantine_size_mb=16:max_malloc_fill_size=0:detect_odr_violation=0";
}

namespace shim {
bool alloc_fill = true;
size_t alloc_limit = 64u << 20;
uint64_t io_calls, io_limit = 200000;
std::function<int(int)> on_accept, on_select;
std::function<int()> on_connect;

// Open-addressed table of live blocks, outside of the tracked heap itself.
struct Blk { void* p; void* ra; void* ra2; size_t n; };
static Blk* tab; static size_t cap, used, live; static uint64_t total;
static const uintptr_t TOMB = 1;
static void grow();
static void put(void* p, size_t n, void* ra, void* ra2) {
  if (!tab || used * 2 >= cap) grow();
  size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap;
  while (tab[i].p && tab[i].p != (void*)TOMB) i = (i + 1) % cap;
  if (!tab[i].p) used++;
  tab[i] = {p, ra, ra2, n}; live++; total++;
}
static void grow() {
  size_t oc = cap; Blk* o = tab;
  cap = live * 4 < 4096 ? 4096 : live * 4; used = 0; size_t l = live; uint64_t t = total;
  tab = (Blk*)calloc(cap, sizeof(Blk)); live = 0;
  for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != (void*)TOMB) put(o[i].p, o[i].n, o[i].ra, o[i].ra2);
  live = l; total = t; free(o);
}
static bool del(void* p, size_t* n = nullptr) {
  if (!tab) return false;
  size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap;
  while (tab[i].p) {
    if (tab[i].p == p) { if (n) *n = tab[i].n; tab[i].p = (void*)TOMB; live--; return true; }
    i = (i + 1) % cap;
  }
  return false;
}
void alloc_reset() {
  if (!tab) return;
  if (live) for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].p != (void*)TOMB) free(tab[i].p);
  if (used) memset(tab, 0, cap * sizeof(Blk));
  used = live = 0; total = 0;
}
size_t alloc_live() { return live; }
uint64_t alloc_total() { return total; }
std::string alloc_describe() {
  std::map<std::string, int> m;
  for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].p != (void*)TOMB) {
    char b[512] = "", b2[512] = ""; __sanitizer_symbolize_pc(tab[i].ra, "%f:%l", b, sizeof b);
    if (tab[i].ra2) __sanitizer_symbolize_pc(tab[i].ra2, "%f:%l", b2, sizeof b2);
    m[std::string(b) + " <- " + b2 + " (" + std::to_string(tab[i].n) + " bytes)"]++;
  }
  std::string r; for (auto& x : m) r += "\n    " + std::to_string(x.second) + " x " + x.first;
  return r;
}
void check_balanced(mc::Ctx& c, const char* what) {
  if (!live) return;
  if (c.replay) c.fail(what, std::to_string(live) + " block(s) allocated by the library were never released:" + alloc_describe());
  c.fail(what, "unreleased blocks");
}
static void fill(void* p, size_t n) {
  if (!p || !alloc_fill) return;
  if (n <= 8192) memset(p, 0xA5, n); else { memset(p, 0xA5, 4096); memset((char*)p + n - 4096, 0xA5, 4096); }
}
static void* do_malloc(size_t n, void* ra, void* ra2) {
  if (n > alloc_limit) { errno = ENOMEM; return nullptr; }
  void* p = malloc(n); fill(p, n); if (p) put(p, n, ra, ra2); return p;
}
void* raw_malloc(size_t n) { return do_malloc(n, __builtin_return_address(0), 0); }
void raw_free(void* p) { if (p) del(p); free(p); }

#define RA __builtin_return_address(0)
static inline void* caller2(void* fp) { void** f = (void**)fp; f = (void**)*f; return f ? f[1] : nullptr; }
#define RA2 caller2(__builtin_frame_address(0))

extern "C" {
__attribute__((noinline, optimize("no-omit-frame-pointer"))) void* mc_malloc(size_t n) { return do_malloc(n, RA, RA2); }
__attribute__((noinline, optimize("no-omit-frame-pointer"))) void* mc_calloc(size_t a, size_t b) {
  if (b && a > alloc_limit / b) { errno = ENOMEM; return nullptr; }
  void* p = calloc(a, b); if (p) put(p, a * b, RA, RA2); return p;
}
__attribute__((noinline, optimize("no-omit-frame-pointer"))) void* mc_realloc(void* q, size_t n) {
  if (n > alloc_limit) { errno = ENOMEM; return nullptr; }
  size_t o = 0; if (q) del(q, &o);
  if (!n) { free(q); return nullptr; }
  void* p = malloc(n); if (!p) { put(q, o, RA, RA2); return nullptr; }
  fill(p, n); if (q) { memcpy(p, q, o < n ? o : n); free(q); }
  put(p, n, RA, RA2); return p;
}
void mc_free(void* p) { if (p) del(p); free(p); }
__attribute__((noinline, optimize("no-omit-frame-pointer"))) char* mc_strdup(const char* s) {
  size_t n = strlen(s) + 1; char* p = (char*)do_malloc(n, RA, RA2); if (p) memcpy(p, s, n); return p;
}
__attribute__((noinline, optimize("no-omit-frame-pointer"))) char* mc_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m); char* p = (char*)do_malloc(n + 1, RA, RA2); if (p) { memcpy(p, s, n); p[n] = 0; } return p;
}
}

// ---- virtual descriptors ---------------------------------------------------------------
static std::map<int, std::shared_ptr<VFile>> vf; static int vnext = VBASE;
void vfd_reset() { vf.clear(); vnext = VBASE; io_calls = 0; io_limit = 200000; on_accept = nullptr; on_select = nullptr; on_connect = nullptr; }
int vfd_open(std::shared_ptr<VFile> f) { int fd = vnext++; vf[fd] = f; return fd; }
void vfd_map(int fd, std::shared_ptr<VFile> f) { vf[fd] = f; }
std::shared_ptr<VFile> vfd_get(int fd) { auto i = vf.find(fd); return i == vf.end() ? nullptr : i->second; }
static void tick() { if (++io_calls > io_limit) throw mc::Violation{"spin", "the library keeps issuing I/O calls without end"}; }
static bool virt(int fd) { return vf.count(fd) || (fd >= VBASE && fd < VBASE + VMAX); }

ssize_t Reader::read(void* b, size_t n) {
  if (n == 0) return 0;
  if (failed) { reads_after_end++; if (ferr) { errno = ferr; return -1; } return 0; }
  if (faults && c) {
    // 0 normal, 1 EINTR, 2 I/O error, 3 end of stream
    int d = c->deviate(4);
    if (d) c->trace("read fault %d at byte %zu", d, p->pos);
    if (d == 1) { errno = EINTR; return -1; }
    if (d == 2) { failed = true; ferr = EIO; errno = EIO; return -1; }
    if (d == 3) { failed = true; ferr = 0; return 0; }
  }
  while (p->pos >= p->data.size()) {
    if (p->err) { reads_after_end++; errno = p->err; return -1; }
    if (p->eof) { reads_after_end++; return 0; }
    if (on_empty) { on_empty(); continue; }
    throw Block();
  }
  size_t av = p->data.size() - p->pos; if (av > n) av = n;
  if (mode == ONE) av = 1;
  if (mode == CHOOSE && c && av > 1) { int d = c->deviate(3); if (d == 1) av = 1; else if (d == 2) av = (av + 1) / 2; }
  for (size_t k : cuts) if (k > p->pos && k < p->pos + av) { av = k - p->pos; break; }
  memcpy(b, p->data.data() + p->pos, av); p->pos += av;
  return av;
}
ssize_t Writer::write(const void* b, size_t n) {
  if (failed) { errno = ferr; return -1; }
  if (n == 0) return 0;
  if (faults && c) {
    int d = c->deviate(3);
    if (d) c->trace("write fault %d after byte %zu", d, p->data.size());
    if (d == 1) { errno = EINTR; return -1; }
    if (d == 2) { failed = true; errno = ferr; return -1; }
  }
  if (mode == ONE) n = 1;
  if (mode == CHOOSE && c && n > 1) { int d = c->deviate(3); if (d == 1) n = 1; else if (d == 2) n = (n + 1) / 2; }
  p->data.append((const char*)b, n);
  return n;
}

extern "C" {
ssize_t mc_read(int fd, void* b, size_t n) { if (!virt(fd)) return read(fd, b, n); tick(); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; } return f->read(b, n); }
ssize_t mc_write(int fd, const void* b, size_t n) { if (!virt(fd)) return write(fd, b, n); tick(); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; } return f->write(b, n); }
ssize_t mc_recv(int fd, void* b, size_t n, int fl) { if (!virt(fd)) return recv(fd, b, n, fl); return mc_read(fd, b, n); }
ssize_t mc_send(int fd, const void* b, size_t n, int fl) {
  if (!virt(fd)) return send(fd, b, n, fl);
  ssize_t r = mc_write(fd, b, n);
  if (r < 0 && errno == EPIPE && !(fl & MSG_NOSIGNAL)) throw mc::Violation{"sigpipe", "send() without MSG_NOSIGNAL to a closed socket: the process would die of SIGPIPE"};
  return r;
}
ssize_t mc_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (!virt(fd)) return recvfrom(fd, b, n, fl, a, l); return mc_read(fd, b, n); }
ssize_t mc_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (!virt(fd)) return sendto(fd, b, n, fl, a, l); return mc_send(fd, b, n, fl); }
int mc_shutdown(int fd, int how) { if (!virt(fd)) return shutdown(fd, how); auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; } return f->shutdown(how); }
int mc_close(int fd) {
  if (!virt(fd)) return close(fd);
  auto f = vfd_get(fd); if (!f) throw mc::Violation{"double-close", "close() of a descriptor that is not open"};
  int r = f->close(); vf.erase(fd); return r;
}
int mc_listen(int fd, int n) { if (!virt(fd)) return listen(fd, n); return 0; }
int mc_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!virt(fd)) return setsockopt(fd, l, o, v, n); return 0; }
int mc_accept(int fd, struct sockaddr* a, socklen_t* l) { if (!virt(fd)) return accept(fd, a, l); if (on_accept) return on_accept(fd); errno = EAGAIN; return -1; }
int mc_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  bool v = false; for (int i = VBASE; i < n && i < FD_SETSIZE; i++) if (r && FD_ISSET(i, r)) v = true;
  if (!v) return select(n, r, w, e, t);
  int k = on_select ? on_select(n - 1) : 1;
  if (e) FD_ZERO(e); if (w) FD_ZERO(w);
  if (k <= 0) { FD_ZERO(r); return k; }
  return 1;
}
int mc_socket(int a, int b, int c) { if (!on_connect) return socket(a, b, c); return on_connect(); }
int mc_connect(int fd, const struct sockaddr* a, socklen_t l) { if (!virt(fd)) return connect(fd, a, l); return 0; }
}

void reset_all() { alloc_reset(); vfd_reset(); }

// ---- fibers -------------------------------------------------------------------------------
struct Eh { void* caught; unsigned int uncaught; };
extern "C" void* __cxa_get_globals_wrap() { return __cxxabiv1::__cxa_get_globals(); }
struct Fiber {
  ucontext_t ctx; char* stack; size_t size; std::function<void()> fn; bool done = false, started = false; int id;
  void* fake = nullptr; Eh eh{nullptr, 0};
  std::exception_ptr ex;
};
static Fiber mainf; static Fiber* cur = &mainf; static int nextid = 1;
static const void* main_bottom; static size_t main_size;
static std::vector<char*> pool;
static Fiber* from_;
static void entry() {
  Fiber* f = cur;
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(nullptr, &b, &s);
  if (from_ == &mainf) { main_bottom = b; main_size = s; }
  f->fn();
  f->done = true;
  fiber_switch(nullptr);
  abort();
}
Fiber* fiber_new(std::function<void()> fn, size_t size) {
  Fiber* f = new Fiber; f->fn = std::move(fn); f->size = size; f->id = nextid++;
  if (!pool.empty()) { f->stack = pool.back(); pool.pop_back(); }
  else f->stack = (char*)mmap(nullptr, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  f->size = 256 * 1024;
  return f;
}
void fiber_switch(Fiber* to) {
  if (!to) to = &mainf;
  if (to == cur) return;
  Fiber* me = cur; from_ = me;
  Eh* g = (Eh*)__cxxabiv1::__cxa_get_globals();
  me->eh = *g; *g = to->eh;
  const void* bottom = to == &mainf ? main_bottom : to->stack; size_t sz = to == &mainf ? main_size : to->size;
  cur = to;
  __sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, bottom, sz);
  if (to != &mainf && !to->started) {
    to->started = true; getcontext(&to->ctx); to->ctx.uc_stack.ss_sp = to->stack; to->ctx.uc_stack.ss_size = to->size; to->ctx.uc_link = nullptr;
    makecontext(&to->ctx, entry, 0);
  }
  swapcontext(&me->ctx, &to->ctx);
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(me->fake, &b, &s);
  if (from_ == &mainf) { main_bottom = b; main_size = s; }
}
Fiber* fiber_self() { return cur == &mainf ? nullptr : cur; }
bool fiber_done(Fiber* f) { return f->done; }
int fiber_id(Fiber* f) { return f ? f->id : 0; }
void fiber_free(Fiber* f) {
  __asan_unpoison_memory_region(f->stack, f->size);
  pool.push_back(f->stack); delete f;
}
}  // namespace shim
