// Environment substituted underneath the checked objects (objcopy --redefine-syms): tracked
// allocator, virtual file descriptors, cooperative fibers.
#pragma once
#include "mc.hpp"
#include <memory>
#include <unordered_map>

namespace shim {

// ---- tracked allocator -------------------------------------------------------------
void alloc_reset();               // frees everything still tracked
size_t alloc_live();              // number of live tracked blocks
std::string alloc_describe();     // who allocated the live blocks
uint64_t alloc_total();           // allocations since reset
extern bool alloc_fill;           // fill fresh memory with a pattern
extern size_t alloc_limit;        // requests above fail (returns NULL)
void check_balanced(mc::Ctx& c, const char* what = "leak");
void* raw_malloc(size_t);         // tracked malloc for the harness (what the library would call)
void raw_free(void*);

// ---- virtual descriptors -----------------------------------------------------------
struct VFile {
  virtual ~VFile() {}
  virtual ssize_t read(void*, size_t) { errno = EBADF; return -1; }
  virtual ssize_t write(const void*, size_t) { errno = EBADF; return -1; }
  virtual int shutdown(int) { return 0; }
  virtual int close() { return 0; }
};
static const int VBASE = 600, VMAX = 400;
void vfd_reset();
int vfd_open(std::shared_ptr<VFile> f);     // returns fd
std::shared_ptr<VFile> vfd_get(int fd);
void vfd_map(int fd, std::shared_ptr<VFile> f);  // map a specific descriptor (0, 1, ...)
extern std::function<int(int)> on_accept;        // accept(server) -> fd or -1
extern std::function<int(int)> on_select;        // called with highest fd; 0 = timeout
extern std::function<int()> on_connect;          // socket()+connect(): returns fd / -1 errno
extern uint64_t io_calls;                        // virtual read/write calls since reset
extern uint64_t io_limit;                        // throws Violation("spin") beyond this

struct Block {};     // read with no data while the peer is still there

// Byte pipe with a scripted behaviour, controlled by the explorer
struct Pipe {
  std::string data; size_t pos = 0; bool eof = false; int err = 0;
};
struct Reader : VFile {   // reading end
  std::shared_ptr<Pipe> p; mc::Ctx* c = nullptr;
  enum Mode { ALL, ONE, CHOOSE } mode = ALL;
  bool faults = false;             // EINTR / error / eof deviations
  std::vector<size_t> cuts;        // explicit chunk boundaries (absolute positions)
  int reads_after_end = 0;
  bool failed = false; int ferr = 0;   // sticky
  std::function<void()> on_empty;  // called when no data: may block (fiber) or throw
  explicit Reader(std::shared_ptr<Pipe> q) : p(q) {}
  ssize_t read(void* b, size_t n) override;
};
struct Writer : VFile {
  std::shared_ptr<Pipe> p; mc::Ctx* c = nullptr;
  enum Mode { ALL, ONE, CHOOSE } mode = ALL;
  bool faults = false; bool failed = false; int ferr = EPIPE; int zero = 0;
  explicit Writer(std::shared_ptr<Pipe> q) : p(q) {}
  ssize_t write(const void* b, size_t n) override;
};

void reset_all();

// ---- fibers --------------------------------------------------------------------------
struct Fiber;
Fiber* fiber_new(std::function<void()> fn, size_t stack = 256 * 1024);
void fiber_switch(Fiber* to);     // nullptr = scheduler (main)
Fiber* fiber_self();
bool fiber_done(Fiber*);
void fiber_free(Fiber*);          // abandons a fiber that has not finished
int fiber_id(Fiber*);
}
