// A virtual operating system underneath the checked code: descriptors, pipes, sockets, processes,
// signals, working directory. Include in one file of a harness; symbols of the checked objects are
// redirected to the vo_* functions (see VOS in checks.py). With a scheduler (sched.hpp) every call is
// a scheduling point and may block; without one a call that would block is a violation.
#pragma once
#include "sched_pthread.hpp"
#include <spawn.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <poll.h>
#include <fcntl.h>
#include <deque>
namespace vos {
using std::string; using std::vector; using std::shared_ptr;
struct File { bool nonblock = false; int owner = -1; string what; virtual ~File() {} virtual bool rd() { return false; } virtual bool wr() { return false; }
  virtual ssize_t get(char*, size_t) { errno = EBADF; return -1; } virtual ssize_t put(const char*, size_t) { errno = EBADF; return -1; } virtual void shut() {} };
typedef shared_ptr<File> F;
struct Pipe { string data; size_t cap = 65536; int readers = 0, writers = 0; };
struct PR : File { shared_ptr<Pipe> p; PR(shared_ptr<Pipe> q) : p(q) { p->readers++; what = "pipe reader"; } ~PR() { p->readers--; } bool rd() { return !p->data.empty() || !p->writers; }
  ssize_t get(char* b, size_t n) { size_t k = std::min(n, p->data.size()); memcpy(b, p->data.data(), k); p->data.erase(0, k); return k; } };
struct PW : File { shared_ptr<Pipe> p; PW(shared_ptr<Pipe> q) : p(q) { p->writers++; what = "pipe writer"; } ~PW() { p->writers--; } bool wr() { return p->data.size() < p->cap || !p->readers; }
  ssize_t put(const char* b, size_t n) { if (!p->readers) { errno = EPIPE; return -1; } size_t k = std::min(n, p->cap - p->data.size()); p->data.append(b, k); return k; } };
struct Conn : File { shared_ptr<Pipe> in, out; bool down = false; Conn(shared_ptr<Pipe> i, shared_ptr<Pipe> o) : in(i), out(o) { in->readers++; out->writers++; what = "connection"; }
  void shut() { if (!down) { down = true; in->readers--; out->writers--; } } ~Conn() { shut(); }
  bool rd() { return down || !in->data.empty() || !in->writers; } bool wr() { return down || out->data.size() < out->cap || !out->readers; }
  ssize_t get(char* b, size_t n) { if (down) return 0; size_t k = std::min(n, in->data.size()); memcpy(b, in->data.data(), k); in->data.erase(0, k); return k; }
  ssize_t put(const char* b, size_t n) { if (down || !out->readers) { errno = EPIPE; return -1; } size_t k = std::min(n, out->cap - out->data.size()); out->data.append(b, k); return k; } };
struct Sock : File { int port = 0; bool listening = false, down = false; std::deque<F> q; Sock() { what = "socket"; } bool rd() { return listening && (down || !q.empty()); } void shut() { down = true; q.clear(); } };
struct Null : File { Null() { what = "standard stream"; } bool rd() { return true; } bool wr() { return true; } ssize_t get(char*, size_t) { return 0; } ssize_t put(const char*, size_t n) { return n; } };
enum { RUN, STOPPED, ZOMBIE, REAPED };
struct Action { int kind, a, b; };   // 0 close, 1 dup2
struct Proc {
  int pid = 0; string program, cwd; vector<string> argv, env; std::map<int, F> fds; int state = RUN, status = 0; int signals = 0, terms = 0, kills = 0; bool path = true, told = false; sched::Thread* t = nullptr;
  int on_term = 0;    // 0 dies, 1 ignores, 2 exits normally, 3 dies later
  bool alive() { return state < ZOMBIE; }
  const char* getenv(const string& k) { for (auto& e : env) if (e.compare(0, k.size() + 1, k + "=") == 0) return e.c_str() + k.size() + 1; return nullptr; }
};
struct OS {
  mc::Ctx& c; std::map<int, F> fds; std::map<int, bool> cloexec; std::vector<shared_ptr<Proc>> procs; string cwd = "/home/user"; std::set<string> dirs{"/home/user", "/data", "/data/sub", "/home/user/sub", "/"};
  std::map<const void*, vector<Action>> actions; std::set<int> busy_ports; int calls = 0, spawns = 0, next_pid = 1001; size_t cap = 65536; bool pipe_ignored = false; std::map<int, int> mask, pending;
  std::function<void(const char*)> event;              // before every call
  std::function<int(const char*)> fault;               // errno to fail with, 0 = none
  std::function<int(Proc&)> on_spawn;                  // returns errno or 0; may start a thread
  std::function<void(Proc&, int)> on_signal; std::function<void()> on_block;
  bool strict = false;   // using a descriptor that is not open is a violation
  F use(int fd, const char* what) { F f = at(fd); if (!f && strict && !child()) c.fail("descriptor", string(what) + " uses descriptor " + std::to_string(fd) + ", which is not open"); return f; }
  std::map<sched::Thread*, F> held;   // what a blocked call uses; a process that ends lets go of it
  bool autoreap = false; int last_port = 0;
  static OS*& self() { static OS* o = nullptr; return o; }
  explicit OS(mc::Ctx& c_) : c(c_) { self() = this; for (int i = 0; i < 3; i++) fds[i] = std::make_shared<Null>(); }
  ~OS() { self() = nullptr; }
  Proc* by(int pid) { for (auto& p : procs) if (p->pid == pid) return p.get(); return nullptr; }
  Proc* child() { auto s = S(); if (!s || !s->cur) return nullptr; for (auto& p : procs) if (p->t == s->cur) return p.get(); return nullptr; }
  std::map<int, F>& table() { Proc* p = child(); return p ? p->fds : fds; }
  std::function<int()> owner;            // on whose behalf the program opens a descriptor
  int open(F f) { auto& t = table(); if (owner && !child()) f->owner = owner(); int n = 0; while (t.count(n)) n++; t[n] = f; if (!child()) cloexec.erase(n); return n; }
  F at(int fd) { auto& t = table(); auto i = t.find(fd); return i == t.end() ? nullptr : i->second; }
  void enter(const char* what) { calls++; if (child()) { S()->point(); return; } if (event) event(what); if (S() && S()->cur) S()->point(); }
  int failing(const char* what) { return fault && !child() ? fault(what) : 0; }
  bool block(const char* why, std::function<bool()> r, long long d = -1) { if (on_block) { on_block(); if (r()) return true; } if (!S() || !S()->cur) c.fail("hang", string("would block for ever in ") + why); return S()->block(why, r, d); }
  int tid() { return S() && S()->cur ? S()->cur->id : 0; }
  void end(Proc& p, int status) {   // the process ends
    if (!p.alive()) return; p.state = autoreap ? REAPED : ZOMBIE; p.status = status; std::map<int, F> f; f.swap(p.fds); f.clear(); held.erase(p.t); if (p.t && S()) S()->kill(p.t); c.trace("process %d ends with status 0x%x", p.pid, status);
  }
  int running() { int n = 0; for (auto& p : procs) n += p->alive(); return n; }
  string leftover() {
    string s; for (auto& p : procs) { if (p->alive()) s += "process " + std::to_string(p->pid) + " is still running; "; else if (p->state == ZOMBIE) s += "process " + std::to_string(p->pid) + " was never waited for; "; }
    for (auto& f : fds) if (f.second->what != "standard stream") s += "descriptor " + std::to_string(f.first) + " (" + f.second->what + ") is still open; "; if (!actions.empty()) s += "spawn file actions not destroyed; "; return s;
  }
};
inline OS* O() { return OS::self(); }
struct Hold { File* f; sched::Thread* t; Hold(int fd, const char* what) { t = S() ? S()->cur : nullptr; F x = O()->use(fd, what); f = x.get(); if (f) O()->held[t] = x; } ~Hold() { if (O()) O()->held.erase(t); } };
inline ssize_t input(int fd, char* b, size_t n, const char* what, bool dontwait = false) {
  O()->enter(what); Hold hold(fd, what); File* f = hold.f; if (!f) { errno = EBADF; return -1; } if (!n) return 0; if (int e = O()->failing(what)) { errno = e; return -1; }
  if (!f->rd()) { if (f->nonblock || dontwait) { errno = EAGAIN; return -1; } O()->block(what, [f] { return f->rd(); }); } return f->get(b, n);
}
inline ssize_t output(int fd, const char* b, size_t n, const char* what, bool nosig, bool dontwait = false) {
  O()->enter(what); Hold hold(fd, what); File* f = hold.f; if (!f) { errno = EBADF; return -1; } if (!n) return 0; size_t k = 0;
  if (int e = O()->failing(what)) { errno = e; return -1; }
  while (k < n) {
    if (!f->wr()) { if (f->nonblock || dontwait) { if (k) return k; errno = EAGAIN; return -1; } O()->block(what, [f] { return f->wr(); }); }
    ssize_t r = f->put(b + k, n - k);
    if (r < 0) {
      if (k) return k;
      if (errno == EPIPE && !nosig && !O()->child() && !O()->pipe_ignored) { if (O()->mask[O()->tid()]) O()->pending[O()->tid()] = 1; else O()->c.fail("sigpipe", string(what) + " to a closed stream raises SIGPIPE, which ends the whole program"); errno = EPIPE; }
      return -1;
    }
    k += r;
  }
  return n;
}
inline void tv(long long& d, const struct timeval* t) { d = t ? S() ? S()->now + t->tv_sec * 1000000LL + t->tv_usec : 0 : -1; }
inline int spawn(pid_t* pid, const char* prog, const posix_spawn_file_actions_t* fa, char* const argv[], char* const env[], bool path) {
  auto o = O(); o->enter("posix_spawn"); if (int e = o->failing("posix_spawn")) { *pid = -77; return e; }
  auto p = std::make_shared<Proc>(); p->program = prog ? prog : ""; p->path = path; for (int i = 0; argv[i]; i++) p->argv.push_back(argv[i]); for (int i = 0; env && env[i]; i++) p->env.push_back(env[i]);
  p->cwd = o->cwd; p->fds = o->fds; std::set<int> ce; for (auto& x : o->cloexec) if (x.second) ce.insert(x.first);
  if (fa) { auto i = o->actions.find(fa); if (i == o->actions.end()) o->c.fail("actions", "spawn with file actions that were not initialised"); for (auto& a : i->second) { if (a.kind == 0) { p->fds.erase(a.a); ce.erase(a.a); } else { auto f = p->fds.find(a.a); if (f == p->fds.end()) { *pid = -77; return EBADF; } F g = f->second; p->fds[a.b] = g; ce.erase(a.b); } } }
  for (int f : ce) p->fds.erase(f);
  p->pid = o->next_pid++; if (o->on_spawn) if (int e = o->on_spawn(*p)) { *pid = -77; return e; }
  o->procs.push_back(p); o->spawns++; *pid = p->pid; o->c.trace("process %d starts: %s", p->pid, p->program.c_str()); return 0;
}
}
using vos::O; using vos::OS; using vos::Proc;
extern "C" {
int vo_pipe(int fd[2]) { O()->enter("pipe"); if (int e = O()->failing("pipe")) { errno = e; return -1; } auto p = std::make_shared<vos::Pipe>(); p->cap = O()->cap; fd[0] = O()->open(std::make_shared<vos::PR>(p)); fd[1] = O()->open(std::make_shared<vos::PW>(p)); return 0; }
int vo_pipe2(int fd[2], int fl) { int r = vo_pipe(fd); if (!r && (fl & O_CLOEXEC)) O()->cloexec[fd[0]] = O()->cloexec[fd[1]] = true; if (!r && (fl & O_NONBLOCK)) O()->at(fd[0])->nonblock = O()->at(fd[1])->nonblock = true; return r; }
int vo_close(int fd) { O()->enter("close"); auto& t = O()->table(); auto i = t.find(fd); if (i == t.end()) O()->c.fail("close", "close(" + std::to_string(fd) + "): this descriptor is not open"); if (fd < 3 && i->second->what == "standard stream" && !O()->child()) O()->c.fail("close", "close(" + std::to_string(fd) + "): closes a standard stream of the program"); vos::F f = i->second; t.erase(i); return 0; }
int vo_dup(int fd) { O()->enter("dup"); auto f = O()->at(fd); if (!f) { errno = EBADF; return -1; } return O()->open(f); }
int vo_dup2(int a, int b) { O()->enter("dup2"); auto f = O()->at(a); if (!f) { errno = EBADF; return -1; } O()->table()[b] = f; return b; }
int vo_fcntl(int fd, int cmd, long arg) {
  auto f = O()->at(fd); if (!f) { errno = EBADF; return -1; }
  switch (cmd) { case F_GETFL: return f->nonblock ? O_NONBLOCK : 0; case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0; case F_GETFD: return O()->cloexec[fd] ? FD_CLOEXEC : 0; case F_SETFD: O()->cloexec[fd] = arg & FD_CLOEXEC; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { auto& t = O()->table(); int n = arg; while (t.count(n)) n++; t[n] = f; O()->cloexec[n] = cmd == F_DUPFD_CLOEXEC; return n; } }
  errno = EINVAL; return -1;
}
ssize_t vo_read(int fd, void* b, size_t n) { return vos::input(fd, (char*)b, n, "read"); }
ssize_t vo_write(int fd, const void* b, size_t n) { return vos::output(fd, (const char*)b, n, "write", false); }
ssize_t vo_recv(int fd, void* b, size_t n, int fl) { return vos::input(fd, (char*)b, n, "recv", fl & MSG_DONTWAIT); }
ssize_t vo_send(int fd, const void* b, size_t n, int fl) { return vos::output(fd, (const char*)b, n, "send", fl & MSG_NOSIGNAL, fl & MSG_DONTWAIT); }
ssize_t vo_recvfrom(int fd, void* b, size_t n, int fl, void*, void*) { return vo_recv(fd, b, n, fl); }
ssize_t vo_sendto(int fd, const void* b, size_t n, int fl, const void*, unsigned) { return vo_send(fd, b, n, fl); }
int vo_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  O()->enter("select"); if (int x = O()->failing("select")) { errno = x; return -1; } long long d; vos::tv(d, t); std::vector<std::pair<int, vos::F>> rs, ws;
  for (int i = 0; i < n; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), x = e && FD_ISSET(i, e); if (!a && !b && !x) continue; auto f = O()->use(i, "select"); if (!f) { errno = EBADF; return -1; } if (a) rs.push_back({i, f}); if (b) ws.push_back({i, f}); }
  auto any = [&] { for (auto& x : rs) if (x.second->rd()) return true; for (auto& x : ws) if (x.second->wr()) return true; return false; };
  if (!any() && !(t && !t->tv_sec && !t->tv_usec)) O()->block("select", any, d);
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int k = 0; for (auto& x : rs) if (x.second->rd()) { FD_SET(x.first, r); k++; } for (auto& x : ws) if (x.second->wr()) { FD_SET(x.first, w); k++; } return k;
}
int vo_poll(struct pollfd* p, unsigned long n, int ms) {
  O()->enter("poll"); long long d = ms < 0 ? -1 : (S() ? S()->now : 0) + ms * 1000LL; std::vector<vos::F> f(n); for (size_t i = 0; i < n; i++) f[i] = p[i].fd < 0 ? nullptr : O()->at(p[i].fd);
  auto any = [&] { for (size_t i = 0; i < n; i++) { if (p[i].fd < 0) continue; if (!f[i]) return true; if ((p[i].events & POLLIN) && f[i]->rd()) return true; if ((p[i].events & POLLOUT) && f[i]->wr()) return true; } return false; };
  if (!any() && ms) O()->block("poll", any, d); int k = 0; for (size_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (!f[i]) p[i].revents = POLLNVAL; else { if ((p[i].events & POLLIN) && f[i]->rd()) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && f[i]->wr()) p[i].revents |= POLLOUT; } k += p[i].revents != 0; } return k;
}
int vo_socket(int, int, int) { O()->enter("socket"); if (int e = O()->failing("socket")) { errno = e; return -1; } return O()->open(std::make_shared<vos::Sock>()); }
int vo_bind(int fd, const struct sockaddr* a, unsigned) { O()->enter("bind"); auto s = std::dynamic_pointer_cast<vos::Sock>(O()->at(fd)); if (!s) { errno = ENOTSOCK; return -1; } int p = ntohs(((const struct sockaddr_in*)a)->sin_port); O()->last_port = p; if (int e = O()->failing("bind")) { errno = e; return -1; } if (O()->busy_ports.count(p)) { errno = EADDRINUSE; return -1; } for (auto& f : O()->fds) { auto x = std::dynamic_pointer_cast<vos::Sock>(f.second); if (x && x->port == p && p) { errno = EADDRINUSE; return -1; } } s->port = p; return 0; }
int vo_listen(int fd, int) { O()->enter("listen"); auto s = std::dynamic_pointer_cast<vos::Sock>(O()->at(fd)); if (!s) { errno = ENOTSOCK; return -1; } if (int e = O()->failing("listen")) { errno = e; return -1; } s->listening = true; return 0; }
int vo_accept(int fd, void*, void*) { O()->enter("accept"); auto s = std::dynamic_pointer_cast<vos::Sock>(O()->at(fd)); if (!s) { errno = ENOTSOCK; return -1; } if (!s->rd()) O()->block("accept", [s] { return s->rd(); }); if (s->q.empty()) { errno = EINVAL; return -1; } auto f = s->q.front(); s->q.pop_front(); return O()->open(f); }
int vo_setsockopt(int fd, int, int, const void*, unsigned) { if (!O()->at(fd)) { errno = EBADF; return -1; } return 0; }
int vo_shutdown(int fd, int) { O()->enter("shutdown"); auto f = O()->at(fd); if (!f) O()->c.fail("close", "shutdown(" + std::to_string(fd) + "): this descriptor is not open"); f->shut(); return 0; }
int vo_connect(int fd, const struct sockaddr* a, unsigned) {   // by a tracker process
  O()->enter("connect"); int p = ntohs(((const struct sockaddr_in*)a)->sin_port); for (auto& f : O()->fds) { auto s = std::dynamic_pointer_cast<vos::Sock>(f.second); if (s && s->listening && s->port == p) { auto x = std::make_shared<vos::Pipe>(), y = std::make_shared<vos::Pipe>(); x->cap = y->cap = O()->cap; s->q.push_back(std::make_shared<vos::Conn>(x, y)); O()->table()[fd] = std::make_shared<vos::Conn>(y, x); return 0; } }
  errno = ECONNREFUSED; return -1;
}
int vo_fa_init(const void* a) { if (O()->actions.count(a)) O()->c.fail("actions", "file actions are initialised twice"); O()->actions[a].clear(); return 0; }
static std::vector<vos::Action>& vo_fa(const void* a) { auto i = O()->actions.find(a); if (i == O()->actions.end()) O()->c.fail("actions", "file actions that are not initialised"); return i->second; }
int vo_fa_destroy(const void* a) { vo_fa(a); O()->actions.erase(a); return 0; }
int vo_fa_addclose(const void* a, int f) { vo_fa(a).push_back({0, f, 0}); return 0; }
int vo_fa_adddup2(const void* a, int f, int g) { vo_fa(a).push_back({1, f, g}); return 0; }
int vo_spawnp(pid_t* pid, const char* prog, const posix_spawn_file_actions_t* fa, const void*, char* const argv[], char* const env[]) { return vos::spawn(pid, prog, fa, argv, env, true); }
int vo_spawn(pid_t* pid, const char* prog, const posix_spawn_file_actions_t* fa, const void*, char* const argv[], char* const env[]) { return vos::spawn(pid, prog, fa, argv, env, false); }
pid_t vo_waitpid(pid_t pid, int* st, int opt) {
  auto o = O(); o->enter("waitpid"); if (pid <= 0) o->c.fail("wait", "waits for any child (" + std::to_string(pid) + ")"); auto p = o->by(pid);
  if (!p || (p->state == vos::REAPED && !(o->autoreap && !p->told))) o->c.fail("wait", "waits for process " + std::to_string(pid) + ", which " + (p ? "has been waited for" : "does not exist"));
  if (int e = o->failing("waitpid")) { errno = e; return -1; }
  if (p->state == vos::STOPPED && (opt & WUNTRACED)) { if (st) *st = 0x137f; return pid; }
  if (p->alive()) { if (opt & WNOHANG) return 0; o->block("waitpid", [p] { return !p->alive(); }); }
  if (p->state == vos::REAPED) { p->told = true; errno = ECHILD; return -1; }
  p->state = vos::REAPED; if (st) *st = p->status; return pid;
}
int vo_kill(pid_t pid, int sig) {
  auto o = O(); o->enter("kill"); if (pid <= 0) o->c.fail("signal", "signals process group " + std::to_string(pid)); auto p = o->by(pid);
  if (!p || (p->state == vos::REAPED && !(o->autoreap && !p->told))) o->c.fail("signal", "signal " + std::to_string(sig) + " to process " + std::to_string(pid) + ", which " + (p ? "has been waited for" : "does not exist"));
  if (p->state == vos::REAPED) { errno = ESRCH; return -1; }
  if (sig) { p->signals++; if (sig == SIGTERM) p->terms++; if (sig == SIGKILL) p->kills++; if (p->alive() && o->on_signal) o->on_signal(*p, sig); } return 0;
}
char* vo_getcwd(char* b, size_t n) { if (int e = O()->failing("getcwd")) { errno = e; return nullptr; } if (O()->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, O()->cwd.c_str()); return b; }
int vo_chdir(const char* d) { O()->enter("chdir"); std::string t = *d == '/' ? d : O()->cwd + "/" + d; if (!O()->dirs.count(t)) { errno = ENOENT; return -1; } O()->cwd = t; return 0; }
int vo_sigmask(int how, const sigset_t* s, sigset_t* old) {
  int& m = O()->mask[O()->tid()]; if (old) { sigemptyset(old); if (m) sigaddset(old, SIGPIPE); } if (s) { int h = sigismember(s, SIGPIPE); if (how == SIG_SETMASK) m = h; else if (h) m = how == SIG_BLOCK; }
  if (!m && O()->pending[O()->tid()]) { O()->pending[O()->tid()] = 0; O()->c.fail("sigpipe", "SIGPIPE is let through, which ends the whole program"); } return 0;
}
int vo_sigprocmask(int how, const sigset_t* s, sigset_t* old) { return vo_sigmask(how, s, old); }
int vo_fcntl64(int fd, int cmd, long arg) { return vo_fcntl(fd, cmd, arg); }
int vo_sigpending(sigset_t* s) { sigemptyset(s); if (O()->pending[O()->tid()]) sigaddset(s, SIGPIPE); return 0; }
int vo_sigtimedwait(const sigset_t* s, void*, const void*) { if (sigismember(s, SIGPIPE) && O()->pending[O()->tid()]) { O()->pending[O()->tid()] = 0; return SIGPIPE; } errno = EAGAIN; return -1; }
int vo_sigwait(const sigset_t* s, int* r) { if (sigismember(s, SIGPIPE) && O()->pending[O()->tid()]) { O()->pending[O()->tid()] = 0; *r = SIGPIPE; return 0; } O()->block("sigwait", [] { return false; }); return EAGAIN; }
void* vo_signal(int sig, void* h) { if (sig == SIGPIPE) O()->pipe_ignored = h == (void*)SIG_IGN; return nullptr; }
int vo_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE && O()->pipe_ignored) o->sa_handler = SIG_IGN; } if (a && sig == SIGPIPE) O()->pipe_ignored = a->sa_handler == SIG_IGN; return 0; }
}
