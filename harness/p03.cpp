// P03: bookkeeping of the child process, over a virtual operating system.
#include "newcount.hpp"
#include "vos.hpp"
#include "process.h"
using namespace mc; using sched::Sched; using std::vector;
struct Run {
  Ctx& c; Sched s; OS o; std::unique_ptr<Process> p; bool expl; bool started = false, known_dead = false; int faults; uint64_t h = 3; vector<int> late; bool fault_in = false, mid = true;
  Run(Ctx& c, bool expl, int faults) : c(c), s(c), o(c), expl(expl), faults(faults) {
    o.event = [this](const char* what) { pending(); if (!mid) return; Proc* q = child(); if (!q || !q->alive()) return; if (int k = this->c.deviate(4)) { static const int ST[] = {0, 3 << 8, 11}; o.end(*q, ST[k - 1]); } };
    o.on_signal = [this](Proc& q, int sig) {
      if (sig == SIGKILL) { if (this->c.deviate(2)) late.push_back(q.pid); else o.end(q, SIGKILL); }
      else if (sig == SIGTERM && q.state == vos::RUN) { if (q.on_term == 0) o.end(q, SIGTERM); else if (q.on_term == 2) o.end(q, 0); else if (q.on_term == 3) late.push_back(-q.pid); }
    };
    o.fault = [this](const char* what) { if (!this->faults) return 0; int e = !strcmp(what, "pipe") ? EMFILE : !strcmp(what, "posix_spawn") ? ENOENT : !strcmp(what, "getcwd") ? ENOENT : 0; if (!e || !this->c.choose(2)) return 0; this->faults--; fault_in = true; return e; };
    o.on_block = [this] { auto l = late; late.clear(); for (int x : l) if (Proc* q = o.by(abs(x))) o.end(*q, x > 0 ? SIGKILL : SIGTERM); };
    o.on_spawn = [this](Proc& q) { if (term >= 0) q.on_term = term; return 0; };
  }
  int term = 0; bool dir = false;
  ~Run() { p.release(); }   // left over by an abandoned execution
  // a signalled process that ends a little later: before one of the next system calls or between two operations
  void pending() { if (late.empty()) return; if (!c.choose(2)) return; auto l = late; late.clear(); for (int x : l) if (Proc* q = o.by(abs(x))) o.end(*q, x > 0 ? SIGKILL : SIGTERM); }
  Proc* child() { return o.procs.empty() ? nullptr : o.procs.back().get(); }
  int expected(Proc* q) { return WIFEXITED(q->status) ? WEXITSTATUS(q->status) : -WTERMSIG(q->status); }
  bool end(int fd, bool write, int cfd, const char* name) {   // the other end of the stream is what the child has as cfd
    auto i = o.fds.find(fd); if (i == o.fds.end()) c.fail("streams", string(name) + " returns " + std::to_string(fd) + ", which is not open");
    auto w = std::dynamic_pointer_cast<vos::PW>(i->second); auto r = std::dynamic_pointer_cast<vos::PR>(i->second); if (write ? !w : !r) c.fail("streams", string(name) + " is not the " + (write ? "writing" : "reading") + " end of a pipe");
    Proc* q = child(); if (!q->alive()) return true; auto j = q->fds.find(cfd); if (j == q->fds.end()) c.fail("streams", string("the child does not have the other end of ") + name);
    auto cw = std::dynamic_pointer_cast<vos::PW>(j->second); auto cr = std::dynamic_pointer_cast<vos::PR>(j->second); if (write ? !(cr && cr->p == w->p) : !(cw && cw->p == r->p)) c.fail("streams", string("the child is not connected to ") + name); return true;
  }
  void alive(bool with) {
    Proc* q = child(); bool a0 = q && q->alive(); int st = 0x5a5a; bool r = with ? p->is_alive(&st) : p->is_alive(); bool a1 = q && q->alive();
    c.trace("is_alive -> %d, %d", r, st);
    if (!q) { if (r) c.fail("alive", "alive without a child"); return; }
    if (!a0 && r) c.fail("alive", "reported alive although the child has ended"); if (a1 && !r) c.fail("alive", "reported dead although the child is running");
    if (!r) { if (with && !o.autoreap && st != expected(q)) c.fail("status", "exit status " + std::to_string(st) + " reported instead of " + std::to_string(expected(q))); if (!o.autoreap && q->state != vos::REAPED) c.fail("reap", "reported dead but not waited for"); known_dead = true; }
    c.outcome(r ? "alive" : "dead");
  }
  void streams() {
    Proc* q = child(); bool a0 = q && q->alive(); int i = p->get_input(), u = p->get_output(), e = p->get_error(), h = p->get_handle(); bool a1 = q && q->alive();
    if (!q) { if (i != -1 || u != -1 || e != -1 || h != 0) c.fail("streams", "streams without a child"); return; }
    auto one = [&](int fd, bool w, int cfd, const char* n) { if (fd == -1) { if (a1) c.fail("streams", string(n) + " is not available although the child runs"); } else if (a0 || o.fds.count(fd)) end(fd, w, cfd, n); else c.fail("streams", string(n) + " is not open"); };
    int ci = 0, co = 1; if (expl) { const char* x = q->getenv("TRAX_IN"); const char* y = q->getenv("TRAX_OUT"); if (!x || !y) c.fail("streams", "TRAX_IN and TRAX_OUT are not set"); ci = atoi(x); co = atoi(y); }
    one(i, true, ci, "get_input()"); one(u, false, co, "get_output()"); one(e, false, 2, "get_error()"); if (h != q->pid && (a1 || h != 0)) c.fail("handle", "get_handle() = " + std::to_string(h) + " instead of " + std::to_string(q->pid));
  }
  void op(int k) {
    Proc* q = child(); bool a0 = q && q->alive(), reaped0 = q && q->state == vos::REAPED; int t0 = q ? q->terms : 0, k0 = q ? q->kills : 0, s0 = q ? q->signals : 0, n0 = o.spawns; c.step();
    switch (k) {
      case 0: {
        fault_in = false; bool r = false, threw = false; size_t f0 = o.fds.size(); try { r = p->start(); } catch (const std::exception&) { threw = true; } c.trace("start -> %d%s", r, threw ? " (exception)" : "");
        if (q) { if (r || o.spawns != n0) c.fail("start", "started again"); }
        else if (fault_in) { if (r || o.spawns != n0) c.fail("start", "start() succeeded although a call failed"); if (o.fds.size() != f0) c.fail("leak", "descriptors left after a failed start: " + o.leftover()); c.outcome("start-failed"); }
        else { if (!r || o.spawns != n0 + 1) c.fail("start", "start() failed"); started = true; c.outcome("started"); }
        break;
      }
      case 1: alive(true); break;
      case 2: alive(false); break;
      case 3: case 4: {
        bool r = k == 3 ? p->stop() : p->kill(); (void)r; Proc* z = child(); if (!z) break; int dt = z->terms - t0, dk = z->kills - k0, ds = z->signals - s0;
        if (reaped0 && ds) c.fail("signal", "signal to a process that has ended"); if (a0 && z->alive() && !(k == 3 ? dt == 1 && ds == 1 : dk >= 1)) c.fail("signal", k == 3 ? "stop() does not send one SIGTERM" : "kill() does not send SIGKILL"); if (k == 3 && dk) c.fail("signal", "stop() kills"); break;
      }
      case 5: streams(); break;
      // events between two calls
      case 6: case 7: case 8: if (!q || !q->alive()) throw 0; o.end(*q, k == 6 ? 0 : k == 7 ? 255 << 8 : 0x80 | 6); c.outcome("ended-by-itself"); break;
      case 9: if (!q || q->state != vos::RUN) throw 0; q->state = vos::STOPPED; break;
    }
    if (q && k < 6 && q->state == vos::REAPED && !a0 && false) return;
    string d; d = std::to_string(k) + (q ? std::to_string(q->state) + "," + std::to_string(q->status) : "n"); h = fnvs(d, h); c.state(h);
  }
  void run(int depth, int ops) {
    bool prune = false; long base = mc_new_live;
    s.spawn([&] {
      p.reset(new Process("tracker arg", expl)); if (dir) p->set_directory("/data");
      for (int i = 0; i < depth; i++) { int k = c.choose(ops + 1); if (!k) break; try { op(k - 1); } catch (int) { c.raise(Prune()); } }
      p.reset(); if (!late.empty()) { auto l = late; late.clear(); for (int x : l) if (Proc* q = o.by(abs(x))) o.end(*q, SIGKILL); }
    }, "caller");
    s.run(); (void)prune;
    string l = o.leftover(); if (!l.empty()) c.fail("leak", "after the destructor: " + l); for (auto& q : o.procs) if (q->kills == 0 && q->alive()) c.fail("leak", "child still running"); if (o.cwd != "/home/user") c.fail("cwd", "the working directory changed");
    shim::check_balanced(c);
  }
};
int main(int argc, char** argv) {
  Main m("P03"); m.parse(argc, argv); m.cleanup_after = [] { vt_reset(); shim::reset_all(); };
  bool T = m.thorough; int D = T ? 6 : 5;
  m.bounds = {"every history of up to " + std::to_string(D) + " operations out of start, is_alive (with and without status), stop, kill, stream access and the child exiting with 0 or 255, dumping core or being suspended between two calls, x standard or dedicated streams x child that dies of SIGTERM, ignores it, exits normally or dies later; at most " + std::to_string(T ? 2 : 1) + " further events (exit 0, exit 3, SIGSEGV, delayed SIGKILL) inside calls",
              "the same with failures of pipe, posix_spawnp and getcwd (up to 2) and histories up to " + std::to_string(T ? 5 : 4), "the same with children that are reaped automatically (SIGCHLD ignored), histories up to " + std::to_string(T ? 6 : 5)};
  m.add("histories", T ? 2 : 1, 4, [=](Ctx& c) { Run r(c, c.choose(2), 0); r.term = c.choose(4); r.run(D, 10); });
  m.add("faults", T ? 1 : 0, 4, [=](Ctx& c) { Run r(c, c.choose(2), 2); r.term = c.choose(2); r.dir = c.choose(2); r.run(T ? 5 : 4, 9); });
  m.add("autoreap", T ? 2 : 1, 4, [=](Ctx& c) { Run r(c, false, 0); r.o.autoreap = true; r.term = c.choose(4); r.run(T ? 6 : 5, 9); });
  return m.run();
}
