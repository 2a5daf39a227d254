// pthread, time and sleep functions on top of sched.hpp (include in one file of a harness; the
// symbols of the checked objects are redirected to them, see PTHREAD in checks.py).
#pragma once
#include "sched.hpp"
#include <sys/time.h>
#include <time.h>
using sched::S;
#include <set>
static std::map<const void*, int> vt_mattr, vt_depth, vt_rec;   // recursive mutexes
static std::set<const void*> vt_dead;                           // destroyed objects
static void vt_reset() { vt_mattr.clear(); vt_depth.clear(); vt_rec.clear(); vt_dead.clear(); }
static void vt_alive(const void* m, const char* what) { if (vt_dead.count(m)) S()->c.fail("destroyed", std::string(what) + " that was destroyed before"); }
extern "C" {
int vt_mutexattr_init(void* a) { vt_mattr[a] = 0; return 0; }
int vt_mutexattr_settype(void* a, int t) { vt_mattr[a] = t; return 0; }
int vt_mutexattr_destroy(void* a) { vt_mattr.erase(a); return 0; }
int vt_mutex_init(void* m, const void* a) { if (!S()) return 0; vt_dead.erase(m); S()->mutex[m] = 0; vt_depth.erase(m); vt_rec[m] = a && vt_mattr.count(a) ? vt_mattr[a] : 0; return 0; }
int vt_mutex_destroy(void* m) {
  auto s = S(); if (!s) return 0; vt_alive(m, "a mutex is destroyed"); int o = s->mutex[m];
  if (o && s->running) s->c.fail("mutex", "a mutex is destroyed while " + s->find(o)->name + " holds it"); s->mutex.erase(m); vt_dead.insert(m); return 0;
}
static int vt_take(void* m) {
  auto s = S(); s->cur->waits = m; if (s->mutex[m]) s->block("mutex lock", [s, m] { auto i = s->mutex.find(m); return i == s->mutex.end() || i->second == 0; });
  s->cur->waits = nullptr; vt_alive(m, "a mutex is waited for"); s->mutex[m] = s->cur->id; return 0;
}
int vt_mutex_lock(void* m) {
  auto s = S(); if (!s || !s->cur) return 0; vt_alive(m, "a mutex is locked"); s->point(); vt_alive(m, "a mutex is locked");
  if (s->mutex[m] == s->cur->id) { if (vt_rec[m] == PTHREAD_MUTEX_RECURSIVE) { vt_depth[m]++; return 0; } s->c.fail("deadlock", s->cur->name + " locks a mutex it already holds\n" + s->describe()); }
  return vt_take(m);
}
int vt_mutex_trylock(void* m) { auto s = S(); s->point(); if (s->mutex[m]) return EBUSY; s->mutex[m] = s->cur->id; return 0; }
int vt_mutex_unlock(void* m) {
  auto s = S(); if (!s || !s->cur) return 0; vt_alive(m, "a mutex is unlocked");
  if (s->mutex[m] != s->cur->id) s->c.fail("mutex", s->cur->name + " unlocks a mutex it does not hold"); if (vt_depth[m] > 0) { vt_depth[m]--; return 0; } s->mutex[m] = 0; s->point(); return 0;
}
int vt_condattr_init(void*) { return 0; }
int vt_condattr_destroy(void*) { return 0; }
int vt_condattr_setclock(void*, int) { return 0; }
int vt_cond_init(void* q, const void*) { if (!S()) return 0; vt_dead.erase(q); S()->cond[q].clear(); return 0; }
int vt_cond_destroy(void* q) { auto s = S(); if (!s) return 0; vt_alive(q, "a condition is destroyed"); if (!s->cond[q].empty() && s->running) s->c.fail("cond", "a condition is destroyed that is waited for"); s->cond.erase(q); vt_dead.insert(q); return 0; }
static int vt_wait(void* q, void* m, long long deadline) {
  auto s = S(); vt_alive(q, "a condition is waited for"); vt_alive(m, "a mutex is waited with"); if (s->mutex[m] != s->cur->id) s->c.fail("cond", "a condition is waited for without holding the mutex");
  auto t = s->cur; s->point(); bool spur = s->spurious && s->c.deviate(2), ok = true;
  s->mutex[m] = 0; auto drop = [s, q, t] { auto& v = s->cond[q]; for (size_t i = 0; i < v.size(); i++) if (v[i] == t) { v.erase(v.begin() + i); break; } };
  if (!spur) { s->cond[q].push_back(t); ok = s->block("condition", [s, q, t] { auto i = s->cond.find(q); if (i == s->cond.end()) return true; for (auto x : i->second) if (x == t) return false; return true; }, deadline); drop(); }
  vt_take(m); return ok ? 0 : ETIMEDOUT;
}
int vt_cond_wait(void* q, void* m) { return vt_wait(q, m, -1); }
int vt_cond_timedwait(void* q, void* m, const struct timespec* ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; __int128 d = (__int128)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000; return vt_wait(q, m, d < 0 ? 0 : d > 4000000000000000000LL ? 4000000000000000000LL : (long long)d); }
static void vt_wake(void* q, bool all) { auto s = S(); vt_alive(q, "a condition is signalled"); auto& l = s->cond[q]; if (l.empty()) return; if (all) l.clear(); else { int k = l.size() > 1 ? s->c.choose(l.size()) : 0; l.erase(l.begin() + k); } }
int vt_cond_signal(void* q) { S()->point(); vt_wake(q, false); return 0; }
int vt_cond_broadcast(void* q) { S()->point(); vt_wake(q, true); return 0; }
int vt_attr_init(void*) { return 0; }
int vt_attr_destroy(void*) { return 0; }
int vt_attr_setdetachstate(void*, int) { return 0; }
unsigned long vt_self() { return S() && S()->cur ? 0x1000 + S()->cur->id * 16 : 1; }
int vt_equal(unsigned long a, unsigned long b) { return a == b; }
int vt_create(unsigned long* t, const void*, void* (*fn)(void*), void* arg) {
  auto s = S(); auto x = s->spawn(nullptr, "thread" + std::to_string(s->th.size() + 1)); *t = 0x1000 + x->id * 16; shim::fiber_free(x->f);
  x->f = shim::fiber_new([s, x, fn, arg] { try { x->result = fn(arg); } catch (...) { if (!s->ex) s->ex = std::current_exception(); } x->done = true; });
  s->point(); return 0;
}
int vt_join(unsigned long t, void** r) {
  auto s = S(); auto x = s->find(t >= 0x1000 ? (t - 0x1000) / 16 : 0); if (!x) s->c.fail("thread", "joins a thread that does not exist"); if (x->joined) s->c.fail("thread", "joins a thread twice");
  s->point(); if (!x->done) s->block("join", [x] { return x->done; }); x->joined = true; if (r) *r = x->result; return 0;
}
int vt_detach(unsigned long t) { auto s = S(); auto x = s->find(t >= 0x1000 ? (t - 0x1000) / 16 : 0); if (x) x->joined = x->daemon = true; return 0; }
int vt_yield() { S()->sleep(0); return 0; }
int vt_usleep(unsigned us) { S()->sleep(us); return 0; }
unsigned vt_sleep(unsigned s) { if (s == 0) S()->sleep(10000, true); else S()->sleep(s * 1000000LL); return 0; }
int vt_nanosleep(const struct timespec* a, struct timespec*) { S()->sleep(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }
int vt_clock_nanosleep(int, int, const struct timespec* a, struct timespec*) { S()->sleep(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }
int vt_gettimeofday(struct timeval* v, void*) { v->tv_sec = S()->now / 1000000; v->tv_usec = S()->now % 1000000; return 0; }
int vt_clock_gettime(int, struct timespec* v) { v->tv_sec = S()->now / 1000000; v->tv_nsec = S()->now % 1000000 * 1000; return 0; }
long vt_time(long* t) { long n = S()->now / 1000000; if (t) *t = n; return n; }
}
