// M06: a connection over a socket is established, given up or refused as the caller and the operating
// system decide: no crash, no waiting beyond the timeout, no endless retries of what cannot succeed,
// no descriptor left open or closed twice.
#include "ref.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
using namespace mc; using namespace ref; using std::to_string;

// ---------------------------------------------------------------- the sockets of the system
struct World {
  Ctx* c = nullptr; std::map<int, int> fault;      // index of a call -> errno
  std::map<string, int> calls, fails;              // per kind
  double now = 0, arrival = -1; vector<double> signals; size_t sig = 0;   // client side
  bool pending() const { return arrival >= 0 && now >= arrival && !taken; } bool taken = false;
  int refused = 0, interrupted = 0;                // how often connect() fails before it succeeds
  int open = 0, sleeps = 0, port = -1; string address; bool connected = false; int listening = -1; string where;
  std::function<int()> make;                       // a new descriptor
  string fail_at; int fail_errno = 0;              // the call that fails (once)
};
static World* W;
struct Sock : shim::VFile {
  std::shared_ptr<Pipe> in, out; World* w; bool server; int shut = 0; Sock(std::shared_ptr<Pipe> i, std::shared_ptr<Pipe> o, World* w, bool server) : in(i), out(o), w(w), server(server) { w->open++; }
  ssize_t read(void* b, size_t n) override { if (in->pos >= in->data.size()) { if (in->eof) return 0; throw shim::Block(); } size_t k = std::min(n, in->data.size() - in->pos); memcpy(b, in->data.data() + in->pos, k); in->pos += k; return k; }
  ssize_t write(const void* b, size_t n) override { out->data.append((const char*)b, n); return n; }
  int shutdown(int) override { shut++; return 0; }
  int close() override { w->open--; return 0; }
};
static bool failing(const char* what) { W->calls[what]++; if (W->calls[what] > 40) throw Violation{"spin", string(what) + "() is called again and again"}; if (W->fail_at == what) { W->fail_at.clear(); errno = W->fail_errno; return true; } return false; }
static bool valid(int fd) { if (shim::vfd_get(fd)) return true; errno = EBADF; return false; }
extern "C" {
int ms_socket(int, int, int) { if (failing("socket")) return -1; return W->make(); }
int ms_setsockopt(int fd, int, int, const void*, socklen_t) { if (!valid(fd)) return -1; return failing("setsockopt") ? -1 : 0; }
int ms_getsockopt(int fd, int, int, void* v, socklen_t*) { if (!valid(fd)) return -1; *(int*)v = 0; return 0; }
int ms_connect(int fd, const struct sockaddr* a, socklen_t n) {
  bool f = failing("connect"); if (!valid(fd)) return -1; auto* s = (const sockaddr_in*)a; if (n < sizeof *s || s->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  W->port = ntohs(s->sin_port); W->address = inet_ntoa(s->sin_addr); if (f) return -1;
  if (W->refused > 0) { W->refused--; errno = ECONNREFUSED; return -1; } if (W->interrupted > 0) { W->interrupted--; errno = EINTR; return -1; }
  W->connected = true; return 0;
}
int ms_listen(int fd, int) { if (!valid(fd)) return -1; return failing("listen") ? -1 : 0; }
static int ready(int fd, double limit) {   // waits for a connection, a signal or the end of the time
  double a = W->arrival < 0 || W->taken ? 1e9 : std::max(W->arrival, W->now), e = limit < 0 ? 1e9 : W->now + limit, s = W->sig < W->signals.size() ? std::max(W->signals[W->sig], W->now) : 1e9;
  if (a <= W->now) return 1;
  if (s < a && s < e) { W->now = s; W->sig++; errno = EINTR; return -1; }
  if (a <= e && a < 1e9) { W->now = a; return 1; }
  if (e >= 1e9) throw Violation{"blocked", "waits for a connection without a limit"};
  W->now = e; return 0;
}
int ms_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  if (failing("select")) return -1; if (!r || !FD_ISSET(W->listening, r)) throw Violation{"select", "select() does not wait for the listening socket"}; if (n <= W->listening) throw Violation{"select", "select() does not look at the listening socket"};
  double d = t ? t->tv_sec + t->tv_usec * 1e-6 : -1, from = W->now; int k = ready(W->listening, d); if (t) { double rest = std::max(0., d - (W->now - from)); t->tv_sec = (long)rest; t->tv_usec = (long)((rest - (long)rest) * 1e6 + .5); }
  if (k < 0) return -1; FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); if (k) FD_SET(W->listening, r); return k;
}
int ms_poll(struct pollfd* p, nfds_t n, int ms) {
  if (failing("poll")) return -1; int k = ready(W->listening, ms < 0 ? -1 : ms / 1000.); if (k < 0) return -1; for (nfds_t i = 0; i < n; i++) p[i].revents = k && p[i].fd == W->listening ? POLLIN : 0; return k;
}
int ms_accept(int fd, struct sockaddr*, socklen_t*) {
  if (fd != W->listening) throw Violation{"accept", "accept() of another descriptor"}; if (failing("accept")) { if (errno == ECONNABORTED) W->taken = true; return -1; }
  if (!W->pending()) throw Violation{"blocked", "accept() is called although nobody has connected: it waits without a limit"};
  W->taken = true; return W->make();
}
static double pass(double s) { W->sleeps++; W->now += s; return 0; }
unsigned ms_sleep(unsigned s) { pass(s); return 0; }
int ms_usleep(useconds_t u) { pass(u * 1e-6); return 0; }
int ms_nanosleep(const struct timespec* t, struct timespec*) { pass(t->tv_sec + t->tv_nsec * 1e-9); return 0; }
time_t ms_time(time_t* t) { time_t v = 1000000 + (time_t)W->now; if (t) *t = v; return v; }
int ms_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000000 + (time_t)W->now; t->tv_nsec = (long)((W->now - (long)W->now) * 1e9); return 0; }
int ms_gettimeofday(struct timeval* t, void*) { t->tv_sec = 1000000 + (time_t)W->now; t->tv_usec = (long)((W->now - (long)W->now) * 1e6); return 0; }
}

struct Session { World w; std::shared_ptr<Pipe> a = std::make_shared<Pipe>(), b = std::make_shared<Pipe>(); std::shared_ptr<Sock> sock; };
static trax_metadata* meta() { return trax_metadata_create(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, "n", nullptr, nullptr, 0); }

int main(int argc, char** argv) {
  Main m("M06"); m.parse(argc, argv); m.cleanup_after = [] { W = nullptr; shim::reset_all(); }; bool T = m.thorough;
  if (!T) {} int R = T ? 12 : 4;
  m.bounds = {"the tracker connects: every failure of socket, setsockopt and connect (several errors), 0.." + to_string(R) + " refusals and 0..2 interruptions before it is let in, C and C++",
              "the client accepts: every failure of listen, select, accept and setsockopt, every timeout 0.." + to_string(T ? 4 : 3) + " x every moment of a connection (or none) x every moment of up to " + to_string(T ? 3 : 2) + " signals (half seconds), C and C++; then a whole session over the connection"};
  struct E { const char* call; int err; };
  m.add("connect", 0, 2, [=](Ctx& c) {
    static const E F[] = {{"", 0}, {"socket", EMFILE}, {"socket", ENOBUFS}, {"socket", EACCES}, {"setsockopt", ENOBUFS}, {"setsockopt", EINVAL}, {"connect", EBADF}, {"connect", EAFNOSUPPORT}, {"connect", ECONNREFUSED}, {"connect", ETIMEDOUT}};
    static const int PORTS[] = {9090, 1, 65535, 9091}; Session s; W = &s.w; W->c = &c; auto& f = F[c.choose(10)]; W->fail_at = f.call; W->fail_errno = f.err; int port = PORTS[c.choose(4)], ref = W->refused = c.choose(R + 1), intr = W->interrupted = c.choose(3); bool cpp = c.choose(2);
    W->make = [&] { s.sock = std::make_shared<Sock>(s.a, s.b, &s.w, true); return shim::vfd_open(s.sock); };
    setenv("TRAX_SOCKET", to_string(port).c_str(), 1); c.trace("%s fails (%d), %d refusals, %d interruptions, port %d", f.call, f.err, ref, intr, port); c.state(string(f.call) + to_string(f.err) + "," + to_string(ref) + "," + to_string(intr) + "," + to_string(port));
    int before = shim::alloc_live(); bool got = false; trax_handle* h = nullptr; std::unique_ptr<trax::Server> sv; (void)before;
    if (cpp) { sv.reset(new trax::Server(trax::Metadata(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, "n"), trax::Logging(trax_no_log))); got = (bool)*sv; }
    else { trax_metadata* md = meta(); h = trax_server_setup(md, trax_no_log); trax_metadata_release(&md); got = h != nullptr; }
    c.step(); unsetenv("TRAX_SOCKET"); bool must = !*f.call || !strcmp(f.call, "connect"), cannot = !strcmp(f.call, "socket"); if (f.err == EBADF || f.err == EAFNOSUPPORT) must = false;
    if (must && !got) c.fail("refused", "no connection although the client lets the tracker in"); if (cannot && got) c.fail("handle", "a handle although there is no socket");
    if (got) {
      if (!W->connected) c.fail("handle", "a handle without a connection"); if (W->port != port || W->address != "127.0.0.1") c.fail("address", "connected to " + W->address + " port " + to_string(W->port)); if (W->sleeps < ref) c.fail("busy", "tries again at once");
      if (s.b->data.compare(0, 12, "@@TRAX:hello") || s.b->data.back() != '\n') c.fail("hello", "no introduction was sent: " + mc::esc(s.b->data)); if (W->open != 1) c.fail("descriptors", to_string(W->open) + " sockets are open");
      string img = "@@TRAX:initialize \"1,2,3,4\"\n@@TRAX:frame \"file:///a\"\n"; s.a->data = img; int r;
      if (cpp) { trax::ImageList l; trax::ObjectList o; trax::Properties p; r = sv->wait(l, o, p); } else { trax_image_list* l = nullptr; trax_object_list* o = nullptr; trax_properties* p = trax_properties_create(); r = trax_server_wait(h, &l, &o, p); if (l) { trax_image_list_clear(l); trax_image_list_release(&l); } if (o) trax_object_list_release(&o); trax_properties_release(&p); }
      if (r != TRAX_INITIALIZE) c.fail("session", "the connection does not work: " + to_string(r));
    }
    sv.reset(); if (h) trax_cleanup(&h); c.step(); if (W->open) c.fail("descriptors", "the socket is left open"); shim::check_balanced(c); c.outcome(got ? "connected" : "refused");
  });
  m.add("accept", 0, 3, [=](Ctx& c) {
    static const E F[] = {{"", 0}, {"listen", EADDRINUSE}, {"select", ENOMEM}, {"poll", ENOMEM}, {"accept", ECONNABORTED}, {"accept", EMFILE}, {"accept", EINTR}, {"setsockopt", ENOBUFS}};
    Session s; W = &s.w; W->c = &c; auto& f = F[c.choose(8)]; W->fail_at = f.call; W->fail_errno = f.err; int tm = c.choose(T ? 5 : 4), ar = c.choose(2 * tm + 3) - 1; W->arrival = ar < 0 ? -1 : ar * .5; int ns = c.choose(T ? 4 : 3); double at = 0; string st; for (int i = 0; i < ns; i++) { at += .5 * c.choose(2 * tm + 2); st += " " + to_string(at); W->signals.push_back(at); }
    bool cpp = c.choose(2); int srv = shim::vfd_open(std::make_shared<shim::VFile>()); W->listening = srv; s.a->data = "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.name=n\"\n";
    W->make = [&] { s.sock = std::make_shared<Sock>(s.a, s.b, &s.w, false); return shim::vfd_open(s.sock); };
    c.trace("%s fails (%d), timeout %d, connection at %g, signals at%s", f.call, f.err, tm, W->arrival, st.c_str()); c.state(string(f.call) + to_string(f.err) + "," + to_string(tm) + "," + to_string(ar) + st);
    trax_handle* h = nullptr; std::unique_ptr<trax::Client> cl; bool got;
    if (cpp) { cl.reset(new trax::Client(srv, trax::Logging(trax_no_log), tm)); got = (bool)*cl; } else { h = trax_client_setup_socket(srv, tm, trax_no_log); got = h != nullptr; }
    c.step(); bool used = !*f.call || W->fail_at.empty();   // (the failing call was made)
    if (W->now > tm + 1e-3) c.fail("late", "waits " + to_string(W->now) + " s with a timeout of " + to_string(tm)); bool arrives = W->arrival >= 0 && W->arrival <= tm;
    bool must = arrives && (!*f.call || !used), cannot = !arrives || !strcmp(f.call, "listen"); if (must && !got && !(W->arrival == tm && tm)) c.fail("lost", "the tracker has connected in time but there is no connection"); if (cannot && got) c.fail("handle", "a handle although nobody has connected");
    if (!got && !*f.call && W->now < tm - 1e-3) c.fail("early", "given up after " + to_string(W->now) + " s with a timeout of " + to_string(tm));
    if (!shim::vfd_get(srv)) c.fail("descriptors", "the listening socket of the caller was closed"); if (W->open != (got ? 1 : 0)) c.fail("descriptors", to_string(W->open) + " connections are open");
    if (got) {
      int r; if (cpp) { trax::ImageList l; l.set(trax::Image::create_path("/a"), TRAX_CHANNEL_COLOR); r = cl->initialize(l, trax::Region::create_rectangle(1, 2, 3, 4), trax::Properties()); }
      else { trax_image_list* l = trax_image_list_create(); trax_image* i = trax_image_create_path("/a"); trax_image_list_set(l, i, TRAX_CHANNEL_COLOR); trax_region* g = trax_region_create_rectangle(1, 2, 3, 4); trax_object_list* o = trax_object_list_create(1); trax_object_list_set(o, 0, g); r = trax_client_initialize(h, l, o, nullptr); trax_object_list_release(&o); trax_region_release(&g); trax_image_list_release(&l); trax_image_release(&i); }
      if (r != TRAX_OK || s.b->data.compare(0, 17, "@@TRAX:initialize")) c.fail("session", "the connection does not work: " + mc::esc(s.b->data));
    }
    cl.reset(); if (h) trax_cleanup(&h); c.step(); if (W->open) c.fail("descriptors", "the connection is left open"); if (!shim::vfd_get(srv)) c.fail("descriptors", "the listening socket of the caller was closed"); shim::vfd_reset(); shim::check_balanced(c); c.outcome(got ? "accepted" : "given up");
  });
  return m.run();
}
