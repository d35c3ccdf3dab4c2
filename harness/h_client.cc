// K11: a TCP client against unreachable, reachable, vanishing and
// never-answering servers, stopped, disconnected and destroyed in every phase.
// Library time runs `accel` times faster than real time (the intercepted
// gettimeofday and timerfd_settime agree on it), so that the retry schedule up
// to its bound can be watched.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/connection/tcp_connection.h"
#include <mutex>
#include <map>
#include <sys/time.h>
#include <sys/timerfd.h>
using namespace kanon;
using vh::Rng;

static std::atomic<int> g_accel{1};
static std::atomic<int64_t> g_base{0};  // real us at which fake == real
static int64_t real_us() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000ll + ts.tv_nsec / 1000; }
static int64_t fake_us() { int64_t r = real_us(), b = g_base; return b + (r - b) * g_accel; }

// ------------------------------------------------------- what the client does
struct Plan {
  std::mutex mu;
  int port = 0;                 // attempts to this port are the client's
  std::vector<int> next;        // outcome of the next attempts: errno, 0 = real, -1 = self connect, -errno = fails later
  std::map<int, int> later;     // descriptors whose attempt fails when it completes
  std::vector<int64_t> at, arm; // fake time of each attempt; timer armed after each attempt
  std::vector<int> fds;
  std::atomic<long> n{0};
  void reset(int p) { std::lock_guard<std::mutex> g(mu); port = p; next.clear(); at.clear(); arm.clear(); fds.clear(); later.clear(); n = 0; }
};
static Plan &P() { static Plan *p = new Plan; return *p; }

extern "C" {
int __real_gettimeofday(struct timeval *, void *);
int __real_timerfd_settime(int, int, const struct itimerspec *, struct itimerspec *);
int __real_connect(int, const sockaddr *, socklen_t);
int __wrap_gettimeofday(struct timeval *tv, void *) {
  int64_t f = fake_us();
  tv->tv_sec = f / 1000000;
  tv->tv_usec = f % 1000000;
  return 0;
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *v, struct itimerspec *o) {
  int64_t ns = v->it_value.tv_sec * 1000000000ll + v->it_value.tv_nsec, iv = v->it_interval.tv_sec * 1000000000ll + v->it_interval.tv_nsec;
  if (ns >= 50000000) {
    std::lock_guard<std::mutex> g(P().mu);
    if (!P().arm.empty()) P().arm.back() = ns / 1000;
  }
  int k = g_accel;
  struct itimerspec w = *v;
  if (ns) { ns = std::max<int64_t>(1000, ns / k); w.it_value.tv_sec = ns / 1000000000; w.it_value.tv_nsec = ns % 1000000000; }
  if (iv) { iv = std::max<int64_t>(1000, iv / k); w.it_interval.tv_sec = iv / 1000000000; w.it_interval.tv_nsec = iv % 1000000000; }
  return __real_timerfd_settime(fd, fl, &w, o);
}
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int fd, int lv, int name, void *v, socklen_t *l) {
  int r = __real_getsockopt(fd, lv, name, v, l);
  if (r == 0 && lv == SOL_SOCKET && name == SO_ERROR && *l == sizeof(int)) {
    std::lock_guard<std::mutex> g(P().mu);
    auto it = P().later.find(fd);
    if (it != P().later.end()) { *(int *)v = it->second; P().later.erase(it); vh::count("late_errors"); }
  }
  return r;
}
int __wrap_connect(int fd, const sockaddr *sa, socklen_t l) {
  const sockaddr_in *a = (const sockaddr_in *)sa;
  int what = 0;
  {
    std::lock_guard<std::mutex> g(P().mu);
    if (sa->sa_family != AF_INET || ntohs(a->sin_port) != P().port) return __real_connect(fd, sa, l);
    P().at.push_back(fake_us());
    P().arm.push_back(0);
    P().fds.push_back(fd);
    P().n++;
    if (!P().next.empty()) { what = P().next.front(); P().next.erase(P().next.begin()); }
  }
  if (what == EINTR) { __real_connect(fd, sa, l); errno = EINTR; return -1; }  // the attempt goes on
  if (what > 0) { errno = what; return -1; }
  if (what < -1) {  // in progress now, the error comes with the event
    int s2[2];
    if (-what % 2) {  // a connection which is reset: EPOLLERR
      int p = vh::free_port(), lf = vh::raw_listen(p), a = vh::raw_socket(), b = -1;
      sockaddr_in me = vh::my_addr(p);
      if (lf >= 0) {
        __real_connect(a, (sockaddr *)&me, sizeof me);
        vh::wait_for([&] { b = accept4(lf, nullptr, nullptr, SOCK_CLOEXEC); return b >= 0; }, 100);
      }
      if (b >= 0) { vh::raw_rst(b); dup3(a, fd, O_CLOEXEC); }
      close(a);
      if (lf >= 0) close(lf);
    } else if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, s2) == 0) {
      dup3(s2[0], fd, O_CLOEXEC);
      close(s2[0]);
      close(s2[1]);  // writable and hung up
    }
    std::lock_guard<std::mutex> g(P().mu);
    P().later[fd] = -what;
    errno = EINPROGRESS;
    return -1;
  }
  if (what == -1) {  // the kernel picks the target's own port
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (bind(fd, sa, l) == 0) vh::count("self_connects");
  }
  return __real_connect(fd, sa, l);
}
}
static int peer_connect(int fd, int port) {  // the harness's own sockets
  sockaddr_in a = vh::my_addr(port);
  return (int)syscall(SYS_connect, fd, &a, sizeof a);
}

struct St {
  std::atomic<int> ups{0}, downs{0};
  std::atomic<int> on_up{0}, on_down{0}, on_msg{0};  // actions: 1 Disconnect, 2 Stop, 3 drop client, 4 Connect, 5 ForceClose
  std::mutex mu;
  TcpClientPtr cli;
  TcpConnectionPtr conn;
  std::string got;
  std::atomic<long> ngot{0};
  EventLoop *loop = nullptr;
  bool hold = false;
  int port = 0;
  TcpClientPtr get() { std::lock_guard<std::mutex> g(mu); return cli; }
  void drop() {
    TcpClientPtr c;
    { std::lock_guard<std::mutex> g(mu); c.swap(cli); }
    c.reset();
  }
  void drop_conn() {
    TcpConnectionPtr c;
    { std::lock_guard<std::mutex> g(mu); c.swap(conn); }
    c.reset();
  }
  void act(int what, TcpConnectionPtr const &c) {
    TcpClientPtr k;
    switch (what) {
    case 1: if ((k = get())) k->Disconnect(); break;
    case 2: if ((k = get())) k->Stop(); break;
    case 3: drop(); break;
    case 4: if ((k = get())) k->Connect(); break;
    case 5: c->ForceClose(); break;
    }
  }
  void on_conn(TcpConnectionPtr const &c) {
    if (!c->GetLoop()->IsLoopInThread() || c->GetLoop() != loop) vh::viol("wrong-loop", "connection callback outside the client's loop");
    if (c->IsConnected()) {
      int u = ++ups;
      if (u != downs + 1) vh::viol("two-connections", "%d ups with %d downs", u, downs.load());
      if (c->GetLocalAddr().GetPort() == c->GetPeerAddr().GetPort() && c->GetLocalAddr().ToIp() == c->GetPeerAddr().ToIp())
        vh::viol("self-connection", "a connection of the client to itself is reported as up");
      if (c->GetPeerAddr().GetPort() != port) vh::viol("peer-addr", "peer port %d, server is on %d", (int)c->GetPeerAddr().GetPort(), port);
      if (hold) { std::lock_guard<std::mutex> g(mu); conn = c; }
      act(on_up.exchange(0), c);
    } else {
      int d = ++downs;
      if (d > ups) vh::viol("down-without-up", "%d downs with %d ups", d, ups.load());
      act(on_down.exchange(0), c);
      drop_conn();
    }
  }
  void on_message(TcpConnectionPtr const &c, Buffer &b) {
    if (ups != downs + 1) vh::viol("message-outside", "message with %d ups, %d downs", ups.load(), downs.load());
    std::string s = b.RetrieveAllAsString();
    { std::lock_guard<std::mutex> g(mu); got += s; ngot = (long)got.size(); }
    c->Send(s.data(), s.size());
    act(on_msg.exchange(0), c);
  }
};

struct Scene {
  Rng r{1};
  std::unique_ptr<vh::LoopHost> L;
  std::shared_ptr<St> S;
  int port = 0, lfd = -1;
  std::vector<int> fillers;
  std::vector<int> live;  // accepted connections that are open
  std::string log;
  void note(const std::string &s) { log += s + ";"; }

  void listen_on(int backlog = 64) {
    if (!vh::wait_for([&] { lfd = vh::raw_listen(port, backlog); return lfd >= 0; })) { printf("HARNESS-ERROR listen\n"); fflush(stdout); _exit(3); }
    note("listen");
  }
  void unlisten() {
    if (lfd >= 0) close(lfd);
    lfd = -1;
    for (int f : fillers) close(f);
    fillers.clear();
  }
  // a server whose accept queue is full: connects neither succeed nor fail
  void blackhole() {
    listen_on(0);
    for (int i = 0; i < 6; ++i) {
      int f = vh::raw_socket();
      sockaddr_in me = vh::my_addr(0);
      (void)!bind(f, (sockaddr *)&me, sizeof me);
      peer_connect(f, port);
      fillers.push_back(f);
    }
    vh::wait_for([&] { return (vh::raw_poll(fillers[0], POLLOUT, 1) & POLLOUT) != 0; });
    note("blackhole");
  }
  int accept_one(const char *why, bool must = true) {
    int fd = -1;
    if (!vh::wait_for([&] { fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); return fd >= 0; }, must ? 2000 : 30)) {
      if (must) VFATAL("hang:never-connects", "%s: the server is listening but no connection arrives (%ld attempts) [%s]", why, P().n.load(), log.c_str());
      return -1;
    }
    live.push_back(fd);
    vh::count("accepted");
    return fd;
  }
  // no second connection is held
  void no_extra(const char *why) {
    int fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
    if (fd < 0) return;
    // a connection whose end was already closed is not held
    bool dead = vh::wait_for([&] { char b[64]; ssize_t k = vh::raw_recv(fd, b, sizeof b); return k == 0 || (k < 0 && errno != EAGAIN); }, 50);
    close(fd);
    if (!dead) vh::viol("extra-connection", "%s: the client holds a second connection [%s]", why, log.c_str());
  }
  void close_peer(int fd) {
    for (auto &x : live) if (x == fd) { x = live.back(); live.pop_back(); break; }
    switch (r.below(3)) {
    case 0: vh::raw_rst(fd); break;
    case 1: close(fd); break;
    default: ::shutdown(fd, SHUT_WR); vh::wait_for([&] { char b[4096]; ssize_t k = vh::raw_recv(fd, b, sizeof b); return k == 0 || (k < 0 && errno != EAGAIN); }, 100); close(fd);
    }
    note("peer-close");
  }
  // reads until end of stream; returns what arrived, *rst tells a reset
  std::string read_all(int fd, bool *rst, const char *why) {
    std::string s;
    *rst = false;
    if (!vh::wait_for([&] {
          char b[4096];
          for (;;) {
            ssize_t k = vh::raw_recv(fd, b, sizeof b);
            if (k > 0) { s.append(b, (size_t)k); continue; }
            if (k == 0) return true;
            if (errno == EAGAIN) return false;
            *rst = true;
            return true;
          }
        })) VFATAL("hang:no-end", "%s: the peer never sees the end of the connection (%zu bytes) [%s]", why, s.size(), log.c_str());
    return s;
  }
  void wait_up(int n, const char *why) {
    if (!vh::wait_for([&] { return S->ups.load() >= n; }, 2000)) VFATAL("hang:no-up", "%s: %d ups, expected %d; %ld attempts [%s]", why, S->ups.load(), n, P().n.load(), log.c_str());
  }
  void wait_down(int n, const char *why) {
    if (!vh::wait_for([&] { return S->downs.load() >= n; }, 2000)) VFATAL("hang:no-down", "%s: %d downs, expected %d [%s]", why, S->downs.load(), n, log.c_str());
  }
  void echo(int fd) {
    std::string m = r.bytes(1 + r.below(300)), g;
    vh::raw_send(fd, m.data(), m.size());
    if (!vh::wait_for([&] { char b[512]; ssize_t k = vh::raw_recv(fd, b, sizeof b); if (k > 0) g.append(b, (size_t)k); return g.size() >= m.size(); }))
      VFATAL("hang:no-echo", "the connection does not carry data (%zu of %zu) [%s]", g.size(), m.size(), log.c_str());
    if (g != m) vh::viol("echo", "the peer got something else than was sent [%s]", log.c_str());
  }
  // runs f on the loop thread, on this thread or on another one
  void from_anywhere(std::function<void()> f) {
    switch (r.below(3)) {
    case 0: L->sync(f); break;
    case 1: f(); break;
    default: { vh::Group G("caller"); G.go(f); G.join(); }
    }
  }
  void make() {
    S = std::make_shared<St>();
    S->port = port;
    S->loop = L->get();
    S->hold = r.chance(1, 4);
    auto st = S;
    S->cli = NewTcpClient(L->get(), InetAddr(vh::my_addr(port)), "client", r.chance(1, 2));
    S->cli->SetConnectionCallback([st](TcpConnectionPtr const &c) { st->on_conn(c); });
    S->cli->SetMessageCallback([st](TcpConnectionPtr const &c, Buffer &b, TimeStamp) { st->on_message(c, b); });
  }
  void settle() { L->sync(); L->sync(); }
  // after `what`, no attempt is ever made again
  struct Base { long n; int u; };
  Base base() { settle(); return Base{P().n.load(), S->ups.load()}; }
  void silent(const char *what, int ms) { silent(what, ms, base()); }
  void silent(const char *what, int ms, Base b) {
    settle();
    long n0 = b.n;
    int u0 = b.u;
    vh::sleep_us(ms * 1000);
    settle();
    if (P().n.load() != n0) vh::viol("attempt-after", "%ld attempts after %s [%s]", P().n.load() - n0, what, log.c_str());
    if (S->ups.load() != u0) vh::viol("up-after", "connection reported up after %s [%s]", what, log.c_str());
    vh::count("silences");
  }
};

static int pick_err(Rng &r) {
  static const int e[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EADDRNOTAVAIL, EAGAIN};
  return e[r.below(6)];
}

static int pick_late(Rng &r) {
  static const int e[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET};
  return e[r.below(5)];
}

// unreachable for `fails` attempts, then reachable
static void t_retry(Scene &s, bool schedule) {
  Rng &r = s.r;
  int fails = schedule ? 6 + (int)r.below(4) : (int)r.below(4);
  int mode = (int)r.below(5);  // how attempts fail
  {
    std::lock_guard<std::mutex> g(P().mu);
    for (int i = 0; i < fails; ++i) P().next.push_back(mode == 0 ? 0 : mode == 1 ? pick_err(r) : mode == 2 ? (r.chance(1, 2) ? 0 : pick_err(r)) : mode == 3 ? -1 : r.chance(2, 3) ? -pick_late(r) : pick_err(r));
    if (r.chance(1, 8)) P().next.push_back(EINTR);  // the attempt goes on
  }
  s.make();
  bool retry = r.chance(1, 2);
  if (retry) s.S->get()->EnableRetry();
  s.note("retry mode " + std::to_string(mode) + " fails " + std::to_string(fails));
  s.from_anywhere([&] { s.S->get()->Connect(); });
  if (r.chance(1, 4)) { s.S->get()->Connect(); s.note("connect twice"); }
  long goal = fails + (mode == 3 ? 0 : (long)r.below(2));
  if (mode == 3) {
    // the self connections end when the attempts are used up
  }
  if (!vh::wait_for([&] { return P().n.load() >= goal; }, 3000)) VFATAL("hang:gave-up", "only %ld attempts of an unreachable client, expected %ld [%s]", P().n.load(), goal, s.log.c_str());
  if (s.S->ups.load()) vh::viol("up-unreachable", "connection reported up though no server exists [%s]", s.log.c_str());
  s.listen_on();
  int fd = s.accept_one("after failures");
  s.wait_up(1, "after failures");
  s.echo(fd);
  s.no_extra("after failures");
  vh::count("retries", fails);
  int rounds = retry ? (int)r.below(4) : 0, ups = 1;
  for (int i = 0; i < rounds; ++i) {
    bool gap = r.chance(1, 3);  // the server goes away for some attempts
    if (gap) s.unlisten();
    s.close_peer(fd);
    s.wait_down(ups, "peer closed");
    if (gap) {
      long n0 = P().n.load();
      if (!vh::wait_for([&] { return P().n.load() > n0; }, 3000)) VFATAL("hang:no-reconnect", "no attempt after the connection was lost [%s]", s.log.c_str());
      s.listen_on();
    }
    fd = s.accept_one("reconnect");
    s.wait_up(++ups, "reconnect");
    if (r.chance(1, 2)) s.echo(fd);
    s.no_extra("reconnect");
    vh::count("reconnects");
  }
  if (retry) {
    // disconnecting ends the retrying
    auto b = s.base();
    s.from_anywhere([&] { s.S->get()->Disconnect(); });
    bool rst;
    std::string rest = s.read_all(fd, &rst, "disconnect");
    s.close_peer(fd);
    s.wait_down(ups, "disconnect");
    s.silent("Disconnect()", 8, b);
  } else {
    auto b = s.base();
    s.close_peer(fd);
    s.wait_down(ups, "peer closed");
    s.silent("the connection was lost without retry enabled", 8, b);
    if (r.chance(1, 2)) {  // asked again
      s.S->get()->Connect();
      fd = s.accept_one("second Connect()");
      s.wait_up(++ups, "second Connect()");
      s.echo(fd);
      s.close_peer(fd);
      s.wait_down(ups, "peer closed");
      vh::count("second_connects");
    }
  }
}

// the armed pauses grow up to a bound
static bool pauses_ok(std::string *why) {
  std::vector<int64_t> d;
  {
    std::lock_guard<std::mutex> g(P().mu);
    d = P().arm;
  }
  std::string all;
  std::vector<int64_t> v;
  for (auto x : d) { all += std::to_string(x / 1000) + " "; if (x) v.push_back(x); }
  *why = all;
  if (v.size() < 5) return true;
  for (auto x : v) if (x > 60000000) { *why = "a pause of more than a minute: " + all; return false; }
  if (v[0] > 5000000) { *why = "first pause of more than 5 s: " + all; return false; }
  int64_t early = std::max(v[0], v[1]), late = std::max(v[3], v[4]);
  if (late < early * 2 && late < 20000000) { *why = "pauses do not grow: " + all; return false; }
  return true;
}

enum Phase { IDLE, FRESH, CONNECTING, WAITING, CONNECTED, DISCONNECTING, NPHASE };
static const char *phase_name(int p) { static const char *n[] = {"idle", "just asked", "connecting", "waiting to retry", "connected", "disconnecting"}; return n[p]; }

// brings the client into a phase; returns the accepted descriptor if there is one
static int enter(Scene &s, int ph) {
  Rng &r = s.r;
  int fd = -1;
  s.make();
  if (r.chance(1, 2)) s.S->get()->EnableRetry();
  s.note(phase_name(ph));
  switch (ph) {
  case IDLE: break;
  case FRESH:
    if (r.chance(1, 2)) s.listen_on();
    s.from_anywhere([&] { s.S->get()->Connect(); });
    break;
  case CONNECTING:
    s.blackhole();
    s.S->get()->Connect();
    vh::wait_for([&] { return P().n.load() >= 1; });
    if (r.chance(1, 2)) s.settle();
    break;
  case WAITING:
    s.S->get()->Connect();
    {
      long k = 1 + (long)r.below(3);
      vh::wait_for([&] { return P().n.load() >= k; });
    }
    if (r.chance(1, 2)) s.settle();
    break;
  case CONNECTED: case DISCONNECTING:
    s.listen_on();
    s.S->get()->Connect();
    fd = s.accept_one("phase");
    if (r.chance(3, 4) || ph == DISCONNECTING) s.wait_up(1, "phase");
    if (r.chance(1, 2)) s.echo(fd);
    if (ph == DISCONNECTING) s.from_anywhere([&] { s.S->get()->Disconnect(); });
    break;
  }
  return fd;
}

// stopped or disconnected inside a callback, or disconnected before the connection is up: no reconnecting
static void t_norestart(Scene &s) {
  Rng &r = s.r;
  int how = (int)r.below(4), what = 1 + (int)r.below(2);
  const char *nm[] = {"in the up callback", "in the message callback", "in the down callback", "before the connection is up"};
  s.make();
  s.S->get()->EnableRetry();
  s.note(std::string(what == 1 || how == 3 ? "Disconnect() " : "Stop() ") + nm[how]);
  if (how == 0) s.S->on_up = what;
  if (how == 1) s.S->on_msg = what;
  if (how == 2) s.S->on_down = what;
  if (how != 3) s.listen_on();
  s.S->get()->Connect();
  if (how == 3) {
    long k = 1 + (long)r.below(3);
    vh::wait_for([&] { return P().n.load() >= k; });
    s.settle();
    s.from_anywhere([&] { s.S->get()->Disconnect(); });
    s.listen_on();
  }
  int fd = s.accept_one("norestart");
  s.wait_up(1, "norestart");
  if (how == 1) { vh::raw_send(fd, "x", 1); vh::wait_for([&] { return s.S->ngot.load() == 1; }); }
  else if (how >= 2 || what == 2) s.echo(fd);
  auto b = s.base();
  if (b.n != (how == 3 ? b.n : 1)) vh::viol("attempt-after", "%ld attempts with one connection up [%s]", b.n, s.log.c_str());
  s.close_peer(fd);
  s.wait_down(1, "norestart");
  s.silent(nm[how], 8, b);
  s.no_extra("norestart");
  vh::count("norestarts");
}

static void t_stop(Scene &s) {
  Rng &r = s.r;
  int ph = (int)r.below(NPHASE);
  int fd = enter(s, ph);
  s.from_anywhere([&] { s.S->get()->Stop(); });
  s.note("stop");
  s.settle();
  if (fd < 0 && s.lfd >= 0 && ph == FRESH) {
    // it may have connected before it was stopped
    fd = s.accept_one("fresh", false);
  }
  if (ph == CONNECTING) {
    // room in the queue again: a stopped client must not come through
    for (int i = 0; i < 8; ++i) { int f = accept4(s.lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); if (f >= 0) close(f); }
  }
  s.silent("Stop()", 10);
  if (ph < CONNECTED && ph != FRESH && s.S->ups.load()) vh::viol("up-stopped", "up after being stopped while %s [%s]", phase_name(ph), s.log.c_str());
  if (s.S->ups.load() > s.S->downs.load() && fd >= 0) {
    if (ph == CONNECTED) s.echo(fd);
    auto b = s.base();
    s.close_peer(fd);
    s.wait_down(1, "peer closed after Stop()");
    s.silent("Stop() and the loss of the connection", 8, b);
  }
  if (s.lfd < 0 && r.chance(1, 2)) { s.listen_on(); s.silent("Stop() with a reachable server", 6); s.no_extra("stopped"); }
  vh::count("stops");
}

static void t_disconnect(Scene &s) {
  Rng &r = s.r;
  s.make();
  if (r.chance(1, 2)) s.S->get()->EnableRetry();
  s.listen_on();
  int how = (int)r.below(4);
  s.note("disconnect how " + std::to_string(how));
  if (how == 1) s.S->on_up = 1;
  if (how == 2) s.S->on_msg = 1;
  s.S->get()->Connect();
  int fd = s.accept_one("disconnect");
  std::string want;
  s.wait_up(1, "disconnect");
  auto b = s.base();
  bool conn_gone = false;
  if (how == 0 || how == 3) {
    want = r.bytes(r.chance(1, 3) ? 200000 + r.below(300000) : r.below(5000));
    auto c = s.S->get()->GetConnection();
    if (!c) conn_gone = true;
    else {
      s.from_anywhere([&] { if (!want.empty()) c->Send(want.data(), want.size()); });
      if (how == 3) vh::sleep_us(r.below(500));
      c.reset();
      s.from_anywhere([&] { s.S->get()->Disconnect(); });
    }
  } else if (how == 2) {
    want = r.bytes(1 + r.below(500));
    vh::raw_send(fd, want.data(), want.size());
  }
  bool rst = false;
  std::string got = s.read_all(fd, &rst, "disconnect");
  if (conn_gone) vh::viol("no-connection", "GetConnection() returned nothing though the connection is up [%s]", s.log.c_str());
  if (rst) vh::viol("disconnect-reset", "the peer saw a reset instead of the end of the stream [%s]", s.log.c_str());
  if (how == 2 ? want.compare(0, got.size(), got) != 0 || got.empty() : got != want) vh::viol("disconnect-lost", "%zu bytes sent before Disconnect(), the peer got %zu [%s]", want.size(), got.size(), s.log.c_str());
  s.close_peer(fd);
  s.wait_down(1, "disconnect");
  s.silent("Disconnect()", 10, b);
  s.no_extra("disconnected");
  vh::count("disconnects");
}

static void t_destroy(Scene &s) {
  Rng &r = s.r;
  int ph = (int)r.below(NPHASE + 2);
  int fd;
  bool pending = false;
  if (ph >= NPHASE) {  // destroyed inside one of its callbacks
    s.make();
    if (r.chance(1, 2)) s.S->get()->EnableRetry();
    s.listen_on();
    int how = (int)r.below(3);
    s.note("destroyed in callback " + std::to_string(how));
    (how == 0 ? s.S->on_up : how == 1 ? s.S->on_msg : s.S->on_down) = 3;
    s.S->get()->Connect();
    fd = s.accept_one("callback");
    s.wait_up(1, "callback");
    if (how == 1) vh::raw_send(fd, "x", 1);
    if (how == 2) { s.close_peer(fd); fd = -1; s.wait_down(1, "callback"); }
    vh::wait_for([&] { return !s.S->get(); });
  } else {
    fd = enter(s, ph);
    if (r.chance(1, 3)) vh::sleep_us(r.below(3000));
    auto st = s.S;
    if (ph == CONNECTED && r.chance(1, 2)) {  // destroyed with its calls still waiting for the loop
      int us = 100 + (int)r.below(900), n = 1 + (int)r.below(3);
      s.L->get()->QueueToLoop([us] { vh::sleep_us(us); });
      for (int i = 0; i < n; ++i) {
        auto c = st->get()->GetConnection();
        if (c && r.chance(2, 3)) c->Send("late", 4);
        else if (c) c->ShutdownWrite();
      }
      st->drop();
      pending = true;
      s.note("calls pending");
      vh::count("pending_destructions");
    } else
      s.from_anywhere([st] { st->drop(); });
    s.note("destroyed");
  }
  s.settle();
  if (ph == FRESH && s.lfd >= 0) fd = s.accept_one("fresh", false);  // it may have connected before
  bool user = false;
  {
    std::lock_guard<std::mutex> g(s.S->mu);
    user = s.S->conn != nullptr;
  }
  if (user && fd >= 0 && s.S->ups > s.S->downs) {
    // the user still holds the connection: it stays usable until it is closed
    if (ph == CONNECTED && !pending) s.echo(fd);
    if (r.chance(1, 2)) { TcpConnectionPtr c; { std::lock_guard<std::mutex> g(s.S->mu); c = s.S->conn; } if (c) s.from_anywhere([c] { c->ForceClose(); }); }
    else { s.close_peer(fd); fd = -1; }
    vh::count("held_connections");
  }
  if (fd >= 0) { bool rst; s.read_all(fd, &rst, "destroyed"); }
  s.silent("the destruction", 6);
  if (s.S->ups != s.S->downs) vh::viol("down-missing", "%d ups and %d downs after the client was destroyed [%s]", s.S->ups.load(), s.S->downs.load(), s.log.c_str());
  if (s.lfd < 0) { s.listen_on(); s.silent("the destruction", 3); s.no_extra("destroyed"); }
  vh::count("destructions");
}

// random calls from several threads at once while the server comes and goes
static void t_chaos(Scene &s) {
  Rng &r = s.r;
  s.make();
  s.S->get()->EnableRetry();
  bool up = r.chance(1, 2);
  if (up) s.listen_on();
  std::atomic<bool> stop{false};
  vh::Group G("callers");
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    uint64_t sd = r.next();
    G.go([&, sd] {
      Rng rr(sd);
      for (int k = 0; k < 12; ++k) {
        vh::nap(rr);
        auto c = s.S->get();
        if (!c) return;
        switch (rr.below(8)) {
        case 0: case 1: case 2: c->Connect(); break;
        case 3: if (rr.chance(1, 6)) c->Stop(); break;
        case 4: c->Disconnect(); break;
        case 5: c->EnableRetry(); break;
        case 6: if (auto p = c->GetConnection()) p->Send("hello", 5); break;
        default: if (auto p = c->GetConnection()) if (rr.chance(1, 2)) p->ForceClose(); break;
        }
        vh::sleep_us(rr.below(300));
      }
    });
  }
  std::vector<int> fds;
  for (int k = 0; k < 15; ++k) {
    if (s.lfd >= 0) {
      int f = accept4(s.lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
      if (f >= 0) fds.push_back(f);
      if (r.chance(1, 6)) s.unlisten();
    } else if (r.chance(1, 3)) s.listen_on();
    if (!fds.empty() && r.chance(1, 3)) {
      int f = fds.back();
      fds.pop_back();
      if (r.chance(1, 2)) vh::raw_rst(f);
      else close(f);
    }
    vh::sleep_us(r.below(400));
  }
  G.join();
  auto st = s.S;
  s.from_anywhere([st] { st->drop(); });
  s.settle();
  { TcpConnectionPtr c; { std::lock_guard<std::mutex> g(s.S->mu); c = s.S->conn; } if (c) s.from_anywhere([&] { c->ForceClose(); }); }  // a held one stays open until then
  s.S->drop_conn();
  s.settle();
  for (int f : fds) { bool rst; s.read_all(f, &rst, "chaos"); close(f); }
  s.settle();
  if (s.S->ups != s.S->downs) vh::viol("down-missing", "%d ups and %d downs after the client was destroyed [chaos]", s.S->ups.load(), s.S->downs.load());
  s.silent("the destruction", 2);
  vh::count("chaos");
}

static void one(long, Rng &r) {
  int fds = vh::open_fds();
  vh::g_eintr() = r.chance(1, 4) ? 5 : 0;
  vh::g_delay() = r.chance(1, 4) ? 6 : 0;
  int kind = (int)r.below(13);
  if (vh::opt_int("kind", -1) >= 0) kind = (int)vh::opt_int("kind", 0);
  bool schedule = kind == 0;
  int backend = (int)r.below(3), ups = 0, downs = 0;
  long attempts = 0;
  std::string what;
  for (int round = 0;; ++round) {
    g_base = real_us();
    g_accel = schedule ? 40 : 200;
    Scene s;
    s.r = Rng(r.next());
    s.L.reset(new vh::LoopHost(backend == 0, backend == 2));
    s.port = vh::free_port();
    P().reset(s.port);
    switch (kind) {
    case 0: case 1: case 2: t_retry(s, schedule); break;
    case 3: case 4: case 5: t_stop(s); break;
    case 6: case 7: t_disconnect(s); break;
    case 8: case 9: case 10: t_destroy(s); break;
    case 11: t_norestart(s); break;
    default: t_chaos(s); break;
    }
    s.S->drop();
    s.S->drop_conn();
    s.settle();
    for (int f : s.live) close(f);
    s.settle();
    s.unlisten();
    ups = s.S->ups; downs = s.S->downs;
    attempts = P().n.load();
    what = s.log;
    s.L.reset();
    if (!schedule) break;
    std::string why;
    vh::count("schedules");
    if (pauses_ok(&why)) break;
    if (round == 3) { vh::viol("pauses", "%s ms, four times in a row [%s]", why.c_str(), what.c_str()); break; }  // a stalled machine distorts one, not all
  }
  if (!vh::wait_for([&] { return vh::open_fds() <= fds; }, 300)) vh::viol("descriptor-leak", "%d descriptors before, %d after [%s]", fds, vh::open_fds(), what.c_str());
  uint64_t h = vh::mix(0, (uint64_t)(backend * 100 + kind));
  h = vh::mix(h, vh::hash_str(what));
  h = vh::mix(h, (uint64_t)(ups * 1000 + downs * 100 + std::min<long>(attempts, 99)));
  vh::seen(h);
  vh::count("attempts", attempts);
  vh::count("ups", ups);
  vh::sample("backend " + std::to_string(backend) + ": " + what);
}

int main(int argc, char **argv) {
  vh::quiet_log();
  vh::init(argc, argv);
  g_base = real_us();
  vh::run_cases([](long i, Rng &r) { one(i, r); });
  vh::finish();
}
