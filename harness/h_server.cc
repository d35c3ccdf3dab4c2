// K10: a TCP server under clients that come, abort and go, accept() failures,
// real descriptor exhaustion, and destruction at any moment.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include <mutex>
#include <map>
#include <set>
#include <sys/resource.h>
using namespace kanon;
using vh::Rng;

// ------------------------------------------------------- accept interception
struct AcceptLog {
  std::mutex mu;
  std::vector<int> order;    // peer ports, in the order the server got them
  std::set<int> dropped;     // accepted with accept(2) to be thrown away
  std::atomic<int> rate{0};  // 1/rate accepts fail
  std::atomic<bool> et{false}, thief{false}, enfile{false};  // enfile: the whole system is out of files, not only the process
  std::atomic<long> calls{0}, faults{0}, emfile{0};
  void reset() { std::lock_guard<std::mutex> g(mu); order.clear(); dropped.clear(); rate = 0; thief = false; enfile = false; }
};
static AcceptLog &AL() { static AcceptLog *a = new AcceptLog; return *a; }
static int port_of(const sockaddr *sa) { return ntohs(sa->sa_family == AF_INET6 ? ((const sockaddr_in6 *)sa)->sin6_port : ((const sockaddr_in *)sa)->sin_port); }
static int peer_port(int fd) {
  sockaddr_in6 a;
  socklen_t l = sizeof a;
  memset(&a, 0, sizeof a);
  if (getpeername(fd, (sockaddr *)&a, &l)) return -1;
  return port_of((sockaddr *)&a);
}
extern "C" {
int __real_accept4(int, sockaddr *, socklen_t *, int);
int __real_accept(int, sockaddr *, socklen_t *);
int __wrap_accept4(int fd, sockaddr *sa, socklen_t *l, int fl) {
  AL().calls++;
  int k = AL().rate;
  if (k && vh::t_rng().chance(1, k)) {
    static const int errs[] = {EINTR, ECONNABORTED, EPROTO, ENOBUFS, ENOMEM, EPERM, ENETDOWN, EHOSTUNREACH, ENONET, EMFILE, ENFILE, EMFILE};
    AL().faults++;
    int e = errs[vh::t_rng().below(12)];
    errno = e;
    return -1;
  }
  sockaddr_storage ss;
  socklen_t sl = sizeof ss;
  int r = __real_accept4(fd, (sockaddr *)&ss, &sl, fl);
  int e = errno;
  if (r >= 0) {
    std::lock_guard<std::mutex> g(AL().mu);
    AL().order.push_back(port_of((sockaddr *)&ss));
    if (sa && l) { memcpy(sa, &ss, std::min(*l, sl)); *l = sl; }
  } else if (e == EMFILE || e == ENFILE) {
    AL().emfile++;
    if (AL().enfile) e = ENFILE;
  }
  errno = e;
  return r;
}
int __wrap_accept(int fd, sockaddr *sa, socklen_t *l) {
  sockaddr_storage ss;
  socklen_t sl = sizeof ss;
  int r = __real_accept(fd, (sockaddr *)&ss, &sl);
  int e = errno;
  if (r >= 0) {
    std::lock_guard<std::mutex> g(AL().mu);
    AL().dropped.insert(port_of((sockaddr *)&ss));
  }
  errno = e;
  return r;
}
}

// ------------------------------------------------------------------- server
struct Rec {
  std::atomic<int> ups{0}, downs{0}, msgs{0};
  EventLoop *loop = nullptr;
  std::string name;
  TcpConnectionPtr held;
};

struct Cfg {
  int backend, nloops, nclients, moment, driver_threads;
  bool v6, pool, reuse, limit, walker;
};

struct Client {
  int fd = -1, port = 0, kind = 0;  // 0 talker 1 aborter 2 quick closer 3 idle 4 half closer
  bool resolved = false, gone = false;
};

static sockaddr_storage addr_of(bool v6, int port, socklen_t *l) {
  sockaddr_storage ss;
  memset(&ss, 0, sizeof ss);
  if (v6) {
    sockaddr_in6 *a = (sockaddr_in6 *)&ss;
    a->sin6_family = AF_INET6;
    a->sin6_port = htons((uint16_t)port);
    a->sin6_addr = in6addr_loopback;
    *l = sizeof *a;
  } else {
    sockaddr_in a = vh::my_addr(port);
    memcpy(&ss, &a, sizeof a);
    *l = sizeof a;
  }
  return ss;
}
static bool have_v6() {
  static int h = -1;
  if (h < 0) {
    int fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
    socklen_t l;
    sockaddr_storage a = addr_of(true, 0, &l);
    h = fd >= 0 && bind(fd, (sockaddr *)&a, l) == 0;
    if (fd >= 0) close(fd);
  }
  return h == 1;
}
// [::1] is shared by every process: reserve the port by an abstract socket
static int v6_port(int *lock) {
  static std::atomic<int> next{0};
  if (!next) next = 20000 + (int)(Rng((uint64_t)getpid() * 31 + vh::C().seed).below(12000));  // below the ephemeral ports
  for (int i = 0; i < 2000; ++i) {
    int p = next++;
    if (p > 32700) { next = 20000; continue; }
    int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    {
      struct { sa_family_t f; char n[40]; } u;
      memset(&u, 0, sizeof u);
      u.f = AF_UNIX;
      int n = snprintf(u.n + 1, 38, "vport6-%d", p);
      if (bind(fd, (sockaddr *)&u, (socklen_t)(sizeof(sa_family_t) + 1 + (size_t)n))) { close(fd); continue; }
    }
    int t = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
    setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    socklen_t l;
    sockaddr_storage a = addr_of(true, p, &l);
    bool ok = bind(t, (sockaddr *)&a, l) == 0 && listen(t, 1) == 0;
    close(t);
    if (ok) { *lock = fd; return p; }
    close(fd);
  }
  printf("HARNESS-ERROR no v6 port\n"); fflush(stdout); _exit(3);
}

struct Scene {
  Cfg c;
  Rng r{1};
  uint64_t seed = 0;
  std::mutex mu;
  std::map<int, std::shared_ptr<Rec>> recs;  // by peer port
  std::set<std::string> names;
  std::string bad;
  std::atomic<TcpServer *> srv{nullptr};
  std::atomic<bool> destroyed{false};
  std::atomic<int> kill_in{0};  // 1: in a message callback, 2: in a down callback, 3: in a write-complete callback
  std::atomic<long> total_ups{0};
  int port = 0;
  EventLoop *base = nullptr;
  std::vector<std::unique_ptr<Client>> cl;
  std::mutex clmu;
  std::set<int> used;

  void kill_here() {
    TcpServer *s = srv.exchange(nullptr);
    if (!s) return;
    delete s;
    destroyed = true;
  }
  std::shared_ptr<Rec> rec(int p) {
    std::lock_guard<std::mutex> g(mu);
    auto &x = recs[p];
    if (!x) x = std::make_shared<Rec>();
    return x;
  }
  void on_conn(TcpConnectionPtr const &c0) {
    int p = c0->GetPeerAddr().GetPort();
    auto x = rec(p);
    if (c0->IsConnected()) {
      {
        std::lock_guard<std::mutex> g(mu);
        x->loop = c0->GetLoop();  // read once ups says so
      }
      int u = x->ups.fetch_add(1);
      if (u) vh::viol("second-connection", "client on port %d got %d connections", p, u + 1);
      total_ups++;
      if (!c0->GetLoop()->IsLoopInThread()) vh::viol("wrong-loop", "up notification outside the connection's loop");
      if (destroyed) vh::viol("up-after-destroy", "connection reported up after the server was destroyed");
      {
        std::lock_guard<std::mutex> g(mu);
        x->name = c0->GetName();
        if (!names.insert(c0->GetName()).second) vh::viol("name-reused", "connection name %s used twice", c0->GetName().c_str());
        if (vh::t_rng().chance(1, 6)) x->held = c0;
      }
      if (c0->GetLocalAddr().GetPort() != port) vh::viol("local-addr", "local port %d, server listens on %d", (int)c0->GetLocalAddr().GetPort(), port);
      char want[64];
      socklen_t l;
      sockaddr_storage ss = addr_of(c.v6, port, &l);
      if (c.v6) strcpy(want, "::1");
      else inet_ntop(AF_INET, &((sockaddr_in *)&ss)->sin_addr, want, sizeof want);
      if (c0->GetLocalAddr().ToIp() != want || c0->GetPeerAddr().ToIp() != want)
        vh::viol("addresses", "local %s peer %s, expected %s", c0->GetLocalAddr().ToIpPort().c_str(), c0->GetPeerAddr().ToIpPort().c_str(), want);
    } else {
      if (x->ups.load() == 0) vh::viol("down-without-up", "port %d", p);
      int d = x->downs.fetch_add(1);
      if (d) vh::viol("second-down", "port %d reported down %d times", p, d + 1);
      if (kill_in == 2 && c0->GetLoop() == base) { kill_in = 0; kill_here(); }
    }
  }
  void on_msg(TcpConnectionPtr const &c0, Buffer &b) {
    auto x = rec(c0->GetPeerAddr().GetPort());
    if (x->ups != 1 || x->downs != 0) vh::viol("message-outside", "message with %d ups, %d downs", x->ups.load(), x->downs.load());
    x->msgs++;
    c0->Send(b.RetrieveAllAsString());
    if (kill_in == 1 && c0->GetLoop() == base) { kill_in = 0; kill_here(); }
  }
  bool on_wc(TcpConnectionPtr const &c0) {
    if (kill_in == 3 && c0->GetLoop() == base) { kill_in = 0; kill_here(); }
    return true;
  }

  // ------------------------------------------------------------ raw clients
  Client *dial(Rng &rr, int kind) {
    auto x = std::unique_ptr<Client>(new Client);
    x->kind = kind;
    x->fd = socket(c.v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    if (x->fd < 0) return nullptr;
    (void)rr;
    socklen_t l;
    sockaddr_storage me = addr_of(c.v6, 0, &l);
    for (int t = 0;; ++t) {  // a source port that this scenario has not used yet identifies the client
      if (bind(x->fd, (sockaddr *)&me, l)) { printf("HARNESS-ERROR bind %s\n", strerror(errno)); fflush(stdout); _exit(3); }
      sockaddr_storage nm;
      socklen_t l2 = sizeof nm;
      getsockname(x->fd, (sockaddr *)&nm, &l2);
      x->port = port_of((sockaddr *)&nm);
      {
        std::lock_guard<std::mutex> g(clmu);
        if (x->port != port && used.insert(x->port).second) break;
      }
      close(x->fd);
      x->fd = socket(c.v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
      if (x->fd < 0) return nullptr;
    }
    std::lock_guard<std::mutex> g(clmu);
    cl.push_back(std::move(x));
    return cl.back().get();
  }
  bool start(Client *x) {
    socklen_t l;
    sockaddr_storage sa = addr_of(c.v6, port, &l);
    if (connect(x->fd, (sockaddr *)&sa, l) == 0 || errno == EINPROGRESS) return true;
    return false;
  }
  // 1 connected, 0 refused
  bool established(Client *x) {
    if (!vh::wait_for([&] { return vh::raw_poll(x->fd, POLLOUT, 1) != 0; })) VFATAL("hang:connect", "connect() to the listening server never finished");
    int e = 0;
    socklen_t l = sizeof e;
    getsockopt(x->fd, SOL_SOCKET, SO_ERROR, &e, &l);
    return e == 0;
  }
  // sends a message and awaits its echo; false when the server closed the connection
  bool talk(Client *x, Rng &rr) {
    char out[64], in[64];
    size_t n = 1 + rr.below(60);
    vh::pat_fill(out, n, (uint32_t)x->port, rr.below(1000));
    size_t s = 0, g = 0;
    bool dead = false;
    if (!vh::wait_for([&] {
          if (s < n) {
            ssize_t k = vh::raw_send(x->fd, out + s, n - s);
            if (k > 0) s += (size_t)k;
            else if (k < 0 && errno != EAGAIN) { dead = true; return true; }
          }
          ssize_t k = vh::raw_recv(x->fd, in + g, sizeof in - g);
          if (k > 0) g += (size_t)k;
          else if (k == 0 || errno != EAGAIN) { dead = true; return true; }
          if (g < n && destroyed) { dead = true; return true; }  // somebody may still hold the connection
          return g >= n;
        })) VFATAL("hang:not-served", "client on port %d was never answered: ups %d downs %d messages %d, %zu of %zu bytes sent, %zu echoed, server accepted %zu; backend %d loops %d walker %d moment %d", x->port, rec(x->port)->ups.load(), rec(x->port)->downs.load(), rec(x->port)->msgs.load(), s, n, g, AL().order.size(), c.backend, c.nloops, c.walker, c.moment);
    if (!dead && (g != n || memcmp(in, out, n))) vh::viol("echo", "client %d received something else than it sent", x->port);
    return !dead;
  }
  void hang_up(Client *x, Rng &rr) {
    if (x->fd < 0) return;
    if (rr.chance(1, 4)) vh::raw_rst(x->fd);
    else close(x->fd);
    x->fd = -1;
    x->gone = true;
  }
  // what a client may legitimately see when the server is not destroyed: served, or dropped by the exhaustion handling
  void check_dropped(Client *x, const char *when) {
    std::lock_guard<std::mutex> g(AL().mu);
    if (!AL().dropped.count(x->port) && !destroyed && srv.load() && !killing)
      vh::viol("closed-client", "client on port %d was disconnected by a running server (%s)", x->port, when);
  }
  std::atomic<bool> killing{false};

  void drive(uint64_t sd, int n) {
    Rng rr(sd);
    std::vector<Client *> mine;
    for (int i = 0; i < n && !killing; ++i) {
      vh::nap(rr);
      int k = (int)rr.below(10);
      Client *x = dial(rr, k < 5 ? 0 : k < 6 ? 1 : k < 7 ? 2 : k < 9 ? 3 : 4);
      if (!x) continue;
      if (!start(x)) {
        if (!killing) vh::viol("refused", "connect: %s", strerror(errno));
        continue;
      }
      vh::count("clients");
      mine.push_back(x);
      switch (x->kind) {
      case 1: if (rr.chance(1, 2)) established(x); vh::raw_rst(x->fd); x->fd = -1; x->gone = true; break;
      case 2: if (rr.chance(1, 2)) established(x); close(x->fd); x->fd = -1; x->gone = true; break;
      case 4:
        if (established(x)) { ::shutdown(x->fd, SHUT_WR); }
        break;
      case 0:
        if (!established(x)) { if (!killing) vh::viol("refused", "connection refused by a listening server"); x->gone = true; break; }
        if (rr.chance(1, 2)) { if (!talk(x, rr)) { check_dropped(x, "talk"); hang_up(x, rr); } }
        break;
      }
      if (rr.chance(1, 5) && !mine.empty()) hang_up(mine[rr.below(mine.size())], rr);
    }
    for (auto *x : mine)
      if (x->fd >= 0 && x->kind == 0 && !x->gone) {
        if (!talk(x, rr)) { check_dropped(x, "talk"); hang_up(x, rr); }
        else x->resolved = true;
      }
  }
};

static void one(long, Rng &r) {
  auto S = std::make_shared<Scene>();
  Cfg &c = S->c;
  c.backend = (int)r.below(3);
  static const int nl[] = {0, 0, 1, 2, 3, 5};
  c.nloops = nl[r.below(6)];
  c.nclients = 1 + (int)r.below(r.chance(1, 20) ? 260 : r.chance(1, 5) ? 60 : 14);
  c.driver_threads = 1 + (int)r.below(3);
  c.v6 = r.chance(1, 5) && have_v6();
  c.pool = r.chance(1, 3);
  c.reuse = r.chance(1, 3);
  c.limit = r.chance(1, 6);
  c.walker = r.chance(1, 3);
  c.moment = (int)r.below(8);
  if (vh::opt_int("backend", -1) >= 0) c.backend = (int)vh::opt_int("backend", 0);
  if (vh::opt_int("moment", -1) >= 0) c.moment = (int)vh::opt_int("moment", 0);
  S->seed = r.next();
  S->r = Rng(S->seed);
  vh::g_eintr() = r.chance(1, 4) ? 5 : 0;
  vh::g_delay() = r.chance(1, 4) ? 6 : 0;
  AL().reset();
  AL().et = c.backend == 2;
  int fds = vh::open_fds(), thr = vh::live_threads();
  int lock = -1;
  int injected = r.chance(1, 3) ? 1 + (int)r.below(5) : 0;
  {
    vh::LoopHost L(c.backend == 0, c.backend == 2);
    S->base = L.get();
    S->port = c.v6 ? v6_port(&lock) : vh::free_port();
    bool et = c.backend == 2;
    // construction and start
    L.sync([&] {
      socklen_t l;
      sockaddr_storage ss = addr_of(c.v6, S->port, &l);
      InetAddr a = c.v6 ? InetAddr(*(sockaddr_in6 *)&ss) : InetAddr(*(sockaddr_in *)&ss);
      auto *s = new TcpServer(L.get(), a, "S", c.reuse);
      s->SetLoopNum(c.nloops);
      s->SetThreadInitCallback([et](EventLoop *l2) { if (et) l2->SetEdgeTriggerMode(); });
      Scene *raw = S.get();
      s->SetConnectionCallback([raw](TcpConnectionPtr const &p) { raw->on_conn(p); });
      s->SetMessageCallback([raw](TcpConnectionPtr const &p, Buffer &b, TimeStamp) { raw->on_msg(p, b); });
      s->SetWriteCompleteCallback([raw](TcpConnectionPtr const &p) { return raw->on_wc(p); });
      if (c.pool) { s->EnablePool(true); if (r.chance(1, 2)) s->SetChunkPerBlock(1 + r.below(8)); }
      S->srv = s;
    });
    if (c.moment == 7) {  // never started, or destroyed right after the start
      if (r.chance(1, 2)) S->srv.load()->StartRun();
      L.sync([&] { S->kill_here(); });
      vh::count("destroyed_early");
    } else {
      TcpServer *s0 = S->srv.load();
      switch (r.below(3)) {
      case 0: L.sync([&] { s0->StartRun(); }); break;
      case 1: s0->StartRun(); break;
      default: {
        vh::Group G("starters");
        for (int i = 0; i < 3; ++i) G.go([&] { s0->StartRun(); });
        G.join();
      }
      }
      if (!vh::wait_for([&] { return s0->IsRunning(); })) VFATAL("hang:not-listening", "server never listens");
      L.sync();
      AL().rate = injected;
      vh::Group G("clients");
      int per = std::max(1, c.nclients / c.driver_threads);
      if (c.limit) {
        // descriptors really run out: the clients' sockets exist before the limit is set
        Rng rr(S->seed ^ 5);
        std::vector<Client *> v;
        for (int i = 0; i < c.nclients; ++i) if (auto *x = S->dial(rr, 3)) v.push_back(x);
        int hi = 0;
        {
          int t = dup(0);
          hi = t;
          close(t);
        }
        // leaves room for `room` accepted connections (lowest free numbers)
        int room = (int)r.below(3);
        struct rlimit old, lim;
        getrlimit(RLIMIT_NOFILE, &old);
        lim = old;
        lim.rlim_cur = (rlim_t)(hi + room);
        setrlimit(RLIMIT_NOFILE, &lim);
        AL().enfile = r.chance(1, 2);
        long polls0 = vh::g_polls().load();
        for (auto *x : v) if (!S->start(x)) vh::viol("refused", "connect: %s", strerror(errno));
        auto settled = [&] {
          std::lock_guard<std::mutex> g(AL().mu);
          size_t n = 0;
          for (auto *x : v) {
            bool in = AL().dropped.count(x->port) != 0;
            for (int p : AL().order) in = in || p == x->port;
            n += in;
          }
          return n == v.size();
        };
        if (!vh::wait_for(settled)) VFATAL("hang:exhausted", "with no descriptors left the server neither serves nor drops the waiting clients (%zu accepted, %zu dropped of %zu)", AL().order.size(), AL().dropped.size(), v.size());
        vh::count("exhaustions");
        int ri = vh::g_eintr().load();
        vh::g_eintr() = 0;
        AL().rate = 0;
        L.sync();
        long p1 = vh::g_polls().load(), a1 = AL().calls.load();
        vh::sleep_us(20000);
        long p2 = vh::g_polls().load(), a2 = AL().calls.load();
        if (p2 - p1 > 200 || a2 - a1 > 100) vh::viol("spin-exhausted", "out of descriptors, idle: %ld wake-ups and %ld accepts in 20 ms", p2 - p1, a2 - a1);
        (void)polls0;
        setrlimit(RLIMIT_NOFILE, &old);
        AL().enfile = false;
        vh::g_eintr() = ri;
        AL().rate = injected;
      }
      for (int i = 0; i < c.driver_threads; ++i) {
        uint64_t sd = S->r.next();
        G.go([S, sd, per] { S->drive(sd, per); });
      }
      std::atomic<bool> walking{c.walker};
      vh::Group W("walker");
      // ApplyAllPeers is documented thread-safe
      if (c.walker) W.go([&] {
        Rng wr(S->seed ^ 9);
        while (walking) {
          std::set<std::string> seen;
          s0->ApplyAllPeers([&](TcpConnectionPtr const &p) {
            if (!seen.insert(p->GetName()).second) vh::viol("walk-twice", "a connection was visited twice");
            if (wr.chance(1, 40)) p->Send("", 0);
          });
          vh::count("walks");
          vh::sleep_us(wr.below(500));
        }
      });
      bool early = c.moment == 1 || c.moment == 2;
      if (early && !c.walker) {
        // destroy while clients come and go
        vh::sleep_us(r.below(3000));
        S->killing = true;
        AL().rate = 0;
        if (c.moment == 1) L.sync([&] { S->kill_here(); });
        else {
          auto done = std::make_shared<std::atomic<bool>>(false);
          Scene *raw = S.get();
          L->RunAfter([raw, done] { raw->kill_here(); *done = true; }, 0.0005);
          if (!vh::wait_for([&] { return done->load(); })) VFATAL("hang:destroy", "server destructor did not return");
        }
        vh::count("destroyed_busy");
        G.join();
      } else {
        G.join();
        AL().rate = 0;
        walking = false;
        W.join();
        // whatever happened before, a new client is served
        Rng rr(S->seed ^ 77);
        for (int i = 0; i < 2; ++i) {
          Client *x = S->dial(rr, 0);
          if (!S->start(x) || !S->established(x)) { vh::viol("refused-later", "a later client was refused"); break; }
          if (!S->talk(x, rr)) vh::viol("dropped-later", "a later client was dropped");
          vh::count("later_clients");
        }
        L.sync();
        // everyone the server accepted got exactly one connection, in rotation
        std::vector<int> order;
        {
          std::lock_guard<std::mutex> g(AL().mu);
          order = AL().order;
        }
        std::vector<EventLoop *> loops;
        for (size_t k = 0; k < order.size(); ++k) {
          auto x = S->rec(order[k]);
          if (!vh::wait_for([&] { return x->ups.load() > 0; })) VFATAL("hang:no-connection", "client %zu (port %d) was accepted but never reported up", k, order[k]);
          std::lock_guard<std::mutex> g(S->mu);
          loops.push_back(x->loop);
        }
        size_t n = (size_t)c.nloops;
        std::set<EventLoop *> first;
        for (size_t k = 0; k < loops.size(); ++k) {
          if (n == 0) { if (loops[k] != S->base) vh::viol("rotation-base", "without IO loops, connection %zu is not on the base loop", k); }
          else {
            if (loops[k] == S->base) vh::viol("rotation-on-base", "connection %zu is on the base loop though there are %zu IO loops", k, n);
            if (k < n && !first.insert(loops[k]).second) vh::viol("rotation-first", "loop of connection %zu was used before the others (of %zu)", k, n);
            if (k >= n && loops[k] != loops[k - n]) vh::viol("rotation", "connection %zu is not on the loop of connection %zu (%zu loops)", k, k - n, n);
          }
        }
        vh::count("accepted", (long)order.size());
        // idle server: no spinning
        if (r.chance(1, 3)) {
          int ri = vh::g_eintr().load();
          vh::g_eintr() = 0;
          L.sync();
          vh::sleep_us(2000);
          long p1 = vh::g_polls().load(), a1 = AL().calls.load();
          vh::sleep_us(10000);
          if (vh::g_polls().load() - p1 > 200 || AL().calls.load() - a1 > 50) vh::viol("spin-idle", "idle server: %ld wake-ups, %ld accepts in 10 ms", vh::g_polls().load() - p1, AL().calls.load() - a1);
          vh::g_eintr() = ri;
        }
        S->killing = true;
        if (c.moment >= 3 && c.moment <= 5 && c.nloops == 0 && !c.walker) {
          // destroyed from inside one of its own callbacks
          int how = c.moment - 2;
          S->kill_in = how;
          for (int i = 0; i < 50 && !S->destroyed; ++i) {
            Client *x = S->dial(rr, 3);
            if (!S->start(x)) break;
            if (!S->established(x)) break;
            char ch = 'x';
            vh::raw_send(x->fd, &ch, 1);
            if (how == 2) { if (vh::wait_for([&] { return S->rec(x->port)->ups.load() > 0 || S->destroyed; })) S->hang_up(x, rr); }
            else vh::wait_for([&] { return S->destroyed.load(); }, 100);
          }
          if (!vh::wait_for([&] { return S->destroyed.load(); })) {
            L.sync([&] { S->kill_here(); });
          } else vh::count("destroyed_in_callback");
        } else {
          L.sync([&] { S->kill_here(); });
        }
      }
      if (c.walker) { walking = false; W.join(); if (!S->destroyed) L.sync([&] { S->kill_here(); }); }
    }
    if (!S->destroyed && S->srv.load()) L.sync([&] { S->kill_here(); });
    L.sync();
    L.sync();
    // one down for each up, the peers see the end, nobody listens any more
    {
      std::lock_guard<std::mutex> g(S->mu);
      for (auto &kv : S->recs) {
        if (kv.second->ups != kv.second->downs) vh::viol("down-missing", "port %d: %d ups and %d downs after the server was destroyed", kv.first, kv.second->ups.load(), kv.second->downs.load());
        if (kv.second->held) {
          auto h = kv.second->held;
          if (!h->IsDisconnected()) vh::viol("held-state", "a connection the user holds is not disconnected after the server is gone");
          h->Send("late", 4);
          h->ShutdownWrite();
          h->ForceClose();
          kv.second->held.reset();
          vh::count("held_connections");
        }
      }
    }
    for (auto &x : S->cl) {
      if (x->fd < 0) continue;
      if (!vh::wait_for([&] {
            char b[256];
            ssize_t k = vh::raw_recv(x->fd, b, sizeof b);
            return k == 0 || (k < 0 && errno != EAGAIN);
          })) VFATAL("hang:no-end", "client on port %d does not see the end of its connection after the server was destroyed", x->port);
      close(x->fd);
      x->fd = -1;
    }
    Rng rr(3);
    Client *x = S->dial(rr, 3);
    if (x) {
      S->start(x);
      if (vh::wait_for([&] { return vh::raw_poll(x->fd, POLLOUT, 1) != 0; })) {
        int e = 0;
        socklen_t l = sizeof e;
        getsockopt(x->fd, SOL_SOCKET, SO_ERROR, &e, &l);
        if (e != ECONNREFUSED && !(vh::raw_poll(x->fd, POLLOUT, 0) & (POLLERR | POLLHUP))) vh::viol("still-listening", "connect after the destruction: %s", e ? strerror(e) : "accepted");
      }
      close(x->fd);
    }
    if (!vh::wait_for([&] { return vh::live_threads() <= thr + 1; }, 500)) vh::viol("thread-leak", "%d threads before, %d after the server was destroyed", thr + 1, vh::live_threads());
  }
  if (lock >= 0) close(lock);
  if (!vh::wait_for([&] { return vh::open_fds() <= fds; }, 300)) vh::viol("descriptor-leak", "%d descriptors before, %d after", fds, vh::open_fds());
  // the configuration with the accept order and loop assignment that was observed
  uint64_t h = vh::mix(0, (uint64_t)(c.backend * 1000 + c.nloops * 100 + c.moment * 8 + c.v6 * 4 + c.pool * 2 + c.limit));
  for (auto &kv : S->recs) h = vh::mix(h, (uint64_t)(kv.second->ups * 16 + kv.second->downs * 8 + std::min(7, kv.second->msgs.load())));
  vh::seen(h);
  vh::count("connections", S->total_ups.load());
  vh::sample("backend " + std::to_string(c.backend) + " loops " + std::to_string(c.nloops) + " clients " + std::to_string(c.nclients) + " moment " + std::to_string(c.moment) + (c.limit ? " exhausted" : "") + (injected ? " accept faults" : ""));
}

int main(int argc, char **argv) {
  vh::quiet_log();
  vh::init(argc, argv);
  vh::run_cases([](long i, Rng &r) { one(i, r); });
  vh::count("accept_faults", AL().faults.load());
  vh::count("real_emfile", AL().emfile.load());
  vh::finish();
}
