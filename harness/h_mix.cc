// K28: random mixtures of everything that may be called from any thread, on
// one small world of loops, a server that is replaced now and then, clients,
// connections, timers, a thread pool, locks and logging.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/process/process_info.h"
#include "kanon/thread/atomic_counter.h"
#include "kanon/thread/condition.h"
#include "kanon/thread/count_down_latch.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/rw_lock.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_pool.h"
#include <dirent.h>
#include <mutex>
#include <shared_mutex>
#include <list>
#include <map>
using namespace kanon;
using vh::Rng;
using vh::count;

// glibc's time zone cache is initialised under a lock TSan does not see
extern "C" const char *__tsan_default_suppressions() { return "race:tzset_internal\nrace:tzfile_compute\nrace:__tz_convert\nrace:tzset\n"; }

// Harness counters are relaxed: they must not order what the library leaves unordered.
struct Cnt {
  std::atomic<long> v{0};
  void operator++() { v.fetch_add(1, std::memory_order_relaxed); }
  void operator++(int) { v.fetch_add(1, std::memory_order_relaxed); }
  operator long() const { return v.load(std::memory_order_relaxed); }
};

enum { SEND, CLOSE, READCTL, QUERY, TASK, TIMER, CANCEL, CLIENT, SERVER, LOG, LOCK, POOL, LATCH, PROC, THREAD, NOPS };
static const char *op_name[NOPS] = {"sends", "closes", "read_controls", "queries", "tasks", "timers", "cancels", "client_calls", "server_calls",
                                    "log_statements", "lock_operations", "pool_tasks", "latches", "process_calls", "loop_threads"};
static Cnt g_ops[NOPS], g_restarts, g_msgs, g_log_out, g_ups_total, g_high, g_complete;

// ------------------------------------------------------------------- world
struct Ref {
  TcpConnectionPtr c;
  uint64_t id;
  int gen;  // server side, on a loop of the server: the server it belongs to; else -1
};
struct Shot { std::atomic<int> fired{0}; bool cancelled = false; };
struct Timers { EventLoop *l; TimerId id; std::shared_ptr<Shot> shot; };

struct World {
  std::vector<std::unique_ptr<vh::LoopHost>> loops;
  int port = 0, io = 0, gen = 0;
  bool backlog = false;
  TcpServer *srv = nullptr;
  std::shared_timed_mutex srv_mu;  // exclusive: the server is replaced
  std::mutex mu;
  std::list<Ref> bag;
  std::vector<TcpClientPtr> clients;
  Cnt ups, downs, posted, ran, budget;
  // locks under test
  MutexLock lock;
  long locked = 0;
  Cnt lock_n, rw_n, atom_n;
  RWLock rw;
  long a = 0, b = 0;
  AtomicCounter32 atom;
  World() : atom(0) {}
};
static World *W;

static std::atomic<int> g_sender{1};
struct Me {
  int id = g_sender++;
  Rng r{(uint64_t)id * 7919 + vh::C().seed};
  std::map<uint64_t, uint32_t> seq;
};
static Me &me() { static thread_local Me m; return m; }
static std::atomic<uint64_t> g_conn{1};

// -------------------------------------------------------------- connections
struct Msg { char magic; uint16_t sender; uint32_t seq; uint16_t len; } __attribute__((packed));
struct Rx {
  std::map<uint16_t, uint32_t> last;
  __attribute__((no_sanitize("thread", "address"))) static size_t diff(const char *p, size_t n, uint32_t key) { return vh::pat_diff(p, n, key, 0); }
  void eat(Buffer &b) {
    while (b.GetReadableSize() >= sizeof(Msg)) {
      Msg m;
      memcpy(&m, b.GetReadBegin(), sizeof m);
      if (m.magic != '#') { vh::viol("bytes", "a message starts with 0x%02x", (unsigned char)m.magic); b.AdvanceAll(); return; }
      if (b.GetReadableSize() < sizeof m + m.len) return;
      uint32_t key = m.sender * 31u + m.seq;
      if (diff(b.GetReadBegin() + sizeof m, m.len, key) != m.len) vh::viol("bytes", "message %u of sender %u is damaged", m.seq, m.sender);
      auto &l = last[m.sender];
      if (m.seq <= l) vh::viol("order", "message %u of sender %u follows message %u", m.seq, m.sender, l);
      l = m.seq;
      g_msgs++;
      b.AdvanceRead(sizeof m + m.len);
    }
  }
};
static void on_conn(TcpConnectionPtr const &c, int gen) {
  if (c->IsConnected()) {
    auto rx = std::make_shared<Rx>();
    c->SetMessageCallback([rx](TcpConnectionPtr const &, Buffer &b, TimeStamp) { rx->eat(b); });
    c->SetHighWaterMarkCallback([](TcpConnectionPtr const &, size_t) { g_high++; }, 20000);
    W->ups++;
    std::lock_guard<std::mutex> g(W->mu);
    W->bag.push_back(Ref{c, g_conn++, gen});
  } else {
    {
      std::lock_guard<std::mutex> g(W->mu);
      for (auto it = W->bag.begin(); it != W->bag.end(); ++it) if (it->c == c) { W->bag.erase(it); break; }
    }
    W->downs++;
  }
}
static bool pick(Rng &r, Ref *out) {
  std::lock_guard<std::mutex> g(W->mu);
  if (W->bag.empty()) return false;
  auto it = W->bag.begin();
  std::advance(it, (long)r.below(W->bag.size()));
  *out = *it;
  return true;
}
// A connection of a server's own loop may only be used while that server lives.
struct Use {
  std::shared_lock<std::shared_timed_mutex> l;
  bool ok;
  Use(int gen, bool in_loop) : l(W->srv_mu, std::defer_lock), ok(true) {
    if (gen < 0) return;
    if (in_loop) ok = l.try_lock(); else l.lock();
    if (ok) ok = gen == W->gen;
  }
};
static void send_one(Me &m, const Ref &k) {
  static thread_local std::string s;
  size_t n = m.r.chance(1, 6) ? m.r.below(30000) : m.r.below(200);
  Msg h = {'#', (uint16_t)m.id, ++m.seq[k.id], (uint16_t)n};
  s.assign((const char *)&h, sizeof h);
  s.resize(sizeof h + n);
  vh::pat_fill(&s[sizeof h], n, h.sender * 31u + h.seq, 0);
  switch (m.r.below(4)) {
  case 0: k.c->Send(StringView(s.data(), s.size())); break;
  case 1: k.c->Send(s.data(), s.size()); break;
  case 2: { Buffer b; b.Append(s.data(), s.size()); k.c->Send(b); break; }
  default: { ChunkList l; l.Append(s.data(), s.size()); k.c->Send(l); break; }
  }
}

static void server_make() {  // in the loop of the server
  int gen = W->io ? W->gen : -1;
  W->srv = new TcpServer(W->loops[0]->get(), InetAddr(inet_ntoa(vh::my_addr(0).sin_addr), (uint16_t)W->port), "mix", true);
  W->srv->SetLoopNum(W->io);
  if (me().r.chance(1, 3)) W->srv->EnablePool(true);
  W->srv->SetConnectionCallback([gen](TcpConnectionPtr const &c) { on_conn(c, gen); });
  W->srv->SetWriteCompleteCallback([](TcpConnectionPtr const &) { g_complete++; return true; });
}
static TcpClientPtr client_make(Rng &r) {
  auto c = NewTcpClient(W->loops[r.below(W->loops.size())]->get(), InetAddr(inet_ntoa(vh::my_addr(0).sin_addr), (uint16_t)W->port), "c");
  c->SetConnectionCallback([](TcpConnectionPtr const &k) { on_conn(k, -1); });
  c->SetWriteCompleteCallback([](TcpConnectionPtr const &) { g_complete++; return true; });
  if (r.chance(1, 2)) c->EnableRetry();
  return c;
}

// --------------------------------------------------------------- operations
static void op(bool in_loop, bool in_pool, ThreadPool *pool, std::vector<Timers> *timers, std::vector<Ref> *snap);

static EventLoop *any_loop(Rng &r) { return W->loops[r.below(W->loops.size())]->get(); }

static void task_body(bool nested) {
  if (nested && W->budget < 3000) { W->budget++; op(true, false, nullptr, nullptr, nullptr); }
  W->ran++;
}
static void op(bool in_loop, bool in_pool, ThreadPool *pool, std::vector<Timers> *timers, std::vector<Ref> *snap) {
  Me &m = me();
  Rng &r = m.r;
  uint64_t w = r.below(100);
  if (w < 45) {  // connections
    Ref k;
    if (snap && !snap->empty() && r.chance(9, 10)) k = (*snap)[r.below(snap->size())];
    else if (!pick(r, &k)) return;
    Use u(k.gen, in_loop);
    if (!u.ok) return;
    if (w < 27) { g_ops[SEND]++; send_one(m, k); }
    else if (w < 30) { g_ops[CLOSE]++; if (r.chance(1, 2)) k.c->ShutdownWrite(); else k.c->ForceClose(); }
    else if (w < 34) { 
      g_ops[READCTL]++;  // a matter of the loop of the connection
      auto c = k.c;
      bool off = r.chance(1, 3);
      c->GetLoop()->RunInLoop([c, off] { if (off) c->DisbaleRead(); else c->EnableRead(); });
    }
    else {
      g_ops[QUERY]++;
      bool up = k.c->IsConnected(), down = k.c->IsDisconnected();
      (void)k.c->IsDisconnecting(); (void)k.c->IsConnecting();
      if (up && down && false) return;
      if (k.c->GetName().empty()) vh::viol("name", "a connection without name");
      if (!k.c->GetLoop()) vh::viol("loop", "a connection without loop");
      if (k.c->GetLocalAddr().ToIpPort().empty() || k.c->GetPeerAddr().ToIpPort().empty()) vh::viol("addr", "a connection without address");
      if (r.chance(1, 6)) k.c->SetNoDelay(r.chance(1, 2));
    }
  } else if (w < 57) {
    g_ops[TASK]++;
    W->posted++;
    bool nested = r.chance(1, 2);
    auto x = std::make_shared<int>(7);
    if (r.chance(1, 2)) any_loop(r)->QueueToLoop([nested, x] { ++*x; task_body(nested); });
    else any_loop(r)->RunInLoop([nested, x] { ++*x; task_body(nested); });
  } else if (w < 65) {
    g_ops[TIMER]++;
    EventLoop *l = any_loop(r);
    auto s = std::make_shared<Shot>();
    bool every = r.chance(1, 5);
    double d = (double)r.below(4000) / 1e6;
    TimerId id = every ? l->RunEvery([s] { s->fired++; }, 0.0002 + d)
                 : r.chance(1, 2) ? l->RunAfter([s] { s->fired++; }, d)
                                  : l->RunAt([s] { if (W->budget < 3000) { W->budget++; op(true, false, nullptr, nullptr, nullptr); } s->fired++; }, TimeStamp::Now() + d);
    if (every) s->cancelled = true;  // never judged
    if (timers) timers->push_back(Timers{l, id, s});
    else if (every) l->CancelTimer(id);
  } else if (w < 69) {
    if (timers && !timers->empty()) {
      g_ops[CANCEL]++;
      auto &t = (*timers)[r.below(timers->size())];
      t.shot->cancelled = true;
      t.l->CancelTimer(t.id);
    }
  } else if (w < 77) {
    g_ops[CLIENT]++;
    size_t i = 0;
    TcpClientPtr c;
    {
      std::lock_guard<std::mutex> g(W->mu);
      i = r.below(W->clients.size());
      c = W->clients[i];
    }
    switch (r.below(12)) {
    case 0: case 1: case 2: case 3: c->Connect(); break;
    case 4: c->Disconnect(); break;
    case 5: c->Stop(); break;
    case 6: c->EnableRetry(); break;
    case 7: {
      auto n = client_make(r);
      { std::lock_guard<std::mutex> g(W->mu); W->clients[i].swap(n); }
      n.reset();
      c.reset();
      std::lock_guard<std::mutex> g(W->mu);
      c = W->clients[i];
      break;
    }
    default: {
      auto k = c->GetConnection();
      if (k && k->GetName().empty()) vh::viol("name", "a connection without name");
      (void)c->GetServerAddr().ToIpPort();
      (void)c->GetLoop();
      break;
    }
    }
  } else if (w < 82) {
    std::shared_lock<std::shared_timed_mutex> l(W->srv_mu, std::defer_lock);
    if (in_loop) { if (!l.try_lock()) return; } else l.lock();
    g_ops[SERVER]++;
    switch (r.below(4)) {
    case 0: W->srv->StartRun(); break;
    case 1: (void)W->srv->IsRunning(); break;
    case 2: W->srv->ApplyAllPeers([](TcpConnectionPtr const &c) { (void)c->IsConnected(); if (c->GetName().empty()) vh::viol("name", "a connection without name"); }); break;
    default: { MutexGuard g(W->srv->ConnLock()); size_t n = 0; for (auto it = W->srv->ConnBegin(); it != W->srv->ConnEnd(); ++it) n += it->second->GetName().size(); (void)n; break; }
    }
  } else if (w < 88) {
    g_ops[LOG]++;
    switch (r.below(7)) {
    case 0: LOG_TRACE << "trace " << m.id; break;
    case 1: LOG_INFO << "info " << m.id << ' ' << 1.5; break;
    case 2: LOG_WARN << "warn"; break;
    case 3: { errno = (int)r.below(50); LOG_SYSERROR << "error"; break; }
    case 4: Logger::SetLogLevel((Logger::LogLevel)(r.chance(1, 2) ? (int)Logger::KANON_LL_OFF : (int)r.below(Logger::KANON_LL_FATAL))); break;
    case 5: Logger::SetColor(r.chance(1, 2)); break;
    default: FMT_LOG_ERROR("% %", m.id, "x"); break;
    }
  } else if (w < 93) {
    g_ops[LOCK]++;
    switch (r.below(5)) {
    case 0: { MutexGuard g(W->lock); W->locked++; W->lock_n++; break; }
    case 1: if (W->lock.TryLock()) { W->locked++; W->lock_n++; W->lock.Unlock(); } break;
    case 2: { RLockGuard g(W->rw); if (W->a != W->b) vh::viol("rwlock", "a reader saw a half-made change"); break; }
    case 3: { WLockGuard g(W->rw); W->a++; W->b++; W->rw_n++; break; }
    default: W->atom.Add(1); W->atom_n++; break;
    }
  } else if (w < 96) {
    if (pool && !in_loop && !in_pool) {
      g_ops[POOL]++;
      W->posted++;
      pool->Push([] { for (int i = 0; i < 3; ++i) op(false, true, nullptr, nullptr, nullptr); W->ran++; });
    }
  } else if (w < 98) {
    if (!in_loop && !in_pool) {
      g_ops[LATCH]++;
      auto l = std::make_shared<CountDownLatch>(2);
      W->posted++; W->posted++;
      any_loop(r)->QueueToLoop([l] { W->ran++; l->Countdown(); });
      any_loop(r)->RunInLoop([l] { W->ran++; l->Countdown(); });
      l->Wait();
    }
  } else if (w < 99) {
    g_ops[PROC]++;
    if (CurrentThread::tid() != vh::mytid()) vh::viol("tid", "tid() is %d on thread %d", CurrentThread::tid(), vh::mytid());
    if (process::PidString().ToString() != std::to_string(getpid())) vh::viol("pid", "PidString()");
    char h[300];
    gethostname(h, sizeof h);
    if (process::Hostname().ToString() != h) vh::viol("hostname", "Hostname()");
    (void)CurrentThread::isMainThread();
    (void)TimeStamp::Now().ToFormattedString(r.chance(1, 2));
  } else if (!in_loop && !in_pool && r.chance(1, 3)) {
    g_ops[THREAD]++;
    EventLoopThread t("x");
    EventLoop *l = t.StartRun();
    W->posted++;
    auto l2 = std::make_shared<CountDownLatch>(1);
    l->QueueToLoop([l2] { W->ran++; l2->Countdown(); });
    l2->Wait();
  }
}

static int open_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

static void mix_case(long idx, Rng &r) {
  static int fds = -1;
  if (idx > 0 && fds < 0) fds = open_fds();
  World w;
  W = &w;
  w.port = vh::free_port();
  w.io = (int)r.below(3);
  int nl = (int)r.range(1, 3);
  for (int i = 0; i < nl; ++i) w.loops.emplace_back(new vh::LoopHost(r.chance(1, 4), r.chance(1, 4)));
  vh::g_delay() = r.chance(1, 3) ? 10 : 0;
  Logger::SetLogLevel(r.chance(1, 2) ? Logger::KANON_LL_TRACE : Logger::KANON_LL_OFF);
  w.loops[0]->sync([] { server_make(); });
  bool started = r.chance(3, 4);
  if (started) w.srv->StartRun();
  for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) w.clients.push_back(client_make(r));
  for (auto &c : w.clients) if (r.chance(3, 4)) c->Connect();
  int nt = (int)r.range(2, 5);
  std::vector<std::vector<Timers>> timers((size_t)nt);
  std::unique_ptr<ThreadPool> pool(new ThreadPool((int)r.range(1, 8), "p"));
  pool->StartRun((int)r.range(1, 3));
  int restarts = r.chance(1, 2) ? (int)r.range(1, 3) : 0;
  {
    vh::Group g("mixture");
    for (int t = 0; t < nt; ++t) {
      uint64_t seed = r.next();
      int n = (int)r.range(40, 250);
      g.go([&, t, seed, n] {
        me().r = Rng(seed);
        std::vector<Ref> snap;
        for (int i = 0; i < n; ++i) {
          if (i % 20 == 0) {
            snap.clear();
            Ref k;
            for (int j = 0; j < 3; ++j) if (pick(me().r, &k)) snap.push_back(k);
          }
          op(false, false, pool.get(), &timers[(size_t)t], &snap);
          if (me().r.chance(1, 4)) vh::nap(me().r);
        }
        me().seq.clear();
      });
    }
    for (int i = 0; i < restarts; ++i) {
      vh::sleep_us(r.below(4000));
      std::unique_lock<std::shared_timed_mutex> l(w.srv_mu);
      w.gen++;
      w.loops[0]->sync([&] { delete w.srv; server_make(); }, "replacing the server");
      w.srv->StartRun();
      g_restarts++;
    }
    g.join();
  }
  pool.reset();
  long budget = w.budget;
  w.budget.v = 1 << 20;                      // from here on tasks and timers do nothing further,
  for (auto &l : w.loops) l->sync([] {});    // and none that does is on the way
  // one-shot timers that were not cancelled
  for (auto &v : timers) {
    for (auto &t : v)
      if (!t.shot->cancelled && !vh::wait_for([&] { return t.shot->fired.load() > 0; })) VFATAL("timer", "a timer never fired");
    for (auto &t : v) if (t.shot->cancelled && r.chance(1, 2)) t.l->CancelTimer(t.id);
  }
  if (!vh::wait_for([&] { return (long)w.posted == (long)w.ran; })) VFATAL("task", "%ld of %ld tasks ran", (long)w.ran, (long)w.posted);
  {
    std::vector<TcpClientPtr> gone;
    { std::lock_guard<std::mutex> g(w.mu); gone.swap(w.clients); }
    gone.clear();
    // a connection may be coming up in its loop right now
    for (auto &l : w.loops) l->sync([] {});
  }
  std::list<Ref> all;
  { std::lock_guard<std::mutex> g(w.mu); all.swap(w.bag); }
  for (auto &k : all) if (k.gen < 0 || k.gen == w.gen) k.c->ForceClose();
  all.clear();
  bool srv_first = r.chance(1, 2);
  if (srv_first) w.loops[0]->sync([&] { delete w.srv; w.srv = nullptr; }, "ending the server");
  if (!vh::wait_for([&] {
        std::list<Ref> more;  // connections that came up meanwhile
        { std::lock_guard<std::mutex> g(w.mu); more.swap(w.bag); }
        for (auto &k : more) if (k.gen < 0 || k.gen == w.gen) k.c->ForceClose();
        more.clear();
        return (long)w.ups == (long)w.downs; }))
    VFATAL("connections", "%ld connections came up, %ld went down", (long)w.ups, (long)w.downs);
  if (!srv_first) w.loops[0]->sync([&] { delete w.srv; w.srv = nullptr; }, "ending the server");
  if (r.chance(1, 2)) {  // several threads end the loops
    std::atomic<bool> both{false};  // keeps the loops until both have called
    for (auto &l : w.loops) l->get()->QueueToLoop([&both] { while (!both) usleep(50); });
    vh::Group g("quit");
    for (int t = 0; t < 2; ++t) g.go([&] { for (auto &l : w.loops) l->get()->Quit(); });
    g.join();
    both = true;
    for (auto &l : w.loops) l->join("quit from several threads");
  } else
    for (auto &l : w.loops) l->quit();
  if (w.locked != (long)w.lock_n) vh::viol("mutex", "%ld increments under the lock, %ld made", w.locked, (long)w.lock_n);
  if (w.a != w.b || w.a != (long)w.rw_n) vh::viol("rwlock", "%ld/%ld changes under the lock, %ld made", w.a, w.b, (long)w.rw_n);
  if ((long)w.atom.GetValue() != (long)w.atom_n) vh::viol("atomic", "%ld instead of %ld", (long)w.atom.GetValue(), (long)w.atom_n);
  for (auto &v : timers) for (auto &t : v) if (!t.shot->cancelled && t.shot->fired.load() != 1) vh::viol("timer", "a one-shot timer fired %d times", t.shot->fired.load());
  for (auto &k : w.bag) (void)k;
  long ups = w.ups, ran = w.ran;
  if ((long)w.ups != (long)w.downs) vh::viol("connections", "%ld connections came up, %ld went down", (long)w.ups, (long)w.downs);
  g_ups_total.v += ups;
  count("task_runs", ran);
  timers.clear();
  w.bag.clear();
  w.loops.clear();
  vh::g_delay() = 0;
  if (fds >= 0 && open_fds() != fds) { vh::viol("descriptors", "%d descriptors are open instead of %d", open_fds(), fds); fds = open_fds(); }
  vh::sample(std::to_string(nt) + " threads, " + std::to_string(nl) + " loops, " + std::to_string(w.io) + " server loops, " + std::to_string(restarts) + " restarts: " + std::to_string(ups) + " connections, " + std::to_string(ran) + " tasks");
  vh::seen(vh::mix((uint64_t)ups * 1000003 + (uint64_t)ran, (uint64_t)(long)w.lock_n * 31 + (uint64_t)budget));
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  Logger::SetOutputCallback([](const char *p, size_t n) {
    if (!n || p[n - 1] != '\n') vh::viol("log", "a record without end of line");
    g_log_out++;
  });
  Logger::SetFlushCallback([] {});
  vh::run_cases([](long i, Rng &r) { mix_case(i, r); });
  for (int i = 0; i < NOPS; ++i) count(op_name[i], g_ops[i]);
  count("server_restarts", g_restarts);
  count("messages", g_msgs);
  count("log_records", g_log_out);
  count("connections", g_ups_total);
  count("write_completes", g_complete);
  vh::finish();
  return 0;
}
