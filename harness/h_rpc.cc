// K30: remote calls. Calls from many threads against a server whose services
// finish in any order and on any thread; misbehaving peers on both ends;
// deadlines; connections, channels and servers that end with calls in progress.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "vpb.h"
#include "kanon/protobuf/logger.h"
#include "kanon/rpc/logger.h"
#include "kanon/rpc/rpc_channel.h"
#include "kanon/rpc/rpc_controller.h"
#include "kanon/rpc/rpc_server.h"
#include "kanon/net/user_client.h"
#include "kanon/net/connection/tcp_connection.h"
#include "msg.pb.h"
#include <mutex>
#include <condition_variable>
#include <shared_mutex>
#include <deque>
using namespace kanon;
using namespace kanon::protobuf::rpc;
namespace gp = google::protobuf;
using vh::Rng;
using vh::count;

static const char TAG[] = "krpc";

// Closures owned by the test: they are counted, never deleted by a run.
struct Cl : gp::Closure {
  std::function<void()> f;
  std::atomic<int> runs{0};
  void Run() override { runs++; if (f) f(); }
};

// ------------------------------------------------------------------ services
enum { NOW = 0, WORKER = 1, BATCH = 2, HOLD = 3 };
struct Pending { gp::Closure *done; };
struct Back {  // finishes the work of services on its own threads
  std::mutex mu;
  std::condition_variable cv;
  std::deque<gp::Closure *> q;
  std::vector<gp::Closure *> held, batch;
  bool stop = false;
  std::vector<std::thread> th;
  std::atomic<long> finished{0};
  // Completions do not run while the threads of the server's loops end: a
  // connection is not to be used from another thread while its loop goes away.
  std::shared_timed_mutex gate;
  explicit Back(int n, uint64_t seed) {
    for (int i = 0; i < n; ++i)
      th.emplace_back([this, seed, i] {
        Rng r(seed + (uint64_t)i);
        for (;;) {
          gp::Closure *c;
          {
            std::unique_lock<std::mutex> l(mu);
            cv.wait(l, [&] { return stop || !q.empty(); });
            if (q.empty()) return;
            size_t k = r.below(q.size());  // any order
            c = q[k];
            q.erase(q.begin() + (long)k);
          }
          vh::nap(r);
          {
            std::shared_lock<std::shared_timed_mutex> l(gate);
            c->Run();
          }
          finished++;
        }
      });
  }
  void later(gp::Closure *c) { { std::lock_guard<std::mutex> l(mu); q.push_back(c); } cv.notify_one(); }
  void hold(gp::Closure *c) { std::lock_guard<std::mutex> l(mu); held.push_back(c); }
  void in_batch(gp::Closure *c) {
    std::vector<gp::Closure *> b;
    {
      std::lock_guard<std::mutex> l(mu);
      batch.push_back(c);
      if (batch.size() < 3) return;
      b.swap(batch);
    }
    for (size_t i = b.size(); i--;) later(b[i]);  // last first
  }
  void flush() {
    std::vector<gp::Closure *> b;
    { std::lock_guard<std::mutex> l(mu); b.swap(batch); }
    for (auto c : b) later(c);
  }
  size_t release() {
    std::vector<gp::Closure *> b;
    { std::lock_guard<std::mutex> l(mu); b.swap(held); }
    for (auto c : b) later(c);
    return b.size();
  }
  void join() {
    flush(); release();
    { std::lock_guard<std::mutex> l(mu); stop = true; }
    cv.notify_all();
    for (auto &t : th) t.join();
    th.clear();
    for (;;) {  // what came in since
      std::deque<gp::Closure *> b;
      { std::lock_guard<std::mutex> l(mu); b.swap(q); }
      if (b.empty()) break;
      for (auto c : b) c->Run();
    }
  }
  ~Back() { join(); }
};

struct Seen { std::atomic<int> runs{0}; };
struct Book {  // what the server was asked
  std::mutex mu;
  struct E { int runs = 0; std::string method; std::string body; uint64_t deadline = 0; bool has_deadline = false; };
  std::map<uint64_t, E> e;
  std::atomic<long> total{0};
};
static std::string answer(const std::string &m, const vt::Req &q) {
  std::string s = m + ":" + q.body();
  std::reverse(s.begin(), s.end());
  return s;
}
static void serve(const char *m, Book *bk, Back *bg, gp::RpcController *c, const vt::Req *q, vt::Rep *p, gp::Closure *done) {
  std::unique_ptr<const vt::Req> own(q);  // the request belongs to the service
  if (!c) vh::viol("controller", "a method got no controller");
  uint64_t dl = c ? static_cast<RpcController *>(c)->deadline() : 0;
  {
    std::lock_guard<std::mutex> g(bk->mu);
    auto &x = bk->e[q->nonce()];
    x.runs++; x.method = m; x.body = q->body(); x.deadline = dl;
    x.has_deadline = dl != (uint64_t)-1;
  }
  if (c) {
    uint64_t before = (uint64_t)TimeStamp::Now().GetMilliseconds();
    bool cancelled = c->IsCanceled();
    uint64_t after = (uint64_t)TimeStamp::Now().GetMilliseconds();
    if (dl == (uint64_t)-1 ? cancelled : (cancelled && dl >= after) || (!cancelled && dl < before))
      vh::viol("cancelled", "IsCanceled() %d with deadline %llu at %llu", (int)cancelled, (unsigned long long)dl, (unsigned long long)before);
  }
  p->set_nonce(q->nonce());
  p->set_body(answer(m, *q));
  if (dl != (uint64_t)-1) p->set_deadline(dl);
  int b = q->behaviour();
  bk->total++;
  if (b == WORKER) bg->later(done);
  else if (b == BATCH) bg->in_batch(done);
  else if (b == HOLD) bg->hold(done);
  else done->Run();
}
struct WorkImpl : vt::Work {
  Book *bk; Back *bg;
  WorkImpl(Book *b, Back *g) : bk(b), bg(g) {}
  void Do(gp::RpcController *c, const vt::Req *q, vt::Rep *p, gp::Closure *d) override { serve("Do", bk, bg, c, q, p, d); }
  void Other(gp::RpcController *c, const vt::Req *q, vt::Rep *p, gp::Closure *d) override { serve("Other", bk, bg, c, q, p, d); }
  void Tell(gp::RpcController *, const vt::Req *q, vt::Note *p, gp::Closure *d) override {
    std::unique_ptr<const vt::Req> own(q);
    { std::lock_guard<std::mutex> g(bk->mu); auto &x = bk->e[q->nonce()]; x.runs++; x.method = "Tell"; x.body = q->body(); }
    p->set_nonce(q->nonce());
    bk->total++;
    d->Run();
  }
};
struct AltImpl : vt::Alt {
  Book *bk; Back *bg;
  AltImpl(Book *b, Back *g) : bk(b), bg(g) {}
  void Do(gp::RpcController *c, const vt::Req *q, vt::Rep *p, gp::Closure *d) override { serve("Alt.Do", bk, bg, c, q, p, d); }
};

// -------------------------------------------------------------------- calls
static std::atomic<uint64_t> g_nonce{1};
struct Call {
  uint64_t nonce = 0;
  std::string method, body;
  vt::Rep rep;
  vt::Note note;
  Cl *cl = nullptr;           // owned closure (deadline may drop it)
  std::atomic<int> runs{0};
  std::atomic<bool> bad{false};
  uint64_t deadline = (uint64_t)-1;
  bool must = true;           // must complete
  bool never = false;         // must not complete
  bool told = false;
  ~Call() { delete cl; }
  void finished() {
    if (runs.fetch_add(1)) { vh::viol("twice", "the completion of call %llu ran twice", (unsigned long long)nonce); return; }
    vt::Req q; q.set_body(body);
    if (!told && (rep.nonce() != nonce || rep.body() != answer(method, q))) vh::viol("response", "call %llu to %s completed with the response to %llu or a changed one", (unsigned long long)nonce, method.c_str(), (unsigned long long)rep.nonce());
    if (told && note.nonce() != nonce) vh::viol("response", "call %llu to Tell completed with the response to %llu", (unsigned long long)nonce, (unsigned long long)note.nonce());
    if (!told && deadline != (uint64_t)-1 && rep.deadline() != deadline) vh::viol("deadline", "the server was told deadline %llu instead of %llu", (unsigned long long)rep.deadline(), (unsigned long long)deadline);
  }
};
static void finish_call(Call *c) { c->finished(); }

struct Caller {  // one channel over one client connection
  TcpClientPtr cli;
  std::unique_ptr<RpcChannel> ch;
  TcpConnectionPtr conn;
  std::atomic<int> up{0}, down{0};
  EventLoop *loop = nullptr;
};
static std::shared_ptr<Caller> dial(vh::LoopHost &lh, const InetAddr &a) {
  auto c = std::make_shared<Caller>();
  c->ch.reset(new RpcChannel());
  c->loop = lh.get();
  std::weak_ptr<Caller> w = c;
  c->cli = NewTcpClient(lh.get(), a, "rpc");
  c->cli->SetConnectionCallback([w](TcpConnectionPtr const &k) {
    auto c = w.lock();
    if (!c) return;
    if (k->IsConnected()) { c->conn = k; c->ch->SetConnection(k); c->up++; }
    else c->down++;
  });
  c->cli->Connect();
  return c;
}
static void await_up(std::shared_ptr<Caller> const &c) { if (!vh::wait_for([&] { return c->up.load() > 0; })) VFATAL("hang:connect", "no connection"); }
// Ends the connection and destroys the channel in the loop, when nothing uses it any more.
static void hang_up(vh::LoopHost &lh, std::shared_ptr<Caller> const &c, bool force, bool wait = true) {
  lh.sync([&] { if (c->conn) { if (force) c->conn->ForceClose(); else c->conn->ShutdownWrite(); c->conn.reset(); } });
  if (wait && !vh::wait_for([&] { return c->down.load() > 0; })) VFATAL("hang:down", "connection did not end");
  lh.sync([&] { c->ch.reset(); });
  c->cli.reset();
}

static size_t body_size(Rng &r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return 4096 - 60 + r.below(80);
    case 2: return r.chance(1, 5) ? r.below(200000) : r.below(5000);
    default: return r.below(100);
  }
}

static InetAddr addr_of(int port) { return InetAddr(inet_ntoa(vh::my_addr(0).sin_addr), (uint16_t)port); }

static void end_server(vh::LoopHost &sl, RpcServer *&srv, Back &bg, int io) {
  std::unique_lock<std::shared_timed_mutex> l(bg.gate, std::defer_lock);
  if (io) l.lock();
  sl.sync([&] { delete srv; srv = nullptr; });
}

// ----------------------------------------------- real server, real clients
static void calls_case(Rng &r) {
  int port = vh::free_port();
  Book bk;
  auto bg = std::unique_ptr<Back>(new Back((int)r.range(1, 3), r.next()));
  WorkImpl work(&bk, bg.get());
  AltImpl alt(&bk, bg.get());
  bool with_alt = r.chance(2, 3);
  int io = (int)r.below(3);
  vh::g_delay() = r.chance(1, 3) ? 8 : 0;
  RpcServer *srv = nullptr;
  vh::LoopHost sl(false, r.chance(1, 4), [&](EventLoop *l) {
    srv = new RpcServer(l, addr_of(port), "rpc");
    if (io) srv->SetLoopNum(io);
    srv->AddServices(&work);
    if (with_alt) srv->AddServices(&alt);
    srv->StartRun();
  });
  sl.sync();
  vh::LoopHost cl(false, r.chance(1, 4));
  int nch = (int)r.range(1, 3), nth = (int)r.range(1, 4);
  std::vector<std::shared_ptr<Caller>> chs;
  for (int i = 0; i < nch; ++i) chs.push_back(dial(cl, addr_of(port)));
  for (auto &c : chs) await_up(c);
  // every thread keeps its own list
  std::vector<std::vector<std::unique_ptr<Call>>> calls((size_t)nth);
  {
    vh::Group g("callers");
    for (int t = 0; t < nth; ++t) {
      uint64_t seed = r.next();
      int n = (int)r.range(1, 25);
      g.go([&, t, seed, n] {
        Rng q(seed);
        for (int i = 0; i < n; ++i) {
          auto &c = chs[q.below(chs.size())];
          std::unique_ptr<Call> k(new Call);
          k->nonce = g_nonce++;
          k->body = q.bytes(body_size(q));
          std::unique_ptr<RpcController> ctl;
          if (q.chance(2, 3)) ctl.reset(new RpcController);
          int beh = (int)q.below(3);
          if (ctl) switch (q.below(6)) {
            case 0: ctl->SetTimeout(600000 + q.below(1000)); break;
            case 1: ctl->SetTimeout(q.below(12)); k->must = false; break;
            case 2: ctl->SetDeadline((uint64_t)TimeStamp::Now().GetMilliseconds() - q.below(1000)); k->must = false; break;
            case 3: ctl->SetTimeout(UINT64_MAX - q.below(1000)); break;
            case 4: ctl->SetDeadline(TimeStamp::Now() + 700.0); break;
            default: break;
          }
          if (ctl && q.chance(1, 8)) { ctl->Reset(); k->must = true; }
          if (ctl) k->deadline = ctl->deadline();
          if (!k->must && q.chance(1, 3)) { k->never = true; beh = HOLD; }
          Call *kp = k.get();
          gp::Closure *done = nullptr;
          if (!k->must || q.chance(1, 2)) { k->cl = new Cl; k->cl->f = [kp] { kp->finished(); }; done = k->cl; }
          else if (q.chance(1, 2)) done = gp::NewCallback(&finish_call, kp);
          else done = kanon::protobuf::rpc::NewCallable([kp] { kp->finished(); });
          std::unique_ptr<vt::Req> req(new vt::Req);
          req->set_nonce(k->nonce);
          req->set_body(k->body);
          req->set_behaviour(beh);
          vt::Work::Stub st(c->ch.get());
          vt::Alt::Stub sa(c->ch.get());
          uint64_t w = q.below(12);
          auto issue = [&] {
            if (w < 5) { k->method = "Do"; st.Do(ctl.get(), req.get(), &k->rep, done); }
            else if (w < 9) { k->method = "Other"; st.Other(ctl.get(), req.get(), &k->rep, done); }
            else if (w == 9) { k->method = "Tell"; k->told = true; k->never = false; st.Tell(ctl.get(), req.get(), &k->note, done); }
            else if (w == 10 || with_alt) { k->method = "Alt.Do"; if (!with_alt) { k->never = true; k->must = false; } sa.Do(ctl.get(), req.get(), &k->rep, done); }
            else { k->method = "Tell"; k->told = true; k->must = false; k->never = false; delete (k->cl ? nullptr : done); st.Tell(ctl.get(), req.get(), nullptr, nullptr); }
          };
          if (w == 10 && !with_alt && !k->cl) { k->cl = new Cl; k->cl->f = [kp] { kp->finished(); }; delete done; done = k->cl; }
          issue();
          calls[(size_t)t].push_back(std::move(k));
          // the request and the controller end here
          req.reset();
          ctl.reset();
          if (q.chance(1, 3)) vh::nap(q);
        }
      });
    }
    g.join();
  }
  long want = 0, n = 0;
  for (auto &v : calls) for (auto &k : v) { ++n; if (k->method != "Alt.Do" || with_alt) ++want; }
  if (!vh::wait_for([&] { bg->flush(); return bk.total.load() >= want; })) VFATAL("lost-request", "%ld of %ld requests reached a method", bk.total.load(), want);
  for (auto &v : calls) for (auto &k : v)
    if (k->must && !vh::wait_for([&] { bg->flush(); return k->runs.load() > 0; })) VFATAL("no-completion", "call %llu (%s, %zu bytes) never completed", (unsigned long long)k->nonce, k->method.c_str(), k->body.size());
  // every deadline has passed and its timer has fired when a later timer of the same loop has fired
  {
    auto fired = std::make_shared<std::atomic<int>>(0);
    cl->RunAfter([fired] { ++*fired; }, 0.04);
    if (!vh::wait_for([&] { return fired->load() == 1; })) VFATAL("hang:timer", "timer lost");
  }
  long late = (long)bg->release();
  long total = bk.total;
  (void)total;
  // answers on their way: one more round trip per channel
  if (!vh::wait_for([&] { std::lock_guard<std::mutex> g(bg->mu); return bg->q.empty(); })) VFATAL("hang:services", "services did not finish");
  // answers that arrive before the deadline are delivered: the server answers
  // at once and in order, so when the answer to a later call is here and the
  // deadline of an earlier one is still ahead, the earlier one is complete
  if (r.chance(1, 2))
    for (auto &c : chs) {
      int n = (int)r.range(1, 4);
      std::vector<std::unique_ptr<Call>> ks;
      std::vector<std::atomic<int64_t>> mark((size_t)n);
      std::vector<std::atomic<int>> before((size_t)n);
      for (int i = 0; i < n; ++i) {
        std::unique_ptr<Call> k(new Call), m(new Call);
        Call *kp = k.get(), *mp = m.get();
        k->nonce = g_nonce++; k->method = "Do"; k->body = r.bytes(r.below(60));
        m->nonce = g_nonce++; m->method = "Do"; m->body = "mark";
        k->cl = new Cl; k->cl->f = [kp] { kp->finished(); };
        m->cl = new Cl;
        std::atomic<int64_t> *at = &mark[i];
        std::atomic<int> *had = &before[i];
        *at = 0;
        m->cl->f = [mp, kp, at, had] { had->store(kp->runs.load()); at->store(TimeStamp::Now().GetMilliseconds()); mp->finished(); };
        RpcController ctl;
        uint64_t ms = r.chance(1, 4) ? r.range(5, 60) : r.range(60, 1500);
        if (r.chance(1, 2)) ctl.SetTimeout(ms);
        else ctl.SetDeadline((uint64_t)TimeStamp::Now().GetMilliseconds() + ms);
        k->deadline = ctl.deadline();
        vt::Work::Stub st(c->ch.get());
        for (Call *x : {kp, mp}) {
          vt::Req q; q.set_nonce(x->nonce); q.set_body(x->body); q.set_behaviour(0);
          st.Do(x == kp ? &ctl : nullptr, &q, &x->rep, x->cl);
        }
        ks.push_back(std::move(k)); ks.push_back(std::move(m));
      }
      for (int i = 0; i < n; ++i) {
        if (!vh::wait_for([&] { return ks[2 * i + 1]->runs.load() > 0; })) VFATAL("no-completion", "a call without deadline never completed");
        if (mark[i].load() < (int64_t)ks[2 * i]->deadline) {
          count("timely");
          if (!before[i].load()) vh::viol("timely", "a call was dropped %lld ms before its deadline although its answer had arrived", (long long)((int64_t)ks[2 * i]->deadline - mark[i].load()));
        }
      }
      // both answers are here, so nothing refers to the calls any more
      cl.sync();
    }
  bool last = r.chance(3, 4);
  if (last)
    for (auto &c : chs) {
      Call k;
      k.nonce = g_nonce++; k.method = "Do"; k.body = "last";
      Cl done; done.f = [&] { k.finished(); };
      vt::Req q; q.set_nonce(k.nonce); q.set_body(k.body);
      vt::Work::Stub st(c->ch.get());
      st.Do(nullptr, &q, &k.rep, &done);
      if (!vh::wait_for([&] { return k.runs.load() > 0; })) VFATAL("no-completion", "the last call never completed");
      cl.sync();
    }
  cl.sync();
  long done_n = 0, dropped = 0;
  for (auto &v : calls) for (auto &k : v) {
    int ran = k->runs.load();
    if (ran) ++done_n; else ++dropped;
    if (k->never && ran) vh::viol("late", "call %llu to %s completed although %s", (unsigned long long)k->nonce, k->method.c_str(), k->method == "Alt.Do" && !with_alt ? "there is no such service" : "its deadline had passed");
    std::lock_guard<std::mutex> g(bk.mu);
    auto it = bk.e.find(k->nonce);
    if (k->method == "Alt.Do" && !with_alt) { if (it != bk.e.end()) vh::viol("server", "a method of an unknown service ran"); continue; }
    if (it == bk.e.end() || it->second.runs != 1) vh::viol("server", "the method of call %llu ran %d times", (unsigned long long)k->nonce, it == bk.e.end() ? 0 : it->second.runs);
    else if (it->second.method != k->method || it->second.body != k->body) vh::viol("server", "call %llu to %s reached %s or with another request", (unsigned long long)k->nonce, k->method.c_str(), it->second.method.c_str());
    else if (!k->told && (it->second.has_deadline ? it->second.deadline : (uint64_t)-1) != k->deadline) vh::viol("deadline", "the server was told deadline %llu instead of %llu", (unsigned long long)it->second.deadline, (unsigned long long)k->deadline);
  }
  count("calls", n);
  count("completed", done_n);
  count("dropped", dropped);
  count("late_responses", late);
  // endings
  int ending = (int)r.below(4);
  if (ending == 0) {  // server first, with its connections
    end_server(sl, srv, *bg, io);
    for (auto &c : chs) hang_up(cl, c, false);
  } else {
    for (auto &c : chs) hang_up(cl, c, ending == 1);
    end_server(sl, srv, *bg, io);
  }
  bg->join();
  cl.quit();
  sl.quit();
  vh::g_delay() = 0;
  vh::sample(std::to_string(n) + " calls by " + std::to_string(nth) + " threads over " + std::to_string(nch) + " channels, " + std::to_string(io) + " server loops: " + std::to_string(done_n) + " completed, " + std::to_string(dropped) + " dropped, " + std::to_string(late) + " answered late");
  vh::seen(vh::mix((uint64_t)n * 131 + (uint64_t)done_n, (uint64_t)(late * 7 + nch * 3 + nth)));
}

// ------------------------------------------ ends with calls in progress
static void ending_case(Rng &r) {
  int port = vh::free_port();
  Book bk;
  auto bg = std::unique_ptr<Back>(new Back((int)r.range(1, 3), r.next()));
  WorkImpl work(&bk, bg.get());
  int io = (int)r.below(3);
  vh::g_delay() = r.chance(1, 3) ? 8 : 0;
  RpcServer *srv = nullptr;
  vh::LoopHost sl(false, false, [&](EventLoop *l) {
    srv = new RpcServer(l, addr_of(port), "rpc");
    if (io) srv->SetLoopNum(io);
    srv->AddServices(&work);
    srv->StartRun();
  });
  sl.sync();
  vh::LoopHost cl(false, false);
  std::vector<std::shared_ptr<Caller>> chs;
  for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) chs.push_back(dial(cl, addr_of(port)));
  for (auto &c : chs) await_up(c);
  std::vector<std::unique_ptr<Call>> calls;
  std::vector<std::unique_ptr<RpcController>> ctls;
  for (int i = 0, n = (int)r.range(1, 30); i < n; ++i) {
    std::unique_ptr<Call> k(new Call);
    k->nonce = g_nonce++;
    k->method = "Do";
    k->body = r.bytes(body_size(r));
    Call *kp = k.get();
    k->cl = new Cl;
    k->cl->f = [kp] { kp->finished(); };
    vt::Req q;
    q.set_nonce(k->nonce); q.set_body(k->body); q.set_behaviour((int)r.below(4));
    RpcController ctl;
    if (r.chance(1, 2)) { ctl.SetTimeout(r.below(60)); k->deadline = ctl.deadline(); }
    vt::Work::Stub st(chs[r.below(chs.size())]->ch.get());
    st.Do(r.chance(1, 4) && k->deadline == (uint64_t)-1 ? nullptr : &ctl, &q, &k->rep, k->cl);
    calls.push_back(std::move(k));
    if (r.chance(1, 4)) vh::nap(r);
  }
  if (r.chance(1, 3)) vh::sleep_us(r.below(3000));
  int kind = (int)r.below(3);
  if (kind == 0) {  // clients first; services finish for connections that are gone
    for (auto &c : chs) hang_up(cl, c, r.chance(1, 2), true);
    bg->flush(); bg->release();
    if (r.chance(1, 2)) { auto f = std::make_shared<std::atomic<int>>(0); cl->RunAfter([f] { ++*f; }, 0.08); if (!vh::wait_for([&] { return f->load() == 1; })) VFATAL("hang:timer", "timer lost"); }
    if (r.chance(1, 2)) bg->join();
    end_server(sl, srv, *bg, io);
  } else if (kind == 1) {  // the server first
    bg->flush();
    end_server(sl, srv, *bg, io);
    bg->release();
    for (auto &c : chs) hang_up(cl, c, false);
  } else {  // both at once
    std::thread t([&] { for (auto &c : chs) hang_up(cl, c, true); });
    bg->flush(); bg->release();
    end_server(sl, srv, *bg, io);
    t.join();
  }
  bg->join();
  // timers of deadlines may still be set when the channels are gone
  if (r.chance(1, 2)) { auto f = std::make_shared<std::atomic<int>>(0); cl->RunAfter([f] { ++*f; }, 0.07); if (!vh::wait_for([&] { return f->load() == 1; })) VFATAL("hang:timer", "timer lost"); }
  cl.quit();
  sl.quit();
  long n = 0;
  for (auto &k : calls) n += k->runs.load();
  count("ended_calls", (long)calls.size());
  count("ended_completed", n);
  vh::g_delay() = 0;
  vh::sample(std::to_string(calls.size()) + " calls in progress at the end of kind " + std::to_string(kind) + ", " + std::to_string(n) + " completed");
  vh::seen(vh::mix((uint64_t)calls.size() * 31 + (uint64_t)n, (uint64_t)kind));
}

// ------------------------------------------------------------- raw clients
static std::string rpc_frame(const RpcMessage &m) { return vh::pb_frame(TAG, m.SerializePartialAsString()); }
struct Pipe {  // blocking-ish raw connection
  int fd = -1;
  vh::PbRef in;
  bool eof = false;
  Pipe() { in.tag = TAG; in.proto = &RpcMessage::default_instance(); }
  ~Pipe() { if (fd >= 0) close(fd); }
  void connect_to(int port) {
    fd = vh::raw_socket();
    sockaddr_in me = vh::my_addr(0), a = vh::my_addr(port);
    if (bind(fd, (sockaddr *)&me, sizeof me)) {}
    if (connect(fd, (sockaddr *)&a, sizeof a) && errno != EINPROGRESS) VFATAL("hang:connect", "connect %s", strerror(errno));
    if (!vh::wait_for([&] { return (vh::raw_poll(fd, POLLOUT, 1) & POLLOUT) != 0; })) VFATAL("hang:connect", "connect");
  }
  bool recv_some() {
    char b[8192];
    ssize_t n = vh::raw_recv(fd, b, sizeof b);
    if (n > 0) in.feed(b, (size_t)n);
    if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) eof = true;
    if (in.err) VFATAL("wire", "the sent bytes are no good frame: error %d", in.err);
    return n > 0;
  }
  void send_all(Rng &r, const std::string &s) {
    size_t off = 0;
    int64_t last = vh::C().ticks;
    while (off < s.size()) {
      size_t k = std::min(s.size() - off, r.chance(1, 3) ? 1 + r.below(9) : 1 + r.below(20000));
      ssize_t n = vh::raw_send(fd, s.data() + off, k);
      if (n > 0) { off += (size_t)n; last = vh::C().ticks; }
      else if (n < 0 && errno != EAGAIN && errno != EINTR) return;
      if (recv_some()) last = vh::C().ticks;
      if (n <= 0) { if (vh::C().ticks - last > 1500) VFATAL("hang:raw", "peer does not read"); vh::sleep_us(50); }
    }
  }
  bool await(size_t n) { return vh::wait_for([&] { recv_some(); return in.msgs.size() >= n || eof; }); }
};

static void rawclient_case(Rng &r) {
  int port = vh::free_port();
  Book bk;
  std::unique_ptr<Back> bg(new Back((int)r.range(1, 2), r.next()));
  WorkImpl work(&bk, bg.get());
  RpcServer *srv = nullptr;
  vh::LoopHost sl(false, r.chance(1, 4), [&](EventLoop *l) {
    srv = new RpcServer(l, addr_of(port), "rpc");
    srv->AddServices(&work);
    srv->StartRun();
  });
  sl.sync();
  {
    Pipe p;
    p.connect_to(port);
    struct Want { int err; std::string body; uint64_t nonce; bool tell; };
    std::multimap<uint64_t, Want> want;  // by id
    std::string out;
    uint64_t ids[4] = {r.next(), 0, UINT64_MAX, r.below(5)};
    int n = (int)r.range(1, 30);
    for (int i = 0; i < n; ++i) {
      RpcMessage m;
      uint64_t id = r.chance(1, 6) ? ids[r.below(4)] : r.next();
      m.set_id(id);
      m.set_type(RpcMessage::kRequest);
      vt::Req q;
      q.set_nonce(g_nonce++);
      q.set_body(r.bytes(body_size(r)));
      q.set_behaviour((int)r.below(3));
      m.set_service("vt.Work");
      m.set_method("Do");
      m.set_request(q.SerializeAsString());
      Want w{0, answer("Do", q), q.nonce(), false};
      bool answered = true;
      switch (r.below(13)) {
        case 0: m.set_service(r.chance(1, 2) ? "vt.Alt" : ""); w.err = RpcMessage::kNoService; break;
        case 1: m.set_method(r.chance(1, 2) ? "do" : ""); w.err = RpcMessage::kNoMethod; break;
        case 2: m.set_request("\xff\xff\xff"); w.err = RpcMessage::kInvalidRequest; break;
        case 3: m.set_request(""); w.err = RpcMessage::kInvalidRequest; break;  // the required nonce is missing
        case 4: m.clear_request(); w.err = RpcMessage::kInvalidMessage; break;
        case 5: m.clear_service(); w.err = RpcMessage::kInvalidMessage; break;
        case 6: m.clear_method(); w.err = RpcMessage::kInvalidMessage; break;
        case 7: m.set_type(RpcMessage::kResponse); m.set_response("x"); answered = false; break;             // nobody called
        case 8: m.set_type(RpcMessage::kResponse); m.set_error((RpcMessage::ErrorCode)r.below(7)); answered = false; break;
        case 9: m.set_type(RpcMessage::kResponse); answered = false; break;
        case 10: { m.set_method("Tell"); w.tell = true; break; }
        case 11: m.set_deadline(r.chance(1, 2) ? r.next() : (uint64_t)TimeStamp::Now().GetMilliseconds()); break;
        default: break;
      }
      out += rpc_frame(m);
      if (answered) want.emplace(id, w);
      if (r.chance(1, 3)) { p.send_all(r, out); out.clear(); }
    }
    bool damaged = r.chance(1, 4);
    if (damaged) { RpcMessage m; m.set_id(1); out += r.chance(1, 2) ? vh::pb_frame(TAG, m.SerializePartialAsString()) : vh::pb_frame("kapc", "xx"); }
    p.send_all(r, out);
    size_t nw = want.size();
    bool all = vh::wait_for([&] { bg->flush(); p.recv_some(); return p.in.msgs.size() >= nw || p.eof; });
    if (!damaged && (!all || p.in.msgs.size() < nw)) VFATAL("unanswered", "%zu of %zu requests were answered", p.in.msgs.size(), nw);
    if (!damaged) { vh::sleep_us(300); p.recv_some(); }
    if (p.in.msgs.size() > nw) vh::viol("unasked", "%zu answers to %zu requests", p.in.msgs.size(), nw);
    for (auto &s : p.in.msgs) {
      RpcMessage m;
      m.ParseFromString(s);
      auto rg = want.equal_range(m.id());
      bool hit = false;
      vt::Rep rep; vt::Note note;
      for (auto it = rg.first; it != rg.second && !hit; ++it) {
        const Want &w = it->second;
        bool ok = m.type() == RpcMessage::kResponse;
        if (w.err) ok = ok && m.has_error() && (int)m.error() == w.err;
        else if (w.tell) ok = ok && (!m.has_error() || m.error() == RpcMessage::kNoError) && m.has_response() && note.ParseFromString(m.response()) && note.nonce() == w.nonce;
        else ok = ok && (!m.has_error() || m.error() == RpcMessage::kNoError) && m.has_response() && rep.ParseFromString(m.response()) && rep.nonce() == w.nonce && rep.body() == w.body;
        if (ok) { want.erase(it); hit = true; break; }
      }
      if (!hit) vh::viol("answer", "no request with id %llu awaits the answer %s", (unsigned long long)m.id(), m.ShortDebugString().substr(0, 200).c_str());
    }
    count("raw_requests", n);
    count("raw_answers", (long)p.in.msgs.size());
    vh::seen(vh::hash_str(out) + (uint64_t)n);
  }
  // the server still works for others
  {
    Pipe p;
    p.connect_to(port);
    RpcMessage m; m.set_id(7); m.set_type(RpcMessage::kRequest); m.set_service("vt.Work"); m.set_method("Tell");
    vt::Req q; q.set_nonce(g_nonce++); m.set_request(q.SerializeAsString());
    p.send_all(r, rpc_frame(m));
    if (!p.await(1) || p.in.msgs.empty()) VFATAL("unanswered", "the server does not answer another client any more");
  }
  if (r.chance(1, 2)) bg->join();
  end_server(sl, srv, *bg, 0);
  bg->join();
  sl.quit();
}

// ------------------------------------------------------------- raw servers
static void rawserver_case(Rng &r) {
  int port = vh::free_port();
  int lfd = vh::raw_listen(port);
  if (lfd < 0) { printf("HARNESS-ERROR listen\n"); fflush(stdout); _exit(3); }
  vh::LoopHost cl(false, r.chance(1, 4));
  // a channel may have lived in memory with any content
  auto c = dial(cl, addr_of(port));
  Pipe p;
  if (!vh::wait_for([&] { p.fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); return p.fd >= 0; })) VFATAL("hang:accept", "no client");
  close(lfd);
  await_up(c);
  std::vector<std::unique_ptr<Call>> calls;
  std::map<uint64_t, Call *> by_id;
  struct Ans { std::string f; };
  std::vector<std::string> script;  // frames, in the order they go out
  long calls_n = 0;
  int rounds = (int)r.range(1, 3);
  uint64_t max_id = 0;
  std::set<uint64_t> ids;
  auto sift = [&] {
    std::vector<std::string> keep;
    for (auto &s : p.in.msgs) {
      RpcMessage m;
      m.ParseFromString(s);
      if (m.type() == RpcMessage::kRequest) keep.push_back(s);
      else if (!m.has_error() || m.error() != RpcMessage::kNoService) vh::viol("answer", "a client answers %s", m.ShortDebugString().substr(0, 200).c_str());
      else count("client_refusals");
    }
    p.in.msgs.swap(keep);
  };
  for (int rd = 0; rd < rounds; ++rd) {
    std::vector<Call *> mine;
    for (int i = 0, n = (int)r.range(1, 12); i < n; ++i) {
      std::unique_ptr<Call> k(new Call);
      k->nonce = g_nonce++;
      k->method = "Do";
      k->body = r.bytes(body_size(r));
      Call *kp = k.get();
      k->cl = new Cl;
      k->cl->f = [kp] { kp->finished(); };
      k->must = false;
      vt::Req q;
      q.set_nonce(k->nonce); q.set_body(k->body);
      RpcController ctl;
      if (r.chance(1, 4)) { ctl.SetTimeout(100000); k->deadline = ctl.deadline(); }
      vt::Work::Stub st(c->ch.get());
      st.Do(r.chance(1, 3) && k->deadline == (uint64_t)-1 ? nullptr : &ctl, &q, &k->rep, k->cl);
      mine.push_back(kp);
      calls.push_back(std::move(k));
      ++calls_n;
    }
    size_t want = calls.size();
    if (!vh::wait_for([&] { p.recv_some(); sift(); return p.in.msgs.size() >= want || p.eof; }) || p.in.msgs.size() < want) VFATAL("lost-request", "%zu of %zu requests arrived", p.in.msgs.size(), want);
    std::vector<std::string> out;
    for (size_t i = want - mine.size(); i < want; ++i) {
      RpcMessage m;
      m.ParseFromString(p.in.msgs[i]);
      vt::Req q;
      if (m.type() != RpcMessage::kRequest || m.service() != "vt.Work" || m.method() != "Do" || !q.ParseFromString(m.request())) { vh::viol("request", "a request arrived as %s", m.ShortDebugString().substr(0, 200).c_str()); continue; }
      Call *k = nullptr;
      for (auto x : mine) if (x->nonce == q.nonce()) k = x;
      if (!k || q.body() != k->body) { vh::viol("request", "a request nobody made, or changed"); continue; }
      if (!ids.insert(m.id()).second) vh::viol("request", "id %llu used for two calls", (unsigned long long)m.id());
      if (m.has_deadline() ? m.deadline() != k->deadline : k->deadline != (uint64_t)-1) vh::viol("deadline", "the request carries another deadline");
      if (m.id() > max_id) max_id = m.id();
      vt::Rep rep;
      rep.set_nonce(q.nonce()); rep.set_body(answer("Do", q));
      if (k->deadline != (uint64_t)-1) rep.set_deadline(k->deadline);
      RpcMessage good;
      good.set_id(m.id()); good.set_type(RpcMessage::kResponse); good.set_response(rep.SerializeAsString());
      if (r.chance(1, 4)) good.set_error(RpcMessage::kNoError);
      RpcMessage bad;
      bad.set_id(m.id()); bad.set_type(RpcMessage::kResponse);
      // what comes first decides
      std::string first, then;
      uint64_t b = r.below(10);
      if (b < 6) { first = rpc_frame(good); k->must = true; }
      else if (b == 6) { bad.set_error((RpcMessage::ErrorCode)(1 + r.below(6))); if (r.chance(1, 3)) bad.set_response(rep.SerializeAsString()); first = rpc_frame(bad); k->never = true; }
      else if (b == 7) { bad.set_response("\xff\xff"); first = rpc_frame(bad); k->never = true; }
      else if (b == 8) { first = rpc_frame(bad); k->never = true; }  // neither response nor error
      // b == 9: no answer
      if (!first.empty()) {
        out.push_back(first);
        if (r.chance(1, 3)) {  // and a second one, after it
          vt::Rep rep2 = rep;
          rep2.set_nonce(rep.nonce() + 1000000);
          RpcMessage dup;
          dup.set_id(m.id()); dup.set_type(RpcMessage::kResponse); dup.set_response(rep2.SerializeAsString());
          if (r.chance(1, 3)) dup.set_error(RpcMessage::kNoMethod);
          then = rpc_frame(dup);
          out.back() += then;
        }
      }
    }
    for (int i = 0, n = (int)r.below(4); i < n; ++i) {  // unsolicited
      RpcMessage m;
      m.set_id(r.chance(1, 2) ? r.next() : max_id + 1 + r.below(5));
      m.set_type(r.chance(2, 3) ? RpcMessage::kResponse : RpcMessage::kRequest);
      if (r.chance(1, 2)) m.set_response(r.bytes(r.below(20)));
      if (r.chance(1, 3)) m.set_error((RpcMessage::ErrorCode)r.below(7));
      if (m.type() == RpcMessage::kRequest) {
        m.set_service("vt.Work"); m.set_method("Do"); vt::Req q; q.set_nonce(1); m.set_request(q.SerializeAsString());
        // a client has no services
      }
      if (m.type() == RpcMessage::kResponse && m.id() <= max_id) continue;
      // ids of calls yet to come would be answered before they are asked
      if (m.type() == RpcMessage::kResponse && m.id() > max_id) m.set_id(m.id() | (1ull << 63));
      out.push_back(rpc_frame(m));
    }
    for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[r.below(i)]);
    std::string all;
    for (auto &s : out) all += s;
    size_t before = p.in.msgs.size();
    p.send_all(r, all);
    for (auto k : mine) if (k->must && !vh::wait_for([&] { p.recv_some(); return k->runs.load() > 0; })) VFATAL("no-completion", "call %llu never completed although its response came", (unsigned long long)k->nonce);
    (void)before;
    // requests to a client are answered with an error, so that its answers do not mix with requests
    cl.sync(); vh::sleep_us(200); p.recv_some();
    sift();
    if (p.in.msgs.size() != want) { break; }
  }
  // one more exchange: everything before has been handled
  {
    Call k;
    k.nonce = g_nonce++; k.method = "Do"; k.body = "z";
    Cl done; done.f = [&] { k.finished(); };
    vt::Req q; q.set_nonce(k.nonce); q.set_body(k.body);
    vt::Work::Stub st(c->ch.get());
    st.Do(nullptr, &q, &k.rep, &done);
    RpcMessage m;
    bool got = vh::wait_for([&] {
      p.recv_some();
      for (auto &s : p.in.msgs) { vt::Req x; if (m.ParseFromString(s) && m.type() == RpcMessage::kRequest && x.ParseFromString(m.request()) && x.nonce() == k.nonce) return true; }
      return p.eof;
    });
    if (!got || p.eof) VFATAL("lost-request", "the last request did not arrive");
    vt::Rep rep; rep.set_nonce(q.nonce()); rep.set_body(answer("Do", q));
    RpcMessage g; g.set_id(m.id()); g.set_type(RpcMessage::kResponse); g.set_response(rep.SerializeAsString());
    p.send_all(r, rpc_frame(g));
    if (!vh::wait_for([&] { return k.runs.load() > 0; })) VFATAL("no-completion", "the last call never completed");
    cl.sync();
  }
  for (auto &k : calls) {
    if (k->never && k->runs.load()) vh::viol("error-completes", "call %llu completed although it was answered by an error", (unsigned long long)k->nonce);
    if (!k->must && !k->never && k->runs.load()) vh::viol("invented", "call %llu completed although nobody answered", (unsigned long long)k->nonce);
  }
  if (r.chance(1, 2)) { close(p.fd); p.fd = -1; }
  hang_up(cl, c, true);
  cl.quit();
  count("calls", calls_n);
  vh::seen((uint64_t)calls_n * 1315423911u + r.next() % 1000);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  vh::quiet_log();
  kanon::SetProtobufLog(false);
  kanon::SetProtobufRpcLog(false);
  gp::SetLogHandler(nullptr);
  const std::string &m = vh::C().mode;
  if (m == "calls") vh::run_cases([](long, Rng &r) { calls_case(r); });
  else if (m == "ending") vh::run_cases([](long, Rng &r) { ending_case(r); });
  else if (m == "rawclient") vh::run_cases([](long, Rng &r) { rawclient_case(r); });
  else if (m == "rawserver") vh::run_cases([](long, Rng &r) { rawserver_case(r); });
  else return 2;
  vh::finish();
  return 0;
}
