// K01 tasks, K02 quitting/teardown, K03 timers, K04 cancellation   (--mode k01..k04)
#define VLOOP_WRAP_POLL
#define VSCHED_WRITE
#include "vsched.h"
#include "vloop.h"
#include <sys/socket.h>
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/net/channel.h"
using namespace kanon;
using namespace vh;

static int64_t now_us() { return TimeStamp::Now().GetMicrosecondsSinceEpoch(); }
struct Cfg { bool poll, et; int eintr, delay; };
static Cfg cfg(Rng &r) {
  Cfg c;
  c.poll = r.chance(1, 2);
  c.et = !c.poll && r.chance(1, 2);
  c.eintr = r.chance(1, 3) ? (int)r.range(2, 8) : 0;
  c.delay = r.chance(1, 3) ? (int)r.range(2, 6) : 0;
  g_eintr() = c.eintr;
  g_delay() = c.delay;
  return c;
}
static uint64_t ch(const Cfg &c) { return c.poll + 2 * c.et + 4 * (c.eintr != 0) + 8 * (c.delay != 0); }
static void calm() { g_eintr() = 0; g_delay() = 0; }

// ==================================================================== K01
struct Ev { int prod, seq; };
struct Prog {
  LoopHost *h;
  std::vector<Ev> log;          // loop thread only
  std::vector<std::atomic<int>> ran;
  std::atomic<int> total{0}, expect{0};
  std::atomic<int> wrong{0};
  int loop_tid = 0;
  std::vector<int> seq;          // loop thread's own queue order, see nested()
  int nest_queued = 0, nest_ran = 0;
  long nested = 0;
  explicit Prog(size_t n) : ran(n) { for (auto &x : ran) x = 0; }
  void hit(int prod, int s, int slot) {
    if (mytid() != loop_tid) ++wrong;
    log.push_back({prod, s});
    ++ran[slot];
    ++total;
  }
};

static void nested(Prog &p, Rng &q, std::shared_ptr<Tracked> trk, int depth) {
  EventLoop *l = p.h->get();
  if (!l->IsLoopInThread()) viol("inthread", "IsLoopInThread false on the loop thread");
  if (q.chance(1, 2)) {
    bool ran = false;
    ++p.nested;
    l->RunInLoop([&ran, &p] { ran = true; if (mytid() != p.loop_tid) ++p.wrong; });
    if (!ran) viol("run-not-immediate", "RunInLoop on the loop thread returned before the task ran");
  }
  if (q.chance(1, 2)) {
    ++p.expect;
    auto flag = std::make_shared<bool>(false);
    int my = p.nest_queued++;
    uint64_t s = q.next();
    auto body = [&p, flag, my, trk, s, depth] {
      *flag = true;
      trk->check();
      if (my != p.nest_ran) viol("nested-order", "task %d queued by the loop thread ran as %d-th", my, p.nest_ran);
      ++p.nest_ran;
      if (mytid() != p.loop_tid) ++p.wrong;
      ++p.total;
      Rng q2(s);
      if (depth < 3) nested(p, q2, trk, depth + 1);
    };
    l->QueueToLoop(body);
    if (*flag) viol("queue-immediate", "a queued task ran inside the queuing call");
  }
}

static uint64_t k01_flood(Rng &r) {
  Cfg c = cfg(r);
  int np = r.range(1, 4), per = r.range(1, 60);
  bool prestart = r.chance(1, 3);
  auto trk = std::make_shared<Tracked>(1);
  Prog p(np * per + 8);
  int pre = prestart ? (int)r.below(4) : 0;
  int pipefd[2] = {-1, -1};
  bool mixed = r.chance(1, 2);
  std::unique_ptr<Channel> chn;
  uint64_t s0 = r.next();
  if (mixed && pipe2(pipefd, O_NONBLOCK | O_CLOEXEC)) abort();
  {
    LoopHost h(c.poll, c.et, [&](EventLoop *l) {
      p.loop_tid = mytid();
      for (int i = 0; i < pre; ++i) { ++p.expect; l->QueueToLoop([&p, i, np, per] { p.hit(100, i, np * per + i); }); }
      if (p.total.load()) viol("queue-immediate", "queued before start, ran at once");
      if (mixed) {
        chn.reset(new Channel(l, pipefd[0]));
        chn->SetReadCallback([&, l](TimeStamp) {
          char b[64];
          ssize_t n;
          while ((n = ::read(pipefd[0], b, sizeof b)) > 0) {}
          Rng q(s0 ^ p.total.load());
          nested(p, q, trk, 1);
        });
        chn->EnableReading();
      }
    }, !prestart);
    p.h = &h;
    Group g("producers");
    for (int i = 0; i < np; ++i)
      g.go([&, i] {
        Rng q(s0 + i);
        for (int k = 0; k < per; ++k) {
          ++p.expect;
          uint64_t s = q.next();
          bool deep = q.chance(1, 4);
          auto t = [&p, i, k, per, s, deep, trk] {
            trk->check();
            p.hit(i, k, i * per + k);
            Rng q2(s);
            nap(q2);
            if (deep) nested(p, q2, trk, 0);
          };
          if (q.chance(1, 2)) h->QueueToLoop(t); else h->RunInLoop(t);
          if (mixed && q.chance(1, 4)) { ssize_t w = ::write(pipefd[1], "x", 1); (void)w; }
          if (mixed && q.chance(1, 6)) {
            ++p.expect;
            h->RunAfterUs([&p, s, trk] { ++p.total; if (mytid() != p.loop_tid) ++p.wrong; Rng q2(s); nested(p, q2, trk, 1); }, q.below(500));
          }
          nap(q);
        }
      });
    if (prestart) { sleep_us(r.below(500)); h.go = true; }
    g.join();
    bool quit_right_away = !mixed && r.chance(1, 3);
    if (!quit_right_away && !wait_for([&] { return p.total.load() >= p.expect.load(); }))
      VFATAL("hang:lost-task", "%d of %d tasks ran (%s)", p.total.load(), p.expect.load(), c.poll ? "poll" : "epoll");
    if (mixed) h.sync([&] { chn->DisableAll(); chn->Remove(); });
    h.quit();
  }
  chn.reset();
  if (mixed) { close(pipefd[0]); close(pipefd[1]); }
  if (p.wrong.load()) viol("wrong-thread", "%d tasks ran off the loop thread", p.wrong.load());
  for (int i = 0; i < np * per + pre; ++i)
    if (p.ran[i].load() != 1) { viol("task-count", "task %d of producer %d ran %d times", i % per, i / per, p.ran[i].load()); break; }
  std::map<int, int> last;
  for (auto &e : p.log) {
    if (!last.count(e.prod)) last[e.prod] = -1;
    if (e.seq != last[e.prod] + 1) { viol("task-order", "producer %d: task %d ran after %d", e.prod, e.seq, last[e.prod]); break; }
    last[e.prod] = e.seq;
  }
  if (trk.use_count() != 1) viol("task-leak", "%ld references to task state remain", trk.use_count());
  count("tasks", p.total.load());
  count("nested_runs", p.nested);
  // the interleaving that was observed, not only the parameters
  uint64_t h = ch(c);
  for (auto &e : p.log) h = mix(h, e.prod);
  return mix(h, np * 1000 + per + prestart);
}

static uint64_t k01_pingpong(Rng &r) {  // every task is queued to an idle (or just going idle) loop
  Cfg c = cfg(r);
  LoopHost h(c.poll, c.et);
  int n = r.range(5, 60);
  bool from_two = r.chance(1, 2);
  std::atomic<int> got{0};
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 3)) sleep_us(r.below(400));
    auto f = [&] { ++got; };
    if (from_two) std::thread([&] { h->QueueToLoop(f); }).join();
    else if (r.chance(1, 2)) h->QueueToLoop(f); else h->RunInLoop(f);
    if (!wait_for([&] { return got.load() == i + 1; }))
      VFATAL("hang:idle-wakeup", "task %d to an idle loop never ran (%s)", i, c.poll ? "poll" : "epoll");
  }
  // a task that queues its successor: no other event wakes the loop
  int m = r.range(3, 60);
  std::atomic<int> chain{0};
  std::function<void()> step;
  EventLoop *l = h.get();
  step = [&] { if (++chain < m) { if (chain % 3) l->QueueToLoop(step); else l->RunInLoop([&] { l->QueueToLoop(step); }); } };
  h->QueueToLoop(step);
  if (!wait_for([&] { return chain.load() == m; })) VFATAL("hang:chain", "chain of self-queued tasks stopped at %d of %d", chain.load(), m);
  // timers that queue
  std::atomic<int> tq{0};
  h->RunAfterUs([&] { l->QueueToLoop([&] { ++tq; }); }, 200);
  if (!wait_for([&] { return tq.load() == 1; })) VFATAL("hang:timer-task", "task queued by a timer never ran");
  h.quit();
  if (got.load() != n || chain.load() != m || tq.load() != 1) viol("task-count", "a task ran twice");
  count("idle_wakeups", n + m);
  return mix(ch(c), n * 100 + m);
}
// tasks handed over just before quitting, by the quitting thread itself
static uint64_t k01_quit(Rng &r) {
  Cfg c = cfg(r);
  int n = r.range(1, 40);
  int ran = 0;
  std::vector<int> order;
  LoopHost h(c.poll, c.et);
  int where = r.below(2);
  EventLoop *l = h.get();
  if (where == 0) {
    for (int i = 0; i < n; ++i) { l->QueueToLoop([&, i] { ++ran; order.push_back(i); }); if (r.chance(1, 8)) sleep_us(r.below(50)); }
    l->Quit();
  } else
    l->QueueToLoop([&, l] { for (int i = 0; i < n; ++i) l->QueueToLoop([&, i] { ++ran; order.push_back(i); }); l->Quit(); });
  h.join("after tasks");
  if (ran != n) viol("task-lost-at-quit", "%d of %d tasks queued before Quit ran", ran, n);
  for (size_t i = 0; i < order.size(); ++i) if (order[i] != (int)i) { viol("task-order", "before quit"); break; }
  count("tasks", n);
  return mix(ch(c), n * 2 + where);
}

// ==================================================================== K02
static uint64_t k02_quit(Rng &r) {
  int fds = open_fds();
  Cfg c = cfg(r);
  int how = r.below(9);
  bool busy = r.chance(1, 3);
  long polls = -1;
  int p[2];
  if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) abort();
  std::unique_ptr<Channel> chn;
  std::atomic<long> quit_at{-1};
  std::atomic<int> stop_spam{0};
  {
    EventLoop *pl = nullptr;
    std::function<void()> spin;
    LoopHost h(c.poll, c.et, [&](EventLoop *l) {
      pl = l;
      chn.reset(new Channel(l, p[0]));
      chn->SetReadCallback([&, l](TimeStamp) {
        char b[8];
        ssize_t n = ::read(p[0], b, 8);
        (void)n;
        l->Quit();
        quit_at = t_polls();
      });
      chn->EnableReading();
      if (how == 6) { l->Quit(); quit_at = t_polls(); }
      if (how == 7) l->QueueToLoop([&, l] { l->Quit(); quit_at = t_polls(); });
    }, false);
    EventLoop *l = h.get();
    h.hold = true;
    if (how == 8) l->Quit(), quit_at = 0;       // asked before it runs, from another thread
    h.go = true;
    if (how < 6) {
      if (busy) { spin = [&] { l->QueueToLoop(spin); }; l->QueueToLoop(spin); }
      if (r.chance(2, 3)) h.sync();
      sleep_us(r.below(400));
    }
    switch (how) {
    case 0: case 5: l->Quit(); break;
    case 1: l->QueueToLoop([&] { l->Quit(); quit_at = t_polls(); }); break;
    case 2: l->RunAfterUs([&] { l->Quit(); quit_at = t_polls(); }, r.below(1500)); break;
    case 3: if (::write(p[1], "x", 1) != 1) abort(); break;
    case 4: l->QueueToLoop([&] { l->RunInLoop([&] { l->Quit(); l->Quit(); quit_at = t_polls(); }); }); break;
    }
    long before = g_polls();
    if (how == 5) l->Quit();
    if (!wait_for([&] { return h.returned.load(); }))
      VFATAL("hang:quit", "StartLoop did not return after Quit (way %d, %s%s)", how, c.poll ? "poll" : "epoll", busy ? ", busy" : "");
    if (quit_at.load() >= 0) polls = h.polls_at_return - quit_at;
    else if (how == 0 || how == 5) polls = g_polls() - before;   // asked before this sample was taken
    if (polls > 3 + (c.eintr ? 60 : 0)) viol("quit-slow", "%ld iterations after Quit (way %d)", polls, how);
    if (chn) {}
    h.hold = false;
    h.join("destroy");
  }
  chn.reset();
  close(p[0]); close(p[1]);
  if (open_fds() != fds) viol("fd-leak", "%d descriptors, %d before", open_fds(), fds);
  count("quits");
  return mix(ch(c), how * 2 + busy);
}
static uint64_t k02_thread(Rng &r) {
  int fds = open_fds(), thr = live_threads();
  g_eintr() = r.chance(1, 3) ? 4 : 0;
  g_delay() = r.chance(1, 2) ? 3 : 0;
  int how = r.below(8), ntasks = r.below(20), early = r.below(3);
  std::atomic<int> ran{0}, inits{0}, wrong{0};
  std::atomic<int> init_tid{0};
  std::atomic<EventLoop *> init_loop{nullptr};
  std::atomic<bool> dead{false};
  bool with_init = r.chance(1, 2);
  auto trk = std::make_shared<Tracked>(2);
  Group g("loopthread");
  uint64_t s0 = r.next();
  g.go([&] {
    Rng q(s0);
    {
      EventLoopThread t("elt");
      if (how == 0) { if (t.GetLoop()) viol("loop-before-start", "a loop before StartRun"); }
      else if (how == 7) {  // the loop stops while the thread is being started
        t.StartRun([&](EventLoop *x) {
          for (int i = 0; i < ntasks; ++i) x->QueueToLoop([&, trk] { ++ran; });
          if (early == 0) x->Quit();
          else if (early == 1) x->QueueToLoop([x] { x->Quit(); });
          else x->RunAfter([x] { x->Quit(); }, 0.0002);
        });
        if (!wait_for([&] { return t.GetLoop() == nullptr; })) VFATAL("hang:quit", "loop thread keeps its loop (early)");
      } else {
        EventLoop *l;
        if (with_init) l = t.StartRun([&](EventLoop *x) { ++inits; init_tid = mytid(); init_loop = x; });
        else l = t.StartRun();
        if (!l) VFATAL("null-loop", "StartRun returned no loop");
        if (t.GetLoop() != l) viol("loop-differs", "GetLoop differs from StartRun");
        if (l->IsLoopInThread()) viol("loop-same-thread", "the loop belongs to the calling thread");
        if (with_init && (inits.load() != 1 || init_loop.load() != l || init_tid.load() == mytid()))
          viol("init-callback", "init callback ran %d times", inits.load());
        for (int i = 0; i < ntasks; ++i)
          l->QueueToLoop([&, trk, l] { ++ran; if (!l->IsLoopInThread()) ++wrong; });
        switch (how) {
        case 1: break;                                            // destroyed at once
        case 2: if (!wait_for([&] { return ran.load() == ntasks; })) VFATAL("hang:lost-task", "loop thread"); break;
        case 3: l->QueueToLoop([l] { l->Quit(); }); sleep_us(q.below(300)); break;
        case 4: l->RunEvery([&, trk] { ++ran; }, 0.0003); sleep_us(q.below(1500)); break;
        case 5: l->RunAfter([trk] {}, 3600); l->QueueToLoop([&] { sleep_us(300); }); break;
        case 6: { std::thread k([&] { sleep_us(50); }); l->Quit(); k.join();
                  if (!wait_for([&] { return t.GetLoop() == nullptr; })) VFATAL("hang:quit", "loop thread keeps its loop"); break; }
        }
      }
    }
    dead = true;
  });
  if (!wait_for([&] { return dead.load(); })) VFATAL("hang:loopthread-destroy", "EventLoopThread destructor hangs (way %d)", how);
  g.join();
  if (wrong.load()) viol("wrong-thread", "tasks ran off the loop thread");
  if (how >= 1 && how != 3 && how != 4 && ran.load() != ntasks && how != 6) viol("task-lost-at-quit", "%d of %d tasks queued before destruction ran", ran.load(), ntasks);
  if (trk.use_count() != 1) viol("state-leak", "%ld references remain", trk.use_count());
  calm();
  if (!wait_for([&] { return live_threads() <= thr; })) viol("thread-left", "%d threads, %d before", live_threads(), thr);
  if (open_fds() != fds) viol("fd-leak", "%d descriptors, %d before (way %d)", open_fds(), fds, how);
  count("loop_threads");
  return mix(how * 100 + ntasks, with_init);
}
static uint64_t k02_pool(Rng &r) {
  int fds = open_fds(), thr = live_threads();
  int n = r.below(6), ask = r.range(0, 20), how = r.below(3);
  std::atomic<int> inits{0};
  g_delay() = r.chance(1, 2) ? 3 : 0;
  {
    LoopHost h(r.chance(1, 2), false);
    std::vector<EventLoop *> seen;
    EventLoop *base = h.get();
    EventLoopPool *pool = nullptr;
    h.sync([&] {
      pool = new EventLoopPool(base, "pool");
      if (pool->IsStarted()) viol("pool-started", "started before StartRun");
      pool->SetLoopNum(n);
      if (r.chance(1, 2)) pool->StartRun([&](EventLoop *) { ++inits; }); else { pool->StartRun(); inits = n; }
      if (!pool->IsStarted() || pool->GetLoopNum() != n) viol("pool-started", "not started / wrong size");
      for (int i = 0; i < ask; ++i) seen.push_back(pool->GetNextLoop());
    }, "pool start");
    if (inits.load() != n && n) viol("pool-init", "init ran %d times for %d loops", inits.load(), n);
    std::unordered_set<void *> distinct(seen.begin(), seen.end());
    for (int i = 0; i < ask; ++i) {
      if (!seen[i]) { viol("pool-null", "no loop handed out"); break; }
      if (n == 0 ? seen[i] != base : seen[i] == base) { viol("pool-base", "loop %d is%s the base loop", i, n ? "" : " not"); break; }
      if (n && i >= n && seen[i] != seen[i - n]) { viol("pool-rotation", "pick %d differs from pick %d", i, i - n); break; }
    }
    if (n && (int)distinct.size() != std::min(n, ask)) viol("pool-distinct", "%zu distinct loops of %d", distinct.size(), n);
    std::atomic<int> ran{0};
    std::atomic<int> wrong{0};
    if (seen.size() && seen[0])
      for (auto *l : seen) l->QueueToLoop([&, l] { ++ran; if (!l->IsLoopInThread()) ++wrong; });
    if (how == 0 && !wait_for([&] { return ran.load() == ask; })) VFATAL("hang:lost-task", "pool loop");
    std::atomic<bool> gone{false};
    h->QueueToLoop([&] { delete pool; gone = true; });
    if (!wait_for([&] { return gone.load(); })) VFATAL("hang:pool-destroy", "EventLoopPool destructor hangs (%d loops)", n);
    h.sync();
    if (ran.load() != ask) viol("task-lost-at-quit", "%d of %d", ran.load(), ask);
    if (wrong.load()) viol("wrong-thread", "pool task");
  }
  calm();
  if (!wait_for([&] { return live_threads() <= thr; })) viol("thread-left", "%d threads, %d before", live_threads(), thr);
  if (open_fds() != fds) viol("fd-leak", "%d descriptors, %d before", open_fds(), fds);
  count("pool_picks", ask);
  return mix(n * 100 + ask, how);
}

// ==================================================================== K03
struct TRec {
  int64_t due = 0;          // lower bound computed by the harness before the call
  int64_t reg_poll = -1;    // iteration in which it was known to be registered
  bool registered = false, ran = false, exact = false;
  std::atomic<int> runs{0};
};
static uint64_t k03_oneshot(Rng &r) {
  Cfg c = cfg(r);
  if (c.eintr) g_eintr() = c.eintr = 8;
  int nt = r.range(1, 3), per = r.range(1, 25);
  int n = nt * per + 60;
  std::vector<TRec> rec(n);
  std::atomic<int> used{0}, fired{0}, wrong{0};
  uint64_t s0 = r.next();
  int64_t common = now_us() + r.range(1000, 12000);
  bool longpending = r.chance(1, 3);
  auto trk = std::make_shared<Tracked>(4);
  std::vector<int> order;
  {
    std::function<void(Rng &, bool)> add;
    LoopHost *hp = nullptr;
    EventLoop *el = nullptr;
    // on the loop thread: which timers were certainly registered before this batch began?
    auto fire = [&](int id) {
      TRec &t = rec[id];
      int64_t now = now_us();
      ++t.runs;
      if (mytid() != hp->tid.load()) ++wrong;
      trk->check();
      if (now + 2 < t.due) viol("timer-early", "fired %lld us early", (long long)(t.due - now));
      if (t.exact)
        for (int j = 0, m = used.load(); j < m; ++j) {
          TRec &o = rec[j];
          if (j != id && o.registered && o.exact && o.reg_poll < t_polls() && !o.ran && o.due < t.due)
            { viol("timer-order", "timer due %lld us later ran first", (long long)(t.due - o.due)); break; }
        }
      t.ran = true;
      order.push_back(id);
    };
    add = [&](Rng &q, bool nested_ok) {
      int id = used.fetch_add(1);
      if (id >= n) { used = n; return; }
      TRec &t = rec[id];
      uint64_t s = q.next();
      bool nest = nested_ok && q.chance(1, 4);
      auto cb = [&, id, s, nest] {
        fire(id);
        Rng q2(s);
        if (nest) add(q2, false);
        if (q2.chance(1, 10)) sleep_us(q2.below(800));
        ++fired;
      };
      int64_t d = q.chance(1, 8) ? 0 : q.chance(1, 3) ? q.range(0, 3) * 1000 : q.range(0, 8000);
      bool inloop = el->IsLoopInThread();
      int way = q.below(5);
      int64_t t0 = now_us();
      switch (way) {
      case 0: t.due = t0 + d; t.exact = false; el->RunAfterUs(cb, d); break;
      case 1: t.due = t0 + d / 1000 * 1000; el->RunAfterMs(cb, d / 1000); break;
      case 2: t.due = t0 + d; el->RunAfter(cb, d * 1e-6); break;
      case 3: t.due = common + q.range(0, 3) * 500; t.exact = true; el->RunAt(cb, TimeStamp(t.due)); break;
      case 4: t.due = q.chance(1, 3) ? t0 - q.range(0, 5000000) : t0 + d; t.exact = true; el->RunAt(cb, TimeStamp(t.due)); break;
      }
      if (inloop) { t.reg_poll = t_polls(); t.registered = true; }
      else el->QueueToLoop([&t] { t.reg_poll = t_polls(); t.registered = true; });
    };
    uint64_t pre = r.below(3);
    LoopHost h(c.poll, c.et, [&](EventLoop *l) {
      el = l;
      Rng q(s0 + 99);
      for (uint64_t i = 0; i < pre; ++i) add(q, true);
      if (longpending) l->RunAfter([trk] { viol("timer-early", "one-hour timer fired"); }, 3600);
    }, false);
    hp = &h;
    h.go = true;
    Group g("timer-adders");
    for (int i = 0; i < nt; ++i)
      g.go([&, i] { Rng q(s0 + i); for (int k = 0; k < per; ++k) { add(q, true); nap(q); } });
    if (r.chance(1, 2)) h.sync([&] { Rng q(s0 + 7); for (int k = 0; k < 6; ++k) add(q, true); });
    g.join();
    h.sync();
    if (!wait_for([&] { return fired.load() >= used.load(); }, 1800))
      VFATAL("hang:timer", "%d of %d timers fired (%s)", fired.load(), used.load(), c.poll ? "poll" : "epoll");
    sleep_us(500);
    h.quit();
  }
  for (int i = 0; i < used.load(); ++i)
    if (rec[i].runs.load() != 1) { viol("timer-count", "one-shot timer ran %d times", rec[i].runs.load()); break; }
  if (wrong.load()) viol("wrong-thread", "timer action off the loop thread");
  if (trk.use_count() != 1) viol("timer-leak", "%ld references remain", trk.use_count());
  count("timers", used.load());
  uint64_t h = mix(ch(c), nt);
  for (int i : order) h = mix(h, i);
  return h;
}
static uint64_t k03_repeat(Rng &r) {
  Cfg c = cfg(r);
  if (c.eintr) g_eintr() = c.eintr = 8;
  int n = r.range(1, 5);
  struct R { int64_t start, iv; int runs = 0; std::atomic<int> done{0}; TimerId id; int want; };
  std::vector<R> rs(n);
  std::atomic<int> wrong{0};
  {
    LoopHost h(c.poll, c.et);
    bool slow = r.chance(1, 3);
    for (int i = 0; i < n; ++i) {
      R &x = rs[i];
      x.iv = r.range(100, 3000);
      x.want = r.range(2, 8);
      bool at = r.chance(1, 3), inloop = r.chance(1, 3);
      int64_t off = r.range(0, 3000);
      auto cb = [&x, &wrong, &h, slow] {
        int64_t now = now_us();
        if (mytid() != h.tid.load()) ++wrong;
        ++x.runs;
        if (now + 2 + 2 * x.runs < x.start + x.iv * (x.runs - 1))
          viol("repeat-early", "run %d after %lld us, interval %lld", x.runs, (long long)(now - x.start), (long long)x.iv);
        if (slow) sleep_us(200);
        if (x.runs >= x.want) x.done = 1;
      };
      auto make = [&x, &h, at, off, cb] {
        int64_t t0 = now_us();
        if (at) { x.start = t0 + off; x.id = h->RunEvery(cb, TimeStamp(x.start), x.iv * 1e-6); }
        else { x.start = t0 + x.iv; x.id = h->RunEvery(cb, x.iv * 1e-6); }
      };
      if (inloop) h.sync(make); else make();
    }
    if (!wait_for([&] { for (auto &x : rs) if (!x.done) return false; return true; }, 1800))
      VFATAL("hang:repeat", "a repeating timer stopped by itself");
    // it keeps running while others are cancelled
    std::vector<int> at_cancel(n);
    for (int i = 0; i < n; ++i)
      if (i % 2 == 0) { h->CancelTimer(rs[i].id); }
    h.sync([&] { for (int i = 0; i < n; ++i) at_cancel[i] = rs[i].runs; });
    if (n > 1 && r.chance(1, 2)) {
      std::vector<int> base(n);
      h.sync([&] { for (int i = 0; i < n; ++i) { base[i] = rs[i].runs; rs[i].done = 0; rs[i].want = base[i] + 2; } });
      if (!wait_for([&] { for (int i = 1; i < n; i += 2) if (!rs[i].done) return false; return true; }, 1800))
        VFATAL("hang:repeat", "cancelling another timer stopped a repeating timer");
    }
    sleep_us(r.below(2500));
    h.sync([&] { for (int i = 0; i < n; i += 2) if (rs[i].runs != at_cancel[i]) viol("cancelled-ran", "cancelled repeating timer ran again"); });
    h.quit();
    for (auto &x : rs) count("repeat_runs", x.runs);
  }
  if (wrong.load()) viol("wrong-thread", "timer action off the loop thread");
  return mix(ch(c), n * 7 + r.below(5));
}
// many timers, idle loop, a nearer one added while a far one is armed
static uint64_t k03_order(Rng &r) {
  Cfg c = cfg(r);
  g_eintr() = c.eintr = 0;
  int n = r.range(2, 60);
  std::vector<int64_t> due(n);
  std::vector<int> order;
  std::atomic<int> fired{0};
  {
    LoopHost h(c.poll, c.et);
    bool desc = r.chance(1, 3), stalled = r.chance(1, 2);
    h.sync([&] {
      int64_t t0 = now_us() + 1500;
      for (int i = 0; i < n; ++i) due[i] = t0 + (desc ? (n - i) * 40 : r.range(0, 4000)) + (r.chance(1, 4) ? 0 : r.range(0, 50));
      for (int i = 0; i < n; ++i) h->RunAt([&, i] { if (now_us() + 2 < due[i]) viol("timer-early", "early"); order.push_back(i); ++fired; }, TimeStamp(due[i]));
      if (stalled) sleep_us(3000);  // several become due in one wake-up
    });
    if (!wait_for([&] { return fired.load() == n; })) VFATAL("hang:timer", "%d of %d", fired.load(), n);
    h.quit();
  }
  for (int i = 1; i < n; ++i)
    if (due[order[i]] < due[order[i - 1]]) { viol("timer-order", "due %lld us earlier but ran later", (long long)(due[order[i - 1]] - due[order[i]])); break; }
  count("timers", n);
  uint64_t h = mix(ch(c), n);
  for (int i : order) h = mix(h, i);
  return h;
}

// ==================================================================== K04
static uint64_t k04_mix(Rng &r) {
  Cfg c = cfg(r);
  int n = r.range(2, 24);
  struct R {
    TimerId id; bool repeat = false, made = false; int64_t due = 0;
    std::atomic<int> cancelled{0};   // set on the loop thread once the cancellation has taken effect
    int runs = 0; std::atomic<int> aruns{0};
    bool victim = false;
    std::shared_ptr<Tracked> trk;
  };
  std::vector<R> rs(n);
  std::vector<int> order;
  int fds = open_fds();
  uint64_t s0 = r.next();
  std::atomic<int> cancels{0};
  {
    LoopHost h(c.poll, c.et);
    EventLoop *l = h.get();
    auto cancel_in_loop = [&](int j) { l->CancelTimer(rs[j].id); rs[j].cancelled = 1; ++cancels; };
    int64_t t0 = now_us() + 1500;
    auto make = [&](int i, Rng q) {
      R &x = rs[i];
      x.repeat = q.chance(1, 2);
      x.trk = std::make_shared<Tracked>(i);
      x.due = t0 + q.range(0, 4) * 400;
      uint64_t s = q.next();
      auto trk = x.trk;
      auto cb = [&, i, s, trk] {
        R &y = rs[i];
        trk->check();
        if (y.cancelled.load()) viol("cancelled-ran", "timer %d (%s) started after its cancellation took effect", i, y.repeat ? "repeating" : "one-shot");
        ++y.runs; ++y.aruns;
        order.push_back(i);
        Rng q2(s + y.runs);
        int m = q2.below(8);
        if (m == 0 && y.repeat && y.made) { cancel_in_loop(i); if (q2.chance(1, 2)) l->CancelTimer(y.id); }
        else if (m <= 3) { int j = q2.below(n); if (rs[j].made) { cancel_in_loop(j); if (q2.chance(1, 3)) l->CancelTimer(rs[j].id); } }
        else if (m == 4) { l->CancelTimer(TimerId()); }
        else if (m == 5 && !y.repeat && y.made) l->CancelTimer(y.id);  // itself, already fired
        if (y.repeat && y.runs > 12 && y.made) { cancel_in_loop(i); }
        trk->check();                                         // still alive after a self-cancel
      };
      x.id = x.repeat ? l->RunEvery(cb, TimeStamp(x.due), 1e-6 * q.range(150, 900)) : l->RunAt(cb, TimeStamp(x.due));
    };
    // created on the loop or on this thread; visible to callbacks only through the loop
    for (int i = 0; i < n; ++i) {
      Rng q(s0 + i);
      if (q.chance(1, 2)) h.sync([&, i, q] { make(i, q); rs[i].made = true; });
      else { make(i, q); l->QueueToLoop([&, i] { rs[i].made = true; }); }
    }
    // cancellations from other threads, racing with expiry
    Group g("cancellers");
    int nc = r.below(3);
    for (int k = 0; k < nc; ++k)
      g.go([&, k] {
        Rng q(s0 + 1000 + k);
        for (int a = 0; a < 8; ++a) {
          int j = q.below(n);
          sleep_us(q.below(500));
          l->CancelTimer(rs[j].id);
          l->QueueToLoop([&, j] { rs[j].cancelled = 1; });   // behind the cancellation
          ++cancels;
        }
      });
    g.join();
    sleep_us(r.below(4000));
    // one-shots nobody cancelled fire exactly once; cancel all the rest and settle
    if (!wait_for([&] { for (auto &x : rs) if (!x.repeat && !x.cancelled.load() && x.aruns.load() == 0) return false; return true; }))
      VFATAL("timer-lost", "an uncancelled one-shot timer never fired");
    h.sync([&] { for (int i = 0; i < n; ++i) { cancel_in_loop(i); } });
    std::vector<int> runs(n);
    h.sync([&] { for (int i = 0; i < n; ++i) runs[i] = rs[i].runs; });
    // stale ids must not hit timers that reuse their memory
    std::atomic<int> fresh{0};
    int nf = r.range(1, 10);
    h.sync([&] { for (int i = 0; i < nf; ++i) l->RunAfterUs([&] { ++fresh; }, r.below(1500));
                 for (auto &x : rs) l->CancelTimer(x.id); });
    for (auto &x : rs) if (r.chance(1, 2)) l->CancelTimer(x.id);
    if (!wait_for([&] { return fresh.load() == nf; })) VFATAL("stale-cancel", "cancelling fired/cancelled timers stopped %d of %d others", nf - fresh.load(), nf);
    sleep_us(r.below(1500));
    h.sync([&] {
      for (int i = 0; i < n; ++i) {
        if (rs[i].runs != runs[i]) viol("cancelled-ran", "timer %d ran after cancellation", i);
        if (!rs[i].repeat && rs[i].runs > 1) viol("timer-count", "one-shot ran %d times", rs[i].runs);
        if (rs[i].trk.use_count() > 1) viol("cancel-retains", "action of a finished timer is still held (%ld)", rs[i].trk.use_count());
      }
    });
    h.quit();
  }
  if (open_fds() != fds) viol("fd-leak", "descriptors");
  count("cancels", cancels.load());
  count("timers", n);
  uint64_t h = mix(ch(c), n * 10);
  for (size_t i = 0; i < order.size() && i < 40; ++i) h = mix(h, order[i]);
  return h;
}
// directed: A and B due together, the first to run cancels the other; repeated with every kind
static uint64_t k04_same(Rng &r) {
  Cfg c = cfg(r);
  int n = r.range(2, 8);
  bool rep = r.chance(1, 2), cascade = r.chance(1, 2);
  std::vector<TimerId> ids(n);
  std::vector<int> runs(n, 0);
  std::vector<char> dead(n, 0);
  int first = -1;
  {
    LoopHost h(c.poll, c.et);
    EventLoop *l = h.get();
    bool others = r.chance(1, 2);
    std::atomic<int> bystander{0};
    std::atomic<bool> any{false};
    h.sync([&] {
      TimeStamp due(now_us() + 800);
      for (int i = 0; i < n; ++i) {
        auto cb = [&, i] {
          if (dead[i]) viol("cancelled-ran", "cancelled by another action of the same wake-up, ran anyway");
          ++runs[i];
          if (first < 0) first = i;
          any = true;
          for (int j = 0; j < n; ++j)
            if (j != i && (!cascade || j == (i + 1) % n)) { l->CancelTimer(ids[j]); dead[j] = 1; }
          if (rep && runs[i] >= 2) { l->CancelTimer(ids[i]); dead[i] = 1; }
        };
        ids[i] = rep ? l->RunEvery(cb, due, 0.0004) : l->RunAt(cb, due);
      }
      if (others) l->RunAt([&] { ++bystander; }, due);
      sleep_us(1500);  // all of them expire in one wake-up
    });
    if (others && !wait_for([&] { return bystander.load() == 1; })) VFATAL("timer-lost", "bystander timer never fired");
    if (!wait_for([&] { return any.load(); })) VFATAL("timer-lost", "none of the timers fired");
    sleep_us(2500);
    h.sync([&] {});
    h.quit();
  }
  count("same_wakeup");
  return mix(ch(c), n * 4 + rep * 2 + cascade);
}
// timers being added and cancelled while the loop quits: nothing leaks or crashes
static uint64_t k04_quit(Rng &r) {
  int fds = open_fds();
  Cfg c = cfg(r);
  auto trk = std::make_shared<Tracked>(9);
  {
    LoopHost h(c.poll, c.et);
    h.hold = true;
    EventLoop *l = h.get();
    Group g("adders");
    uint64_t s0 = r.next();
    for (int i = 0; i < 2; ++i)
      g.go([&, i] {
        Rng q(s0 + i);
        for (int k = 0; k < 30; ++k) {
          TimerId id = q.chance(1, 2) ? l->RunEvery([trk] { trk->check(); }, 1e-6 * q.range(100, 2000)) : l->RunAfterUs([trk] { trk->check(); }, q.below(2000));
          nap(q);
          if (q.chance(1, 2)) l->CancelTimer(id);
        }
      });
    sleep_us(r.below(800));
    l->Quit();
    g.join();
    h.hold = false;
    h.join("timers");
  }
  if (trk.use_count() != 1) viol("timer-leak", "%ld references remain after the loop is gone", trk.use_count());
  if (open_fds() != fds) viol("fd-leak", "descriptors");
  count("timers", 60);
  return mix(ch(c), r.below(1000));
}

// Objects owned by tasks and timers whose end uses the loop again.
struct Farewell {
  std::function<void()> f;
  explicit Farewell(std::function<void()> g) : f(std::move(g)) {}
  ~Farewell() { if (f) f(); }
};

static uint64_t k01_farewell(Rng &r) {
  Cfg c = cfg(r);
  auto trk = std::make_shared<Tracked>(11);
  std::atomic<int> total{0}, expect{0}, wrong{0}, made{0}, ended{0};
  int n = (int)r.range(1, 12), rounds = (int)r.range(1, 4);
  std::vector<int> order;  // loop thread only
  {
    LoopHost h(c.poll, c.et);
    EventLoop *l = h.get();
    int tid = h.tid;
    // a task that, when it is destroyed, hands over the next one
    std::function<std::function<void()>(uint64_t, int)> make = [&](uint64_t seed, int depth) -> std::function<void()> {
      Rng q(seed);
      std::shared_ptr<Farewell> fw;
      if (depth < 4 && q.chance(3, 4)) {
        uint64_t s = q.next();
        int how = (int)q.below(4);
        ++made;
        fw = std::make_shared<Farewell>([&, s, how, depth, l] {
          ++expect;
          auto t = make(s, depth + 1);
          if (how == 0) l->RunInLoop(std::move(t));
          else if (how == 1) l->RunAfterUs(std::move(t), (s >> 8) % 300);
          else l->QueueToLoop(std::move(t));
          ++ended;
        });
      }
      return [&, fw, tid] { trk->check(); if (mytid() != tid) ++wrong; order.push_back(1); ++total; };
    };
    for (int i = 0; i < rounds; ++i) {
      for (int k = 0; k < n; ++k) {
        ++expect;
        auto t = make(r.next(), 0);
        if (r.chance(1, 4)) l->RunAfterUs(std::move(t), r.below(300));
        else if (r.chance(1, 3)) l->RunInLoop(std::move(t));
        else l->QueueToLoop(std::move(t));
        if (r.chance(1, 3)) nap(r);
      }
      // nothing else wakes the loop up now
      auto settled = [&] { int t = total.load(), e = ended.load(); return expect.load() == t && made.load() == e; };
      if (!wait_for(settled))
        VFATAL("hang:lost-task", "%d of %d tasks ran, %d of %d ends; the last were handed over by the end of another task", total.load(), expect.load(), ended.load(), made.load());
    }
    h.quit();
  }
  if (wrong.load()) viol("wrong-thread", "%d tasks ran off the loop thread", wrong.load());
  if (total.load() != expect.load()) viol("task-count", "%d runs of %d tasks", total.load(), expect.load());
  if (trk.use_count() != 1) viol("task-leak", "references to task state remain");
  count("tasks", total.load());
  count("farewells", total.load() - n * rounds);
  return mix(ch(c), n * 1000 + total.load());
}

// Sessions that cancel their timer (and use the loop in other ways) when they
// end, kept alive by timers and tasks; the loop ends at any time.
struct Sess {
  EventLoop *l;
  std::shared_ptr<Tracked> trk;
  std::vector<TimerId> ids;
  uint64_t s;
  std::atomic<int> *live;
  std::atomic<int> *over;   // set: the loop is being destroyed, new tasks need not run
  Sess(EventLoop *lp, std::shared_ptr<Tracked> t, uint64_t seed, std::atomic<int> *lv, std::atomic<int> *ov) : l(lp), trk(t), s(seed), live(lv), over(ov) { ++*live; }
  ~Sess() {
    Rng q(s);
    auto t = trk;
    for (auto &id : ids) l->CancelTimer(id);
    if (q.chance(1, 3)) l->QueueToLoop([t] { t->check(); });
    if (q.chance(1, 4)) l->RunInLoop([t] { t->check(); });
    if (q.chance(1, 4)) l->RunAfterUs([t] { t->check(); }, q.below(3000));
    if (q.chance(1, 6)) l->CancelTimer(l->RunEvery([t] { t->check(); }, 0.5));
    --*live;
  }
};

static uint64_t sessions(Rng &r, bool end_early) {
  int fds = open_fds();
  Cfg c = cfg(r);
  auto trk = std::make_shared<Tracked>(12);
  std::atomic<int> live{0}, over{0}, fired{0};
  int n = (int)r.range(1, 12);
  uint64_t s0 = r.next();
  {
    LoopHost h(c.poll, c.et);
    EventLoop *l = h.get();
    auto fill = [&, l](Rng &q, int m) {
      for (int i = 0; i < m; ++i) {
        auto ss = std::make_shared<Sess>(l, trk, q.next(), &live, &over);
        int k = (int)q.range(1, 3);
        for (int j = 0; j < k; ++j) {
          double d = q.chance(1, 2) ? 1e-6 * q.below(2000) : 3600.0;
          bool every = q.chance(1, 3), drop = q.chance(1, 4);
          auto cb = [ss, &fired, drop] {
            ss->trk->check();
            ++fired;
            if (drop) { for (auto &id : ss->ids) ss->l->CancelTimer(id); }
          };
          ss->ids.push_back(every ? l->RunEvery(cb, d < 1e-4 ? 1e-4 : d) : l->RunAfter(cb, d));
        }
        if (q.chance(1, 3)) l->QueueToLoop([ss] { ss->trk->check(); });
      }
    };
    h.sync([&] { Rng q(s0); fill(q, n); });
    h.hold = true;
    if (end_early) nap(r); else sleep_us(r.below(2500));
    if (r.chance(1, 2)) {  // timers and tasks come while the loop quits; some never run
      l->QueueToLoop([&, s0] { Rng q(s0 + 1); fill(q, 2); l->Quit(); fill(q, 3); });
    } else
      l->Quit();
    if (!wait_for([&] { return h.returned.load(); })) VFATAL("hang:quit", "the loop did not return");
    // tasks that are never run, in a loop that has ended
    int extra = (int)r.below(4);
    for (int i = 0; i < extra; ++i) {
      auto ss = std::make_shared<Sess>(l, trk, r.next(), &live, &over);
      l->QueueToLoop([ss] { ss->trk->check(); });
      ss->ids.push_back(l->RunAfter([ss] { ss->trk->check(); }, 3600.0));
    }
    over = 1;
    h.hold = false;
    h.join("sessions");
  }
  if (live.load()) viol("session-leak", "%d sessions outlive the loop", live.load());
  if (trk.use_count() != 1) viol("timer-leak", "%ld references remain after the loop is gone", (long)trk.use_count());
  if (open_fds() != fds) viol("fd-leak", "descriptors");
  count("sessions", n);
  return mix(ch(c), n * 100 + fired.load() % 100);
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet_log();
  std::string m = C().mode;
  run_cases([&](long, Rng &r) {
    uint64_t h = 0;
    int k = r.below(6);
    if (r.chance(1, 8) || opt_int("farewell", 0)) h = m == "k01" ? k01_farewell(r) : sessions(r, m == "k02");
    else if (m == "k01") h = k <= 2 ? k01_flood(r) : k <= 4 ? k01_pingpong(r) : k01_quit(r);
    else if (m == "k02") h = k <= 2 ? k02_quit(r) : k <= 3 ? k02_thread(r) : k02_pool(r);
    else if (m == "k03") h = k <= 2 ? k03_oneshot(r) : k <= 3 ? k03_repeat(r) : k03_order(r);
    else h = k <= 2 ? k04_mix(r) : k <= 4 ? k04_same(r) : k04_quit(r);
    calm();
    seen(mix(h, k));
    char b[80];
    snprintf(b, sizeof b, "scenario %d observed %016llx", k, (unsigned long long)h);
    sample(b);
  });
  finish();
  return C().viols ? 95 : 0;
}
