// K21: mutex / condition / latch / rwlock / counter.   --mode k21
// K22: thread / thread pool / weak callback.           --mode k22
#include "vh.h"
#include "vsched.h"
#include <thread>
#include <sys/syscall.h>
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/condition.h"
#include "kanon/thread/count_down_latch.h"
#include "kanon/thread/rw_lock.h"
#include "kanon/thread/atomic_counter.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_pool.h"
#include "kanon/thread/weak_callback.h"
using namespace kanon;
using vh::Rng;

static int mytid() { return (int)syscall(SYS_gettid); }
static void nap(Rng &r) {
  switch (r.below(6)) {
  case 0: sched_yield(); break;
  case 1: vh::sleep_us(r.below(60)); break;
  case 2: { volatile int x = 0; for (uint64_t i = r.below(400); i; --i) x = x + 1; } break;
  default: break;
  }
}
// Joins threads by waiting for `done` first: a deadlock becomes a verdict.
struct Group {
  std::vector<std::thread> t;
  std::atomic<int> done{0};
  const char *what;
  explicit Group(const char *w) : what(w) {}
  template <class F> void go(F f) { t.emplace_back([this, f] { f(); ++done; }); }
  void join() {
    if (!vh::wait_for([&] { return done.load() == (int)t.size(); }))
      VFATAL((std::string("hang:") + what).c_str(), "%d of %zu threads finished", done.load(), t.size());
    for (auto &x : t) x.join();
  }
};

// ------------------------------------------------------------------ mutex
static uint64_t c_mutex(Rng &r) {
  MutexLock m;
  int n = r.range(2, 6), iters = r.range(20, 120);
  long plain = 0, want = 0;
  std::atomic<int> owner{0};
  std::atomic<long> entered{0}, tryfail{0};
  Group g("mutex");
  uint64_t base = r.next();
  for (int i = 0; i < n; ++i)
    g.go([&, i] {
      Rng q(base + i);
      int me = i + 1;
      for (int k = 0; k < iters; ++k) {
        bool got = true;
        int how = q.below(3);
        if (m.IsLockedInThisThread()) vh::viol("mutex-held-before", "reports held while not");
        auto body = [&] {
          int o = owner.exchange(me);
          if (o) vh::viol("mutex-two-inside", "owner %d while %d enters", o, me);
          if (!m.IsLockedInThisThread()) vh::viol("mutex-not-held", "holder does not hold");
          m.AssertLocked();
          long v = plain;
          nap(q);
          plain = v + 1;
          owner = 0;
        };
        if (how == 0) { m.Lock(); body(); m.Unlock(); }
        else if (how == 1) { got = m.TryLock(); if (got) { body(); m.Unlock(); } else ++tryfail; }
        else { MutexGuard gd(m); body(); }
        if (got) ++entered;
        nap(q);
      }
    });
  g.join();
  want = entered.load();
  if (plain != want) vh::viol("mutex-lost-update", "%ld updates, counter %ld", want, plain);
  vh::count("mutex_sections", want);
  // a free lock is acquired, a held one is not
  if (!m.TryLock()) vh::viol("trylock-free", "TryLock failed on a free mutex");
  else {
    bool other = true, otherheld = true;
    std::thread([&] { other = m.TryLock(); otherheld = m.IsLockedInThisThread(); if (other) m.Unlock(); }).join();
    if (other) vh::viol("trylock-held", "TryLock succeeded on a held mutex");
    if (otherheld && !other) vh::viol("held-by-other", "another thread believes it holds the mutex");
    if (!m.IsLockedInThisThread()) vh::viol("trylock-notheld", "TryLock did not record the holder");
    m.Unlock();
    if (m.IsLockedInThisThread()) vh::viol("unlock-held", "still reported held after unlock");
    bool after = false;
    std::thread([&] { after = m.TryLock(); if (after) m.Unlock(); }).join();
    if (!after) vh::viol("trylock-after-unlock", "TryLock failed after unlock");
  }
  return vh::mix(n * 1000 + iters, tryfail.load() ? 1 : 0);
}

// -------------------------------------------------------------- condition
static uint64_t c_queue(Rng &r) {  // bounded queue: wrong wakeups/lost notifications hang or reorder
  MutexLock m;
  Condition ne(m), nf(m);
  std::vector<int> q;
  size_t head = 0, cap = r.range(1, 4);
  int np = r.range(1, 3), nc = r.range(1, 3), per = r.range(5, 60);
  bool all = r.chance(1, 2), timed = r.chance(1, 2);
  long total = (long)np * per, taken = 0;
  std::vector<int> got(total, 0);
  std::atomic<int> inside{0};
  Group g("condition");
  uint64_t base = r.next();
  auto enter = [&] { if (inside.exchange(1)) vh::viol("cond-mutex-shared", "two threads own the mutex"); };
  auto leave = [&] { inside = 0; };
  for (int p = 0; p < np; ++p)
    g.go([&, p] {
      Rng x(base + p);
      for (int k = 0; k < per; ++k) {
        m.Lock(); enter();
        while (q.size() - head >= cap) { leave(); nf.Wait(); enter();
          if (!m.IsLockedInThisThread()) vh::viol("cond-not-reacquired", "Wait returned without the mutex"); }
        q.push_back(p * per + k);
        if (all) ne.NotifyAll(); else ne.Notify();
        leave(); m.Unlock();
        nap(x);
      }
    });
  for (int c = 0; c < nc; ++c)
    g.go([&, c] {
      Rng x(base + 100 + c);
      for (;;) {
        m.Lock(); enter();
        while (q.size() == head && taken < total) {
          leave();
          if (timed) ne.WaitForSeconds(x.chance(1, 2) ? 0.0003 : 30.0); else ne.Wait();
          enter();
          if (!m.IsLockedInThisThread()) vh::viol("cond-not-reacquired", "Wait returned without the mutex");
        }
        if (taken >= total) { ne.NotifyAll(); leave(); m.Unlock(); break; }
        int v = q[head++];
        ++got[v];
        if (++taken == total) ne.NotifyAll();
        if (all) nf.NotifyAll(); else nf.Notify();
        leave(); m.Unlock();
        nap(x);
      }
    });
  g.join();
  for (long i = 0; i < total; ++i)
    if (got[i] != 1) { vh::viol("queue-count", "item %ld taken %d times", i, got[i]); break; }
  vh::count("cond_items", total);
  return vh::mix(np * 100 + nc * 10 + cap, all * 2 + timed);
}
static double rt() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t c_timed(Rng &r) {
  MutexLock m;
  Condition c(m);
  int k = r.below(7);
  if (k <= 3) {  // nobody notifies: true, not early, and by the deadline
    double s = k == 0 ? 0 : k == 1 ? -(double)r.range(1, 5) : k == 2 ? r.range(1, 40) * 1e-3 : r.range(1, 3000) * 1e-6;
    bool on_time = false;
    double best = 1e9;
    for (int a = 0; a < 60 && !on_time; ++a) {
      m.Lock();
      double t0 = rt();
      bool to = c.WaitForSeconds(s);
      double el = rt() - t0;
      if (!m.IsLockedInThisThread()) vh::viol("timed-not-reacquired", "WaitForSeconds returned without the mutex");
      m.Unlock();
      if (!to) { vh::count("spurious"); continue; }
      if (el < s - 2e-6) { vh::viol("timed-early", "timed out after %.6f s of %.6f", el, s); break; }
      best = std::min(best, el);
      on_time = el <= (s > 0 ? s : 0) * 1.4 + 0.004;
    }
    if (!on_time && vh::C().viols == 0) vh::viol("timed-late", "60 waits of %.6f s: best took %.6f s", s, best);
    vh::count("timed_waits");
    return vh::mix(k, (uint64_t)(int64_t)(s * 1e6));
  }
  if (k == 4) {  // one whole-second wait through the integral overload
    if (!r.chance(1, 40)) return 0;
    m.Lock();
    double t0 = rt();
    bool to = c.WaitForSeconds(1);
    double el = rt() - t0;
    m.Unlock();
    if (to && el < 0.999) vh::viol("timed-early", "integral wait of 1 s took %.6f", el);
    vh::count("second_waits");
    return vh::mix(4, 1);
  }
  // somebody notifies long before the deadline: false, and promptly
  double s = k == 5 ? 40 + r.below(1000) + r.below(1000) * 1e-3 : 3e6 + r.below(1000000);
  bool flag = false, to = true;
  int waits = 0;
  Group g("timed-notify");
  uint64_t base = r.next();
  g.go([&] {
    m.Lock();
    while (!flag) { to = c.WaitForSeconds(s); ++waits; if (to) break; }
    m.Unlock();
  });
  g.go([&] { Rng q(base); nap(q); m.Lock(); flag = true; c.Notify(); m.Unlock(); });
  g.join();
  if (waits && to) vh::viol("timed-untruthful", "notified wait of %.1f s reported a timeout", s);
  vh::count("notified_waits", waits);
  return vh::mix(k, waits);
}
static uint64_t c_notifyone(Rng &r) {  // n notifications release n waiters; NotifyAll releases all
  MutexLock m;
  Condition c(m);
  int n = r.range(1, 6), waiting = 0, tokens = 0;
  std::atomic<int> out{0};
  bool all = r.chance(1, 2);
  Group g("notify");
  for (int i = 0; i < n; ++i)
    g.go([&] { MutexGuard x(m); ++waiting; while (tokens == 0) c.Wait(); if (!all) --tokens; ++out; });
  if (!vh::wait_for([&] { MutexGuard x(m); return waiting == n; }))
    VFATAL("hang:cond-release", "mutex not released by waiters (%d of %d waiting)", waiting, n);
  if (all) { MutexGuard x(m); tokens = 1; c.NotifyAll(); }
  else
    for (int i = 0; i < n; ++i) {
      { MutexGuard x(m); ++tokens; c.Notify(); }
      if (!vh::wait_for([&] { return out.load() >= i + 1; })) VFATAL("hang:notify", "notification %d woke nobody", i);
    }
  g.join();
  vh::count("notified", n);
  return vh::mix(n, all);
}

// ------------------------------------------------------------------ latch
static uint64_t c_latch_seq(Rng &r) {
  CountDownLatch l(r.range(0, 5));
  int model = l.GetCount();
  int n = r.range(3, 25);
  uint64_t h = 7;
  for (int i = 0; i < n; ++i) {
    int k = r.below(9), a = r.range(0, 6);
    h = vh::mix(h, k * 16 + a);
    switch (k) {
    case 0: l.Countdown(); if (model > 0) --model; break;
    case 1: l.Decr(); if (model > 0) --model; break;
    case 2: l.Minus(a); model = std::max(0, model - a); break;
    case 3: l.Reset(a); model = a; break;
    case 4: l.Add(a); model += a; break;
    case 5: l.Incr(); ++model; break;
    case 6: if (model == 0) l.Wait(); break;
    case 7: if (model == 0) l.AddAndWait(0); break;
    case 8: if (r.chance(1, 2)) { l.ResetAndWait(0); model = 0; } break;
    }
    int c = l.GetCount();
    if (c < 0) vh::viol("latch-negative", "count %d", c);
    if (c != model) { vh::viol("latch-count", "op %d(%d): count %d expected %d", k, a, c, model); break; }
  }
  vh::count("latch_ops", n);
  return h;
}
static uint64_t c_latch(Rng &r) {
  int start = r.range(0, 3), kind = r.below(5), extra = r.range(1, 6);
  CountDownLatch l(start);
  int total = start, nw = r.range(1, 4), nd = r.range(1, 4);
  std::atomic<int> begun{0}, out{0};
  if (kind == 1) { l.Add(extra); total += extra; }
  if (kind == 2) { l.Incr(); total += 1; }
  if (kind == 3) { l.Reset(extra); total = extra; }
  if (total == 0) { l.Reset(1); total = 1; }
  bool minus = r.chance(1, 3), surplus = r.chance(1, 4);
  Group g("latch");
  uint64_t base = r.next();
  int final = total;
  std::atomic<bool> ready{false};
  bool addwait = r.chance(1, 3);
  if (addwait) final = total + 2;
  for (int i = 0; i < nw; ++i)
    g.go([&, i] {
      if (i == 0 && addwait) { l.AddAndWait(1); }
      else { while (addwait && !ready.load()) sched_yield(); l.Wait(); }
      if (begun.load() < final) vh::viol("latch-early", "released after %d of %d count-downs", begun.load(), final);
      ++out;
    });
  if (addwait) {
    if (!vh::wait_for([&] { return l.GetCount() == total + 1; })) VFATAL("hang:latch-add", "AddAndWait did not add");
    l.Incr();
    ready = true;
  }
  std::atomic<int> left{final};
  for (int i = 0; i < nd; ++i)
    g.go([&, i] {
      Rng q(base + i);
      while (left.fetch_sub(1) > 0) {
        nap(q);
        ++begun;
        if (minus) l.Minus(1); else if (q.chance(1, 2)) l.Countdown(); else l.Decr();
        int c = l.GetCount();
        if (c < 0) vh::viol("latch-negative", "count %d", c);
      }
    });
  g.join();
  if (surplus) { l.Countdown(); l.Decr(); l.Minus(3); }
  if (l.GetCount() != 0) vh::viol("latch-end", "count %d after %d count-downs", l.GetCount(), final);
  // a second round on the same latch
  if (r.chance(1, 2)) {
    Group g2("latch-again");
    bool incw = r.chance(1, 2);
    g2.go([&] { if (incw) l.IncrAndWait(); else l.ResetAndWait(1); });
    if (!vh::wait_for([&] { return l.GetCount() == 1; })) VFATAL("hang:latch-rearm", "count never became 1");
    if (g2.done.load()) vh::viol("latch-open-nonzero", "waiter passed at count 1");
    switch (r.below(4)) { case 0: l.Countdown(); break; case 1: l.Minus(5); break; case 2: l.Reset(0); break; default: l.Decr(); }
    g2.join();
  }
  vh::count("latch_rounds");
  return vh::mix(vh::mix(kind * 100 + total, nw * 10 + nd), minus * 4 + surplus * 2 + addwait);
}

// ----------------------------------------------------------------- rwlock
static uint64_t c_rw(Rng &r) {
  RWLock l;
  int nr = r.range(1, 4), nw = r.range(1, 3), iters = r.range(10, 60);
  std::atomic<int> readers{0}, writers{0}, maxr{0};
  long a = 0, b = 0;
  std::atomic<long> writes{0};
  Group g("rwlock");
  uint64_t base = r.next();
  for (int i = 0; i < nr; ++i)
    g.go([&, i] {
      Rng q(base + i);
      for (int k = 0; k < iters; ++k) {
        auto body = [&] {
          int n = ++readers;
          int mx = maxr.load();
          while (n > mx && !maxr.compare_exchange_weak(mx, n)) ;
          if (writers.load()) vh::viol("rw-reader-with-writer", "reader inside with writer");
          long x = a; nap(q);
          if (b != x) vh::viol("rw-torn", "reader saw %ld/%ld", x, b);
          --readers;
        };
        if (q.chance(1, 2)) { l.RLock(); body(); l.RUnlock(); } else { RLockGuard gd(l); body(); }
        nap(q);
      }
    });
  for (int i = 0; i < nw; ++i)
    g.go([&, i] {
      Rng q(base + 50 + i);
      for (int k = 0; k < iters; ++k) {
        auto body = [&] {
          if (writers.fetch_add(1)) vh::viol("rw-two-writers", "two writers inside");
          if (readers.load()) vh::viol("rw-writer-with-reader", "writer inside with %d readers", readers.load());
          ++a; nap(q); ++b;
          --writers;
          ++writes;
        };
        if (q.chance(1, 2)) { l.WLock(); body(); l.WUnlock(); } else { WLockGuard gd(l); body(); }
        nap(q);
      }
    });
  g.join();
  if (a != writes.load()) vh::viol("rw-lost-update", "%ld of %ld", a, writes.load());
  // readers exclude only writers: n readers inside at once
  int n = r.range(2, 5);
  std::atomic<int> in{0};
  std::atomic<bool> go{false}, winside{false};
  Group g2("rw-shared");
  for (int i = 0; i < n; ++i)
    g2.go([&] { l.RLock(); ++in; while (!go.load()) vh::sleep_us(100);
                if (winside.load()) vh::viol("rw-writer-with-reader", "writer entered under readers"); l.RUnlock(); });
  if (!vh::wait_for([&] { return in.load() == n; })) VFATAL("rw-readers-exclude", "%d of %d readers entered", in.load(), n);
  g2.go([&] { l.WLock(); winside = true; if (!go.load()) vh::viol("rw-writer-with-reader", "writer did not wait");
              l.WUnlock(); });
  vh::sleep_us(r.below(300));
  go = true;
  g2.join();
  vh::count("rw_sections", (nr + nw) * iters);
  return vh::mix(nr * 100 + nw * 10, maxr.load());
}
static uint64_t c_counter(Rng &r) {
  AtomicCounter32 c32(5);
  AtomicCounter64 c;
  int n = r.range(2, 5), it = r.range(20, 300);
  std::vector<std::vector<uint64_t>> got(n);
  Group g("counter");
  for (int i = 0; i < n; ++i)
    g.go([&, i] { for (int k = 0; k < it; ++k) { got[i].push_back(k & 1 ? c++ : ++c - 1); c32.Add(3); c32.Sub(2); } });
  g.join();
  std::vector<uint64_t> all;
  for (auto &v : got) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end());
  for (size_t i = 0; i < all.size(); ++i)
    if (all[i] != i) { vh::viol("counter-dup", "value %zu is %llu", i, (unsigned long long)all[i]); break; }
  if (c.GetValue() != (uint64_t)n * it || c32.GetValue() != 5u + n * it) vh::viol("counter-sum", "wrong total");
  AtomicCounter<int> s(10);
  int m = 10;
  for (int i = 0; i < 30; ++i) {
    int v = r.range(-5, 5), got = 0, want = 0;
    switch (r.below(10)) {
    case 0: got = s.Add(v); want = m += v; break;
    case 1: got = s.GetAndAdd(v); want = m; m += v; break;
    case 2: got = s.Sub(v); want = m -= v; break;
    case 3: got = s.GetAndSub(v); want = m; m -= v; break;
    case 4: got = ++s; want = ++m; break;
    case 5: got = s++; want = m++; break;
    case 6: got = --s; want = --m; break;
    case 7: got = s--; want = m--; break;
    case 8: got = (s = v); want = m = v; break;
    case 9: got = s.Reset(); want = m = 0; break;
    }
    if (got != want || s.GetValue() != m) { vh::viol("counter-op", "got %d want %d, value %d want %d", got, want, s.GetValue(), m); break; }
  }
  return vh::mix(n, it);
}

// ================================================================== K22
static void check_threads(const char *what, int base) {
  if (!vh::wait_for([&] { return vh::live_threads() <= base; }))
    vh::viol("thread-left", "%s: %d threads, %d before", what, vh::live_threads(), base);
}
static uint64_t c_thread(Rng &r) {
  int base = vh::live_threads();
  int ways = r.below(9);
  bool named = r.chance(1, 2);
  std::string name = named ? "t" + std::string(r.below(40), 'x') : "";
  auto runs = std::make_shared<std::atomic<int>>(0);
  auto fin = std::make_shared<std::atomic<int>>(0);
  auto where = std::make_shared<std::atomic<int>>(0);
  long plain = 0;
  uint64_t qs = r.next();
  auto trk = std::make_shared<vh::Tracked>(3);
  auto f = [runs, fin, where, qs, trk] { Rng q(qs); *where = mytid(); ++*runs; nap(q); vh::sleep_us(q.below(200)); trk->check(); ++*fin; };
  auto chk = [&](const char *w) {
    if (runs->load() != 1) vh::viol("thread-runs", "%s: function ran %d times", w, runs->load());
    if (where->load() == mytid()) vh::viol("thread-same", "%s: ran on the caller", w);
  };
  switch (ways) {
  case 0: { Thread t([&plain, f] { f(); plain = 42; }, name); t.StartRun();
    if (!t.GetPthreadId()) vh::viol("thread-id", "no thread after StartRun");
    t.Join(); if (plain != 42 || !fin->load()) vh::viol("join-early", "Join returned before the function did"); chk("join");
    if (named && t.tidName() != name) vh::viol("thread-name", "name %s", t.tidName().c_str());
    if (!named && t.tidName().empty()) vh::viol("thread-name", "no default name");
    break; }
  case 1: { Thread t(name); t.StartRun([&plain, f] { f(); plain = 42; }); t.Join();
    if (plain != 42 || !fin->load()) vh::viol("join-early", "Join returned before the function did"); chk("late func"); break; }
  case 2: { { Thread t(f, name); t.StartRun(); }  // destroyed while running
    if (!vh::wait_for([&] { return fin->load() == 1; })) vh::viol("thread-lost", "detached function never finished"); chk("detach"); break; }
  case 3: { Thread t(f, name); Thread u(std::move(t)); u.StartRun(); u.Join();
    if (!fin->load()) vh::viol("join-early", "moved"); chk("move before start"); break; }
  case 4: { Thread t([&plain, f] { f(); plain = 42; }, name); t.StartRun(); Thread u(std::move(t)); u.Join();
    if (plain != 42 || !fin->load()) vh::viol("join-early", "moved after start"); chk("move after start"); break; }
  case 5: { Thread t(f, name); t.StartRun(); std::atomic<int> r2{0}; std::atomic<bool> hold{true};
    Thread u([&] { ++r2; while (hold.load()) vh::sleep_us(50); ++r2; }); u.StartRun();
    u = std::move(t); u.Join();
    if (!fin->load()) vh::viol("join-early", "assigned"); chk("move assign");
    hold = false;
    if (!vh::wait_for([&] { return r2.load() == 2; })) vh::viol("thread-lost", "replaced thread never finished");
    break; }
  case 6: { Thread t(f, name); }  // never started
    if (runs->load()) vh::viol("thread-runs", "never started but ran"); break;
  case 7: { Thread t(f, name); t.StartRun(); Thread *pt = &t; t = std::move(*pt); t.Join(); chk("self move");
    if (!fin->load()) vh::viol("join-early", "self move"); break; }
  case 8: { Thread t(f, name); t.StartRun(); t.Join(); Thread u(std::move(t)); chk("move after join");
    Thread v; v = std::move(u); break; }
  }
  check_threads("Thread", base);
  vh::count("threads");
  return vh::mix(ways, named ? name.size() + 1 : 0);
}
static uint64_t c_pool(Rng &r) {
  int base = vh::live_threads();
  int nt = r.range(1, 5), m = r.range(0, 120), np = r.range(1, 3), cap = r.chance(1, 3) ? r.range(1, 3) : r.range(5, 200);
  int pre = r.chance(1, 2) ? r.below(cap + 1) : 0;
  if (pre > m) pre = m;
  bool nested = r.chance(1, 4), wait = r.chance(1, 2), resize = r.chance(1, 4), two = r.chance(1, 4), nulls = r.chance(1, 5);
  struct Slot { std::atomic<int> n{0}; std::atomic<int> tid{0}; };
  std::vector<Slot> slot(2 * m + 2);
  std::atomic<int> done{0};
  std::vector<int> order;
  std::atomic<int> nestedpushed{0};
  std::atomic<int> pushers_tid[4];
  for (auto &x : pushers_tid) x = 0;
  uint64_t base_s = r.next();
  auto live = std::make_shared<vh::Tracked>(1);
  {
    auto pool = std::make_shared<ThreadPool>(nested ? 100000 : cap, "p");
    ThreadPool *pp = pool.get();
    auto task = [&, pp, live](int id) {
      return [&, pp, live, id] {
        Rng q(base_s + 1000 + id);
        live->check();
        ++slot[id].n;
        slot[id].tid = mytid();
        if (nt == 1 && !two) order.push_back(id);
        nap(q);
        if (nested && id < m && q.chance(1, 2)) {
          ++nestedpushed;
          int k = m + id;
          pp->Push([&, live, k] { ++slot[k].n; slot[k].tid = mytid(); live->check(); ++done; });
        }
        ++done;
      };
    };
    for (int i = 0; i < pre; ++i) pool->Push(task(i));
    pool->StartRun(two ? 1 : nt);
    if (two) pool->StartRun(nt);
    Group g("pool-push");
    std::atomic<int> next{pre};
    for (int p = 0; p < np; ++p)
      g.go([&, p] {
        Rng q(base_s + p);
        pushers_tid[p] = mytid();
        int id;
        while ((id = next.fetch_add(1)) < m) {
          if (nulls && q.chance(1, 6)) pool->Push(ThreadPool::Task());
          pool->Push(task(id));
          nap(q);
          if (resize && q.chance(1, 10) && !nested) pool->SetMaxQueueSize(q.range(-1, 50));
        }
      });
    g.join();
    if (wait && !vh::wait_for([&] { return done.load() >= m + nestedpushed.load(); }))
      VFATAL("hang:pool", "%d of %d tasks ran", done.load(), m);
    std::atomic<bool> dead{false};
    std::thread killer([&] { pool.reset(); dead = true; });
    if (!vh::wait_for([&] { return dead.load(); }))
      VFATAL("hang:pool-destroy", "ThreadPool destructor does not return (%d threads, %d of %d tasks)", nt, done.load(), m);
    killer.join();
  }
  for (int i = 0; i < m; ++i) {
    if (slot[i].n.load() != 1) { vh::viol("pool-count", "task %d ran %d times", i, slot[i].n.load()); break; }
    for (auto &x : pushers_tid)
      if (x.load() && x.load() == slot[i].tid.load()) { vh::viol("pool-wrong-thread", "task %d ran on its pusher", i); break; }
    if (slot[i].tid.load() == mytid()) { vh::viol("pool-wrong-thread", "task %d ran on the owner", i); break; }
  }
  long nd = 0;
  for (int i = m; i < 2 * m; ++i) { nd += slot[i].n.load(); if (slot[i].n.load() > 1) vh::viol("pool-count", "nested task ran twice"); }
  if (nd != nestedpushed.load()) vh::viol("pool-nested", "%ld of %d nested tasks ran", nd, nestedpushed.load());
  if (nt == 1 && !two && np == 1)
    for (size_t i = 0; i < order.size(); ++i)
      if (order[i] != (int)i) { vh::viol("pool-order", "single worker ran %d at position %zu", order[i], i); break; }
  if (live.use_count() != 1) vh::viol("pool-task-retained", "%ld references to captured state remain", live.use_count());
  check_threads("ThreadPool", base);
  vh::count("pool_tasks", m + nd);
  return vh::mix(vh::mix(nt * 8 + np, cap), nested + wait * 2 + resize * 4 + two * 8 + nulls * 16 + (pre ? 32 : 0) + (m > nt ? 64 : 0));
}
// n workers run n tasks at the same time: each task waits until all are running
static uint64_t c_poolmeet(Rng &r) {
  int base = vh::live_threads();
  int nt = r.range(2, 6), rounds = r.range(1, 6), np = r.range(1, 3);
  bool fromtask = r.chance(1, 4);
  {
    ThreadPool pool(r.chance(1, 2) ? nt : 100, "m");
    if (r.chance(1, 2)) pool.StartRun(nt);
    else for (int i = 0; i < nt; ++i) pool.StartRun(1);
    for (int k = 0; k < rounds; ++k) {
      if (r.chance(2, 3)) vh::sleep_us(r.below(800));  // all idle, or some still on the way to be
      auto in = std::make_shared<std::atomic<int>>(0);
      auto out = std::make_shared<std::atomic<int>>(0);
      auto body = [in, out, nt] { ++*in; while (*in < nt) vh::sleep_us(20); ++*out; };
      if (fromtask) {
        pool.Push([&pool, body, nt] { for (int i = 1; i < nt; ++i) pool.Push(body); body(); });
      } else {
        Group g("meet-push");
        std::atomic<int> next{0};
        for (int p = 0; p < np; ++p) g.go([&] { while (next.fetch_add(1) < nt) pool.Push(body); });
        g.join();
      }
      if (!vh::wait_for([&] { return *out == nt; }))
        VFATAL("hang:pool-idle-worker", "%d tasks for %d free threads: only %d are running", nt, nt, in->load());
      vh::count("meetings");
    }
  }
  check_threads("ThreadPool", base);
  return vh::mix(vh::mix(1234, nt), rounds * 8 + np * 2 + fromtask);
}
static uint64_t c_poolbare(Rng &r) {  // destroyed at once, or never started
  int base = vh::live_threads();
  int nt = r.range(0, 6);
  std::atomic<bool> dead{false};
  auto p = std::make_shared<ThreadPool>((int)r.range(1, 5));
  if (nt) p->StartRun(nt);
  std::thread k([&] { p.reset(); dead = true; });
  if (!vh::wait_for([&] { return dead.load(); })) VFATAL("hang:pool-destroy", "idle pool of %d threads", nt);
  k.join();
  check_threads("idle pool", base);
  return vh::mix(77, nt);
}
struct WObj {
  int hits = 0;
  int add(int a) { hits += a; return hits; }
  int get() const { return hits; }
  void vf(int a) { hits += a; }
};
static uint64_t c_weak(Rng &r) {
  auto o = std::make_shared<WObj>();
  auto a = makeWeakCallback(o, &WObj::add);
  auto g = makeWeakCallback(o, &WObj::get);
  auto v = makeWeakCallback(o, &WObj::vf);
  std::weak_ptr<WObj> w = o;
  int m = 0, n = r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    int x = r.range(-9, 9);
    if (r.chance(1, 2)) { m += x; if (a(x) != m) vh::viol("weak-result", "wrong result"); }
    else { m += x; v(x); }
    if (g() != m) vh::viol("weak-result", "wrong state");
  }
  if (o.use_count() != 1) vh::viol("weak-owns", "callback keeps the object alive");
  o.reset();
  if (!w.expired()) vh::viol("weak-owns", "callback keeps the object alive");
  if (a(1) != 0 || g() != 0) vh::viol("weak-dead", "dead object was called");
  v(3);
  return vh::mix(9, n);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  bool k21 = vh::C().mode != "k22";
  vh::run_cases([&](long, Rng &r) {
    uint64_t k, h = 0;
    if (k21) {
      switch (k = r.below(8)) {
      case 0: h = c_mutex(r); break;
      case 1: h = c_queue(r); break;
      case 2: h = c_timed(r); break;
      case 3: h = c_notifyone(r); break;
      case 4: h = c_latch_seq(r); break;
      case 5: h = c_latch(r); break;
      case 6: h = c_rw(r); break;
      default: h = c_counter(r); break;
      }
    } else {
      switch (k = r.below(8)) {
      case 0: case 1: case 2: h = c_thread(r); break;
      case 3: h = r.chance(1, 3) ? c_poolbare(r) : c_poolmeet(r); break;
      case 4: h = c_weak(r); break;
      default: h = c_pool(r); break;
      }
    }
    vh::seen(vh::mix(h, k));
    char b[80];
    snprintf(b, sizeof b, "scenario %d parameters %016llx", (int)k, (unsigned long long)h);
    vh::sample(b);
  });
  vh::finish();
  return vh::C().viols ? 95 : 0;
}
