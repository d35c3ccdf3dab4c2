// K31: who am I (thread and process queries), thread-local values, and what
// becomes of an exception that leaves a task.
//   --mode k31            --mode child --what ... (one process that throws)
#include "vh.h"
#include "vsched.h"
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/eventfd.h>
#include "kanon/log/logger.h"
#include "kanon/net/channel.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/process/process_info.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_local.h"
#include "kanon/thread/thread_pool.h"
using namespace kanon;
using vh::Rng;
using vh::viol;
using vh::wait_for;

static int mytid() { return (int)syscall(SYS_gettid); }
static std::string sv(StringView v) { return std::string(v.data(), v.size()); }

// ------------------------------------------------------------------ identity
// name: what tidName() must be; nullptr: a thread the library did not make.
static void check_me(Rng &r, const char *kind, const char *name, bool is_main, bool first) {
  int me = mytid();
  if (first && !name && CurrentThread::GetTid() != 0) viol("tid-cached", "%s: GetTid() is %d before anything asked on a new thread", kind, CurrentThread::GetTid());
  std::string want = std::to_string(me);
  int n = (int)r.range(2, 7);
  bool asked = name != nullptr;
  for (int i = 0; i < n; ++i) {
    switch (first && i == 0 && !asked ? 0 : r.below(8)) {
    case 0: case 1:
      if (CurrentThread::tid() != me) viol("tid", "%s: tid() is %d on thread %d", kind, CurrentThread::tid(), me);
      asked = true;
      break;
    case 2:
      if (asked && CurrentThread::GetTid() != me) viol("tid", "%s: GetTid() is %d on thread %d", kind, CurrentThread::GetTid(), me);
      break;
    case 3:
      if (!asked) break;
      { std::string s(CurrentThread::tidString());
        if (s != want || CurrentThread::tidLength() != (int)want.size())
          viol("tid-text", "%s: tidString() is '%s' (%d long) on thread %d", kind, s.c_str(), CurrentThread::tidLength(), me); }
      break;
    case 4:
      if (name) {
        const char *t = CurrentThread::tidName();
        if (!t || strcmp(t, name) != 0) viol("name", "%s: tidName() is '%s', the thread's name is '%s'", kind, t ? t : "(null)", name);
        if (is_main) break;
        char os[32] = "";
        prctl(PR_GET_NAME, os);
        if (std::string(name).substr(0, 15) != os) viol("os-name", "%s: the kernel calls the thread '%s', its name is '%s'", kind, os, name);
      }
      break;
    case 5:
      if (asked && CurrentThread::isMainThread() != is_main) viol("is-main", "%s: isMainThread() is %d", kind, (int)CurrentThread::isMainThread());
      break;
    case 6: {
      StringView p = process::PidString();
      sched_yield();
      if (sv(p) != std::to_string(getpid()) || process::Pid() != getpid()) viol("pid", "%s: PidString() is '%s' in process %d", kind, sv(p).c_str(), getpid());
      break;
    }
    default: {
      char h[256] = "";
      gethostname(h, sizeof h);
      StringView p = process::Hostname();
      sched_yield();
      if (sv(p) != h) viol("hostname", "%s: Hostname() is '%s', the host is '%s'", kind, sv(p).c_str(), h);
      break;
    }
    }
  }
  vh::count("identities", n);
}

static std::string rand_name(Rng &r) {
  static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789_-[]#. %";
  std::string s;
  int n = (int)(r.chance(1, 3) ? r.range(13, 18) : r.chance(1, 4) ? r.range(19, 200) : r.range(1, 12));
  for (int i = 0; i < n; ++i) s += al[r.below(54)];
  return s;
}

static uint64_t c_identity(Rng &r) {
  uint64_t h = 0;
  int n = (int)r.range(1, 5);
  std::atomic<int> done{0};
  int expect = 0;
  std::vector<std::unique_ptr<Thread>> ths;
  std::vector<std::thread> foreign;
  std::unique_ptr<ThreadPool> pool;
  std::vector<std::unique_ptr<EventLoopThread>> loops;
  std::atomic<int> gate{0};
  uint64_t base = r.next();
  for (int i = 0; i < n; ++i) {
    int kind = (int)r.below(5);
    h = vh::mix(h, kind);
    uint64_t s = base + i;
    switch (kind) {
    case 0: case 1: {
      std::string name = r.chance(1, 5) ? "" : rand_name(r);
      std::unique_ptr<Thread> t(new Thread(name));
      std::string real = t->tidName();
      if (!name.empty() && real != name) viol("name", "a thread made as '%s' calls itself '%s'", name.c_str(), real.c_str());
      if (name.empty() && real.empty()) viol("name", "a thread made without a name has none");
      if (r.chance(1, 3)) {  // moved before it starts
        std::unique_ptr<Thread> t2(r.chance(1, 2) ? new Thread(std::move(*t)) : new Thread("other"));
        if (t2->tidName() == "other") *t2 = std::move(*t);
        t = std::move(t2);
        if (t->tidName() != real) viol("name", "a moved thread '%s' calls itself '%s'", real.c_str(), t->tidName().c_str());
      }
      ++expect;
      t->StartRun([s, real, &done, &gate] {
        Rng q(s);
        check_me(q, "thread", real.c_str(), false, true);
        while (!gate.load()) { sched_yield(); if (q.chance(1, 3)) break; }
        check_me(q, "thread", real.c_str(), false, false);
        ++done;
      });
      int what = (int)r.below(4);
      if (what == 0) t.reset();  // goes on by itself, keeps its name
      else if (what == 1) { Thread u(std::move(*t)); *t = std::move(u); }
      if (t) ths.push_back(std::move(t));
      break;
    }
    case 2:
      ++expect;
      foreign.emplace_back([s, &done, &gate] {
        Rng q(s);
        check_me(q, "foreign thread", nullptr, false, true);
        while (!gate.load()) { sched_yield(); if (q.chance(1, 3)) break; }
        CurrentThread::tid();
        check_me(q, "foreign thread", nullptr, false, false);
        ++done;
      });
      break;
    case 3: {
      if (pool) break;
      std::string name = rand_name(r);
      pool.reset(new ThreadPool(1000, name));
      pool->StartRun((int)r.range(1, 3));
      int m = (int)r.range(1, 10);
      for (int k = 0; k < m; ++k) {
        ++expect;
        pool->Push([s, k, name, &done] {
          Rng q(s * 31 + k);
          const char *t = CurrentThread::tidName();
          std::string t2 = t ? t : "";
          if (t2.compare(0, name.size(), name) != 0) viol("name", "a thread of pool '%s' is called '%s'", name.c_str(), t2.c_str());
          check_me(q, "pool thread", t2.c_str(), false, false);
          ++done;
        });
      }
      break;
    }
    default: {
      std::string name = rand_name(r);
      std::unique_ptr<EventLoopThread> lt(new EventLoopThread(name));
      EventLoopThread::ThreadInitCallback ic = [name, s](EventLoop *lp) {
        Rng q(s * 7);
        if (!lp->IsLoopInThread()) viol("in-loop", "IsLoopInThread() is false in the initialization on the loop's thread");
        check_me(q, "loop thread", name.c_str(), false, true);
      };
      EventLoop *lp = lt->StartRun(ic);
      if (lp->IsLoopInThread()) viol("in-loop", "IsLoopInThread() is true on another thread");
      ++expect;
      lp->QueueToLoop([s, name, lp, &done] {
        Rng q(s * 3);
        if (!lp->IsLoopInThread()) viol("in-loop", "IsLoopInThread() is false in a task of the loop");
        check_me(q, "loop thread", name.c_str(), false, false);
        ++done;
      });
      loops.push_back(std::move(lt));
      break;
    }
    }
    if (r.chance(1, 2)) check_me(r, "main thread", "main", true, false);
  }
  check_me(r, "main thread", "main", true, false);
  if (r.chance(1, 2)) sched_yield();
  gate = 1;
  if (!wait_for([&] { return done.load() == expect; })) VFATAL("identity-hang", "%d of %d threads reported", done.load(), expect);
  for (auto &t : ths) if (r.chance(2, 3)) t->Join();
  for (auto &t : foreign) t.join();
  pool.reset();
  loops.clear();
  check_me(r, "main thread", "main", true, false);
  vh::count("identity_threads", expect);
  return vh::mix(h, expect);
}

// A pool of loops: every loop on a thread of its own, known as such.
static uint64_t c_looppool(Rng &r) {
  int n = (int)r.range(0, 4);
  std::string name = rand_name(r);
  std::set<int> tids;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  std::atomic<int> inits{0}, done{0};
  EventLoop base(r.chance(1, 3));
  {
    EventLoopPool pool(&base, name);
    pool.SetLoopNum(n);
    pool.StartRun([&](EventLoop *lp) {
      Rng q(7);
      if (!lp->IsLoopInThread()) viol("in-loop", "a pool's loop is initialized elsewhere");
      pthread_mutex_lock(&mu);
      if (!tids.insert(CurrentThread::tid()).second) viol("loop-threads", "two loops of a pool have thread %d", CurrentThread::tid());
      pthread_mutex_unlock(&mu);
      std::string t = CurrentThread::tidName() ? CurrentThread::tidName() : "";
      if (n && t.compare(0, name.size(), name) != 0) viol("name", "a thread of loop pool '%s' is called '%s'", name.c_str(), t.c_str());
      ++inits;
    });
    if (inits.load() < n) viol("loop-inits", "%d loops initialized in a pool of %d", inits.load(), n);
    int m = n ? n * 2 : 0;
    for (int i = 0; i < m; ++i) {
      EventLoop *lp = pool.GetNextLoop();
      if (lp->IsLoopInThread()) viol("in-loop", "a pool's loop is in the caller's thread");
      lp->QueueToLoop([lp, &done] {
        if (!lp->IsLoopInThread()) viol("in-loop", "IsLoopInThread() is false in a task of a pool's loop");
        ++done;
      });
    }
    if (!wait_for([&] { return done.load() == m; })) VFATAL("looppool-hang", "%d of %d tasks", done.load(), m);
  }
  if (!base.IsLoopInThread()) viol("in-loop", "the base loop is not in its thread");
  vh::count("loop_pools");
  return vh::mix(n, done.load());
}

// ------------------------------------------------------------------ thread-local values
struct Probe {
  static std::atomic<long> live, made, wrong;
  int owner, a;
  std::string b;
  Probe() : Probe(-1, "default") {}
  Probe(int x, std::string y) : owner(mytid()), a(x), b(std::move(y)) { ++live; ++made; }
  Probe(Probe const &) = delete;
  ~Probe() {
    if (owner != mytid()) ++wrong;
    a = -99;
    --live;
  }
};
std::atomic<long> Probe::live{0}, Probe::made{0}, Probe::wrong{0};

struct Keys {
  std::vector<std::unique_ptr<ThreadLocal<Probe>>> p;
  std::vector<std::unique_ptr<ThreadLocal<std::string>>> s;
  std::vector<std::unique_ptr<ThreadLocal<int>>> i;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  std::set<const void *> addrs;
};

static void use_keys(Rng &q, Keys &k, int id, const char *kind) {
  struct Mine { const void *at = nullptr; int a = 0; std::string b; };
  std::vector<Mine> mp(k.p.size()), ms(k.s.size()), mi(k.i.size());
  auto note = [&](Mine &m, const void *at) {
    if (!m.at) {
      m.at = at;
      pthread_mutex_lock(&k.mu);
      if (!k.addrs.insert(at).second) viol("tl-shared", "%s %d was given the value of another thread or key", kind, id);
      pthread_mutex_unlock(&k.mu);
    } else if (m.at != at)
      viol("tl-moved", "%s %d was given another value than before", kind, id);
  };
  int n = (int)q.range(3, 40);
  for (int o = 0; o < n; ++o) {
    size_t x = q.below(3);
    if (x == 0 && !mp.empty()) {
      size_t j = q.below(mp.size());
      Mine &m = mp[j];
      bool first = !m.at;
      int a = id * 1000 + o;
      std::string b = "t" + std::to_string(a);
      bool dflt = q.chance(1, 4);
      Probe &v = dflt ? k.p[j]->value() : k.p[j]->value(a, b);
      note(m, &v);
      if (first) { m.a = dflt ? -1 : a; m.b = dflt ? "default" : b; }
      if (v.a != m.a || v.b != m.b || v.owner != mytid())
        viol("tl-value", "%s %d key %zu: %d '%s' of thread %d, expected %d '%s'", kind, id, j, v.a, v.b.c_str(), v.owner, m.a, m.b.c_str());
      if (q.chance(1, 3)) { v.a = m.a = a + 7; v.b = m.b = b + "w"; }
      if (q.chance(1, 4)) {
        ThreadLocal<Probe> const &c = *k.p[j];
        if (&c.value() != &v) viol("tl-const", "%s %d: the constant view is another value", kind, id);
      }
    } else if (x == 1 && !ms.empty()) {
      size_t j = q.below(ms.size());
      Mine &m = ms[j];
      bool first = !m.at;
      size_t len = q.below(60);
      std::string &v = k.s[j]->value(len, (char)('a' + id));
      note(m, &v);
      if (first) m.b = std::string(len, (char)('a' + id));
      if (v != m.b) viol("tl-value", "%s %d text key %zu: '%s', expected '%s'", kind, id, j, v.c_str(), m.b.c_str());
      if (q.chance(1, 2)) { v += "x"; m.b += "x"; }
    } else if (!mi.empty()) {
      size_t j = q.below(mi.size());
      Mine &m = mi[j];
      bool first = !m.at;
      int &v = first && q.chance(1, 2) ? k.i[j]->value() : k.i[j]->value(first ? m.a = id : id + 1);
      note(m, &v);
      if (v != m.a) viol("tl-value", "%s %d number key %zu: %d, expected %d", kind, id, j, v, m.a);
      ++v; ++m.a;
    }
    if (q.chance(1, 6)) sched_yield();
  }
  vh::count("local_uses", n);
}

static uint64_t c_local(Rng &r) {
  long made0 = Probe::made.load();
  Keys k;
  for (int i = (int)r.below(5); i >= 0; --i) k.p.emplace_back(new ThreadLocal<Probe>);
  for (int i = (int)r.below(3); i > 0; --i) k.s.emplace_back(new ThreadLocal<std::string>);
  for (int i = (int)r.below(3); i > 0; --i) k.i.emplace_back(new ThreadLocal<int>);
  uint64_t h = vh::mix(k.p.size() * 16 + k.s.size() * 4 + k.i.size(), 1);
  int waves = (int)r.range(1, 3), id = 0;
  for (int w = 0; w < waves; ++w) {
    int n = (int)r.range(1, 5);
    std::vector<std::unique_ptr<Thread>> own;
    std::vector<std::thread> foreign;
    // all of a wave live until everyone has used the keys, so that the
    // addresses of their values are all in use at once
    std::atomic<int> used{0};
    std::atomic<int> go{0};
    for (int i = 0; i < n; ++i) {
      uint64_t s = r.next();
      int me = ++id % 26;
      auto body = [s, me, &k, &used, &go] {
        Rng q(s);
        use_keys(q, k, me, "thread");
        ++used;
        while (!go.load()) vh::sleep_us(50);
      };
      if (r.chance(1, 2)) { own.emplace_back(new Thread(body, "tl")); own.back()->StartRun(); }
      else foreign.emplace_back(body);
    }
    if (!wait_for([&] { return used.load() == n; })) VFATAL("tl-hang", "%d of %d threads", used.load(), n);
    go = 1;
    for (auto &t : own) t->Join();
    for (auto &t : foreign) t.join();
    k.addrs.clear();
    if (Probe::live.load() != 0) viol("tl-leak", "%ld values outlive their threads", Probe::live.load()), Probe::live = 0;
    h = vh::mix(h, n);
  }
  if (Probe::wrong.load()) viol("tl-wrong-thread", "%ld values were destroyed on another thread", Probe::wrong.load()), Probe::wrong = 0;
  vh::count("local_values", Probe::made.load() - made0);
  return vh::mix(h, Probe::made.load() - made0);
}

// ------------------------------------------------------------------ exceptions
struct ChildResult { int status = -1; bool hung = false; std::string out; };
static ChildResult spawn(std::vector<std::string> args) {
  ChildResult cr;
  int p[2];
  if (pipe(p) != 0) return cr;
  args.insert(args.begin(), "/proc/self/exe");
  std::vector<char *> av;
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1);
    dup2(p[1], 2);
    close(p[0]);
    close(p[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    execv("/proc/self/exe", av.data());
    _exit(97);
  }
  close(p[1]);
  std::thread rd([&] {
    char b[65536];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) cr.out.append(b, n);
  });
  int st = 0;
  if (!wait_for([&] { return waitpid(pid, &st, WNOHANG) == pid; }, 4000)) {
    cr.hung = true;
    kill(pid, SIGKILL);
    waitpid(pid, &st, 0);
  }
  rd.join();
  close(p[0]);
  cr.status = st;
  return cr;
}

struct MyError : std::out_of_range { using std::out_of_range::out_of_range; };
static const char *kWhat[] = {"thread", "moved-thread", "pool", "loop-queue", "loop-run", "loop-timer", "loop-channel", "loop-init",
                              "own-queue", "own-run", "own-run-direct", "own-timer", "own-channel"};
static const int kWhats = 13;

[[noreturn]] static void boom(int type, const std::string &text) {
  switch (type) {
  case 0: throw std::runtime_error(text);
  case 1: throw MyError(text);
  case 2: throw text;
  default: throw 4711;
  }
}
static void say(const std::string &s) { ssize_t w = ::write(1, s.data(), s.size()); (void)w; }

static int child_main() {
  std::string what = vh::C().opt["what"], text = vh::C().opt["text"];
  int type = (int)vh::opt_int("type", 0), before = (int)vh::opt_int("before", 0);
  auto bad = [type, text] { say("[THROWING]"); boom(type, text); };
  auto ok = [] { say("[OK]"); };
  auto forever = [] { vh::wait_for([] { return false; }, 3000); say("[SURVIVED]"); _exit(3); };
  if (what == "thread") { Thread t(bad, "thrower"); t.StartRun(); forever(); }
  if (what == "moved-thread") { Thread t(bad, "thrower"); Thread u(std::move(t)); u.StartRun(); t = std::move(u); forever(); }
  if (what == "pool") {
    ThreadPool p(10, "thrower");
    p.StartRun(2);
    for (int i = 0; i < before; ++i) p.Push(ok);
    p.Push(bad);
    forever();
  }
  int efd = eventfd(1, EFD_NONBLOCK | EFD_CLOEXEC);
  if (what.compare(0, 5, "loop-") == 0) {
    EventLoopThread lt("thrower");
    EventLoop *lp = what == "loop-init" ? lt.StartRun([&](EventLoop *) { bad(); }) : lt.StartRun();
    for (int i = 0; i < before; ++i) lp->QueueToLoop(ok);
    if (what == "loop-queue") lp->QueueToLoop(bad);
    if (what == "loop-run") lp->RunInLoop(bad);
    if (what == "loop-timer") lp->RunAfter(bad, 0.001);
    if (what == "loop-channel")
      lp->RunInLoop([=] {
        Channel *c = new Channel(lp, efd);
        c->SetReadCallback([=](TimeStamp) { bad(); });
        c->EnableReading();
      });
    forever();
  }
  EventLoop lp(vh::opt_int("poll", 0) != 0);
  for (int i = 0; i < before; ++i) lp.QueueToLoop(ok);
  if (what == "own-queue") lp.QueueToLoop(bad);
  if (what == "own-run") lp.QueueToLoop([&] { lp.RunInLoop(bad); });
  if (what == "own-timer") lp.RunAfter(bad, 0.001);
  std::unique_ptr<Channel> c;
  if (what == "own-channel") {
    c.reset(new Channel(&lp, efd));
    c->SetReadCallback([=](TimeStamp) { bad(); });
    c->EnableReading();
  }
  try {
    if (what == "own-run-direct") lp.RunInLoop(bad);
    else lp.StartLoop();
    say("[RETURNED]");
  }
  catch (MyError const &e) { say("[CAUGHT 1 " + std::string(e.what()) + "]"); }
  catch (std::runtime_error const &e) { say("[CAUGHT 0 " + std::string(e.what()) + "]"); }
  catch (std::string const &e) { say("[CAUGHT 2 " + e + "]"); }
  catch (int e) { say("[CAUGHT 3 " + std::to_string(e) + "]"); }
  catch (...) { say("[CAUGHT ? ]"); }
  _exit(7);
}

static uint64_t c_throw(Rng &r) {
  std::string what = kWhat[r.below(kWhats)];
  int type = (int)r.below(4), before = (int)r.below(3);
  std::string text = "the reason is #" + std::to_string(r.below(1000000));
  ChildResult c = spawn({"--mode", "child", "--what", what, "--type", std::to_string(type), "--before", std::to_string(before), "--text", text,
                         "--poll", std::to_string(r.below(2))});
  vh::count("throws");
  std::string tail = c.out.size() > 600 ? c.out.substr(c.out.size() - 600) : c.out;
  for (auto &ch : tail) if (ch == '\n') ch = '|';
  if (c.hung) { viol("throw-hang", "%s: the process neither ended nor went on: %s", what.c_str(), tail.c_str()); return 0; }
  if (c.out.find("[THROWING]") == std::string::npos) { viol("throw-not-run", "%s: the task was not run: %s", what.c_str(), tail.c_str()); return 0; }
  if (what.compare(0, 4, "own-") == 0) {
    std::string want = "[CAUGHT " + std::to_string(type) + " " + (type == 3 ? "4711" : text) + "]";
    if (!WIFEXITED(c.status) || WEXITSTATUS(c.status) != 7 || c.out.find(want) == std::string::npos)
      viol("throw-own-loop", "%s: status %x instead of the exception at the caller of the loop: %s", what.c_str(), c.status, tail.c_str());
  } else {
    if (!WIFSIGNALED(c.status) || WTERMSIG(c.status) != SIGABRT)
      viol("throw-survived", "%s: an exception left the task, the process ended with status %x: %s", what.c_str(), c.status, tail.c_str());
    bool told = what == "thread" || what == "moved-thread" || what == "pool" || what == "loop-queue" || what == "loop-run";
    if (told && type < 2 && c.out.find(text) == std::string::npos)
      viol("throw-reason", "%s: the reason is not on standard error: %s", what.c_str(), tail.c_str());
  }
  return vh::mix(vh::hash_str(what), type * 8 + before);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (vh::C().mode == "child") return child_main();
  vh::run_cases([&](long, Rng &r) {
    uint64_t h = 0;
    int k = (int)vh::opt_int("kind", (long)r.below(40));
    if (k < 1) h = c_throw(r);
    else if (k < 18) h = c_identity(r);
    else if (k < 21) h = c_looppool(r);
    else h = c_local(r);
    h = vh::mix(h, k < 1 ? 0 : k < 18 ? 1 : k < 21 ? 2 : 3);
    vh::seen(h);
    char b[80];
    snprintf(b, sizeof b, "scenario %d observed %016llx", k, (unsigned long long)h);
    vh::sample(b);
  });
  vh::finish();
  return vh::C().viols ? 95 : 0;
}
