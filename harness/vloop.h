// A loop on its own thread with a chosen back end, poll wrappers that count
// iterations and inject delays/EINTR, and hang-aware teardown.
#pragma once
#include "vh.h"
#include <thread>
#include <poll.h>
#include <errno.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <signal.h>
#include "kanon/net/event_loop.h"
#include "kanon/log/logger.h"
#include "kanon/util/time_stamp.h"

namespace vh {

inline int mytid() { return (int)syscall(SYS_gettid); }
inline std::atomic<long> &g_polls() { static std::atomic<long> p{0}; return p; }
inline long &t_polls() { static thread_local long p = 0; return p; }
inline std::atomic<int> &g_eintr() { static std::atomic<int> p{0}; return p; }   // 1/n polls are interrupted; 0 = never
inline std::atomic<int> &g_delay() { static std::atomic<int> p{0}; return p; }   // 1/n polls are delayed
inline Rng &t_rng() { static thread_local Rng r((uint64_t)mytid() * 77 + C().seed); return r; }

inline void quiet_log() {
  kanon::EnableAllLog(false);
  kanon::SetKanonLog(false);
}

inline void stall(int delay) {
  if (delay && t_rng().chance(1, delay)) sleep_us(t_rng().below(300));
}

struct LoopHost {
  std::thread th;
  std::atomic<kanon::EventLoop *> loop{nullptr};
  std::atomic<bool> started{false}, returned{false}, dead{false};
  std::atomic<long> polls_at_return{0};
  std::atomic<int> tid{0};
  // init runs on the loop thread before StartLoop
  LoopHost(bool is_poll, bool et, std::function<void(kanon::EventLoop *)> init = {}, bool autostart = true) {
    go = autostart;
    th = std::thread([this, is_poll, et, init] {
      {
        kanon::EventLoop l(is_poll);
        if (et) l.SetEdgeTriggerMode();
        tid = mytid();
        if (init) init(&l);
        loop = &l;
        while (!go.load()) sleep_us(20);
        l.StartLoop();
        polls_at_return = t_polls();
        returned = true;
        while (hold.load()) sleep_us(20);
      }
      dead = true;
    });
    if (!wait_for([&] { return loop.load() != nullptr; })) VFATAL("hang:loop-start", "loop thread did not start");
  }
  std::atomic<bool> go{true}, hold{false};
  kanon::EventLoop *operator->() { return loop.load(); }
  kanon::EventLoop *get() { return loop.load(); }
  void join(const char *what) {
    if (!wait_for([&] { return dead.load(); }))
      VFATAL((std::string("hang:quit:") + what).c_str(), "loop did not stop (%s)", what);
    if (th.joinable()) th.join();
  }
  void quit() {
    loop.load()->Quit();
    join("quit");
  }
  ~LoopHost() {
    if (th.joinable()) quit();
  }
  // runs f on the loop thread and waits for it
  void sync(std::function<void()> f, const char *what = "task") {
    auto done = std::make_shared<std::atomic<bool>>(false);
    loop.load()->QueueToLoop([f, done] { f(); *done = true; });
    if (!wait_for([&] { return done->load(); })) VFATAL("hang:lost-task", "%s never ran on the loop", what);
  }
  void sync() { sync([] {}); }
};

// Threads whose end is awaited with hang detection.
struct Group {
  std::vector<std::thread> t;
  std::atomic<int> done{0};
  const char *what;
  explicit Group(const char *w) : what(w) {}
  template <class F> void go(F f) { t.emplace_back([this, f] { f(); ++done; }); }
  void join() {
    if (!wait_for([&] { return done.load() == (int)t.size(); }, 3000))
      VFATAL((std::string("hang:") + what).c_str(), "%d of %zu threads finished", done.load(), t.size());
    for (auto &x : t) x.join();
    t.clear();
    done = 0;
  }
};

inline void nap(Rng &r) {
  switch (r.below(8)) {
  case 0: sched_yield(); break;
  case 1: sleep_us(r.below(60)); break;
  case 2: { volatile int x = 0; for (uint64_t i = r.below(400); i; --i) x = x + 1; } break;
  default: break;
  }
}
} // namespace vh

#ifdef VLOOP_WRAP_POLL
extern "C" {
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int ms) {
  ++vh::g_polls(); ++vh::t_polls();
  int k = vh::g_eintr();
  if (k && vh::t_rng().chance(1, k)) { errno = EINTR; return -1; }
  vh::stall(vh::g_delay());
  int r = __real_epoll_wait(e, ev, n, ms);
  int sv = errno;
  vh::stall(vh::g_delay());
  errno = sv;
  return r;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
  ++vh::g_polls(); ++vh::t_polls();
  int k = vh::g_eintr();
  if (k && vh::t_rng().chance(1, k)) { errno = EINTR; return -1; }
  vh::stall(vh::g_delay());
  int r = __real_poll(p, n, ms);
  int sv = errno;
  vh::stall(vh::g_delay());
  errno = sv;
  return r;
}
}
#endif
