// Shared by every harness: seeded randomness, reporting, case accounting,
// and a tick-based (not wall-clock) hang detector.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <vector>
#include <unordered_set>
#include <map>
#include <atomic>
#include <functional>
#include <algorithm>
#include <utility>
#include <memory>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) {
    uint64_t z = seed + 0x1234567;  // scramble: neighbouring seeds must not give shifted streams
    z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull;
    z = (z ^ (z >> 33)) * 0xc4ceb9fe1a85ec53ull;
    s = z ^ (z >> 33);
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> T &pick(std::vector<T> &v) { return v[below(v.size())]; }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto &c : r) c = (char)next();
    return r;
  }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t hash_str(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_str(s.data(), s.size()); }

struct Ctx {
  uint64_t seed = 1;
  long cases = 100;
  long only = -1;
  std::string mode;
  std::string hashes, progress;
  std::map<std::string, std::string> opt;
  int progress_fd = -1;
  std::unordered_set<uint64_t> seen;
  std::atomic<long> n_cases{0};
  std::map<std::string, long> counts;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  int samples = 0;
  std::atomic<int> viols{0};
  std::atomic<int64_t> ticks{0};
  std::atomic<long> cur_case{0};
};
inline Ctx &C() { static Ctx *c = new Ctx; return *c; }

inline long opt_int(const char *k, long def) {
  auto it = C().opt.find(k);
  return it == C().opt.end() ? def : atol(it->second.c_str());
}

inline void *heartbeat(void *) {
  for (;;) {
    struct timespec ts = {0, 10 * 1000 * 1000};
    nanosleep(&ts, nullptr);
    C().ticks.fetch_add(1);
  }
  return nullptr;
}

inline void init(int argc, char **argv, bool hb = true) {
  Ctx &c = C();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0 && i + 1 < argc) {
      std::string k = a.substr(2), v = argv[++i];
      if (k == "seed") c.seed = strtoull(v.c_str(), 0, 10);
      else if (k == "cases") c.cases = atol(v.c_str());
      else if (k == "only") c.only = atol(v.c_str());
      else if (k == "mode") c.mode = v;
      else if (k == "hashes") c.hashes = v;
      else if (k == "progress") c.progress = v;
      else c.opt[k] = v;
    }
  }
  if (!c.progress.empty()) c.progress_fd = open(c.progress.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  signal(SIGPIPE, SIG_IGN);
  if (hb) {
    pthread_t t;
    pthread_create(&t, nullptr, heartbeat, nullptr);
    pthread_detach(t);
  }
}

inline void finish();

// Report a refutation. key: stable class of the failure; detail: witness.
inline void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const char *key, const char *fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *p = buf; *p; ++p)
    if ((unsigned char)*p < 32 || (unsigned char)*p > 126) *p = '.';
  pthread_mutex_lock(&C().mu);
  if (C().viols.fetch_add(1) < 20) {
    char line[2400];
    int n = snprintf(line, sizeof line, "VIOL %s | case=%ld seed=%llu %s\n", key, C().cur_case.load(),
                     (unsigned long long)C().seed, buf);
    if (n > (int)sizeof line - 1) n = sizeof line - 1;
    fflush(stdout);
    ssize_t r = ::write(1, line, n);
    (void)r;
  }
  pthread_mutex_unlock(&C().mu);
}
// Report and stop the process at once (state may be unusable).
#define VFATAL(key, ...)         \
  do {                           \
    vh::viol(key, __VA_ARGS__);  \
    fflush(stdout);              \
    _exit(95);                   \
  } while (0)

inline void count(const char *k, long n = 1) {
  pthread_mutex_lock(&C().mu);
  C().counts[k] += n;
  pthread_mutex_unlock(&C().mu);
}
inline void count_max(const char *k, long n) {
  pthread_mutex_lock(&C().mu);
  if (C().counts[k] < n) C().counts[k] = n;
  pthread_mutex_unlock(&C().mu);
}
inline void sample(const std::string &s) {
  pthread_mutex_lock(&C().mu);
  if (C().samples++ < 3) {
    std::string t = s.substr(0, 400);
    for (auto &ch : t)
      if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '.';
    printf("SAMPLE %s\n", t.c_str());
    fflush(stdout);
  }
  pthread_mutex_unlock(&C().mu);
}
inline void seen(uint64_t h) {
  pthread_mutex_lock(&C().mu);
  if (C().seen.size() < 2000000) C().seen.insert(h);
  pthread_mutex_unlock(&C().mu);
}

inline void begin_case(long i) {
  C().cur_case = i;
  C().n_cases++;
  if (C().progress_fd >= 0) {
    int64_t v = i;
    ssize_t r = pwrite(C().progress_fd, &v, 8, 0);
    (void)r;
  }
}

// Called before every case (with a stream of its own).
inline std::vector<void (*)()> &final_hooks() { static std::vector<void (*)()> v; return v; }
inline void (*&case_hook())(Rng &) { static void (*h)(Rng &) = nullptr; return h; }

// Runs body(case index, rng) for each case; stops after a few violations.
template <class F> void run_cases(F body) {
  Ctx &c = C();
  for (long i = 0; i < c.cases; ++i) {
    if (c.only >= 0 && i != c.only) continue;
    begin_case(i);
    Rng r(c.seed * 1000003ull + (uint64_t)i), hr(c.seed * 7919ull + (uint64_t)i * 31 + 5);
    if (case_hook()) case_hook()(hr);
    body(i, r);
    if (c.viols.load() >= 3) break;
  }
}

inline void finish() {
  Ctx &c = C();
  if (!c.hashes.empty()) {
    FILE *f = fopen(c.hashes.c_str(), "wb");
    if (f) {
      for (uint64_t h : c.seen) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  for (auto f : final_hooks()) f();
  printf("COUNT cases %ld\n", c.n_cases.load());
  for (auto &k : c.counts) printf("COUNT %s %ld\n", k.first.c_str(), k.second);
  printf("DONE\n");
  fflush(stdout);
}

inline int64_t now_ns() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
inline void sleep_us(long us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  nanosleep(&ts, nullptr);
}

// Waits until pred() holds; gives up only after `ticks` heartbeats of 10 ms of
// *this process actually being scheduled*, so a stalled machine is no verdict.
template <class P> bool wait_for(P pred, int64_t ticks = 1500) {
  int64_t t0 = C().ticks.load();
  int spins = 0;
  while (!pred()) {
    if (C().ticks.load() - t0 > ticks) return false;
    if (++spins < 50) sched_yield();
    else sleep_us(spins < 500 ? 100 : 1000);
  }
  return true;
}

inline int count_dir(const char *path) {
  int n = 0;
  DIR *d = opendir(path);
  if (!d) return -1;
  while (struct dirent *e = readdir(d))
    if (e->d_name[0] != '.') ++n;
  closedir(d);
  return n;
}
inline int open_fds() { return count_dir("/proc/self/fd"); }
inline int live_threads() { return count_dir("/proc/self/task"); }

inline std::string hex(const std::string &s, size_t lim = 40) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < s.size() && i < lim; ++i) {
    snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
    r += b;
  }
  if (s.size() > lim) r += "..(" + std::to_string(s.size()) + ")";
  return r;
}

// Counts constructions/destructions; catches double destroy, use of dead or
// uninitialised objects.
struct Tracked {
  static std::atomic<long> &live() { static std::atomic<long> l{0}; return l; }
  static std::atomic<long> &errors() { static std::atomic<long> l{0}; return l; }
  static const uint32_t ALIVE = 0xA11FE001, DEAD = 0xDEADDEAD, MOVED = 0xA11FE002;
  uint32_t magic;
  int v;
  int *heap;  // a real allocation so that leaks/double frees are seen by ASan too
  Tracked(int x = 0) : magic(ALIVE), v(x), heap(new int(x)) { ++live(); }
  Tracked(const Tracked &o) : magic(ALIVE), v(o.v), heap(new int(o.v)) { o.check(); ++live(); }
  Tracked(Tracked &&o) noexcept : magic(ALIVE), v(o.v), heap(o.heap) {
    o.check();
    o.heap = new int(-777);
    o.v = -777;
    ++live();
  }
  Tracked &operator=(const Tracked &o) {
    check(); o.check();
    v = o.v;
    *heap = *o.heap;
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    check(); o.check();
    if (this != &o) { std::swap(v, o.v); std::swap(heap, o.heap); }
    return *this;
  }
  ~Tracked() {
    if (magic != ALIVE) ++errors();
    else { delete heap; --live(); }
    magic = DEAD;
  }
  void check() const { if (magic != ALIVE) ++errors(); }
  bool operator==(const Tracked &o) const { return v == o.v; }
  bool operator!=(const Tracked &o) const { return v != o.v; }
  bool operator<(const Tracked &o) const { return v < o.v; }
  bool operator>(const Tracked &o) const { return v > o.v; }
};

} // namespace vh
