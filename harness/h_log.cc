// K18 AsyncLog, K19 LogFile/AppendFile, K20 Logger.
//  K18/K19: records carry thread, number and length; the files produced are
//  concatenated in name order and parsed back. K20: records captured by the
//  output function are compared with the text the statement should give.
#include "vh.h"
#include "vsched.h"
#include <errno.h>
#include <thread>
#include <set>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include "kanon/log/logger.h"
#include "kanon/log/log_file.h"
#include "kanon/log/async_log.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/current_thread.h"

using namespace vh;
using kanon::StringView;

// ------------------------------------------------------------ virtual time
static std::atomic<int64_t> g_time{-1};        // time()
static thread_local int64_t t_usec = -1;       // gettimeofday(), per thread
static std::atomic<int> g_stall{0};            // fwrite to a log file waits while set
static std::atomic<long> g_stalled{0}, g_fwrites{0};
static std::atomic<int> g_slow{0};             // 1/n writes are delayed
static pthread_mutex_t g_rm_mu = PTHREAD_MUTEX_INITIALIZER;
static std::vector<std::string> g_removed;     // paths passed to remove/unlink

extern "C" {
time_t __real_time(time_t *);
time_t __wrap_time(time_t *p) {
  int64_t v = g_time.load();
  time_t r = v >= 0 ? (time_t)v : __real_time(nullptr);
  if (p) *p = r;
  return r;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  if (t_usec < 0) return __real_gettimeofday(tv, tz);
  tv->tv_sec = t_usec / 1000000;
  tv->tv_usec = t_usec % 1000000;
  return 0;
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  if (f != stdout && f != stderr) {
    g_fwrites.fetch_add(1);
    if (g_stall.load()) {
      g_stalled.fetch_add(1);
      while (g_stall.load()) sleep_us(200);
    }
    int k = g_slow.load();
    if (k) {
      static thread_local Rng r(C().seed + (uint64_t)syscall(SYS_gettid));
      if (r.chance(1, k)) sleep_us(r.below(400));
    }
  }
  return __real_fwrite(p, s, n, f);
}
static void note_removed(const char *p) {
  pthread_mutex_lock(&g_rm_mu);
  g_removed.push_back(p);
  pthread_mutex_unlock(&g_rm_mu);
}
int __real_remove(const char *);
int __wrap_remove(const char *p) { note_removed(p); return __real_remove(p); }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { note_removed(p); return __real_unlink(p); }
}

// glibc guards its time zone data with a lock the race detector cannot see
extern "C" const char *__tsan_default_suppressions() { return "race:tzset_internal\nrace:__tzfile_read\n"; }

static bool is_tsan() {
#if defined(__SANITIZE_THREAD__)
  return true;
#else
  return false;
#endif
}

// ------------------------------------------------------------ directories
static std::vector<std::string> list_dir(const std::string &d) {
  std::vector<std::string> r;
  DIR *dp = opendir(d.c_str());
  if (!dp) return r;
  while (struct dirent *e = readdir(dp))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
  closedir(dp);
  std::sort(r.begin(), r.end());
  return r;
}
static std::string slurp(const std::string &p) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return r;
  struct stat st;
  if (fstat(fileno(f), &st) == 0 && st.st_size > 0) {
    r.resize(st.st_size);
    size_t n = fread(&r[0], 1, r.size(), f);
    r.resize(n);
  }
  fclose(f);
  return r;
}
// removes one directory of this harness's scratch (never follows out of it)
static void wipe(const std::string &d) {
  if (d.empty() || d[0] == '/' || d.find("..") != std::string::npos) return;
  for (auto &e : list_dir(d)) {
    std::string p = d + "/" + e;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(p);
    else __real_unlink(p.c_str());
  }
  rmdir(d.c_str());
}
static long g_dirno = 0;
static std::string fresh_dir() {
  std::string d = "d" + std::to_string(getpid()) + "_" + std::to_string(g_dirno++);
  mkdir(d.c_str(), 0755);
  return d;
}

// ------------------------------------------------------------ records
// the harness's own byte loops need no instrumentation
#define RAW __attribute__((no_sanitize("thread", "address", "undefined"), noinline))
static inline __attribute__((always_inline)) char pay(uint64_t id, size_t i) { return 'a' + (char)((id * 7 + i * 31 + (i >> 5)) % 26); }
RAW static void fill(char *p, uint64_t id, size_t n) {
  for (size_t i = 0; i < n; ++i) p[i] = pay(id, i);
}
RAW static bool filled(const char *p, uint64_t id, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (p[i] != pay(id, i)) return false;
  return true;
}
static std::string make_rec(int thr, long seq, size_t len) {
  char h[64];
  int n = snprintf(h, sizeof h, "<%d,%ld,%zu:", thr, seq, len);
  std::string r(h, n);
  size_t at = r.size();
  r.resize(at + len + 2);
  uint64_t id = (uint64_t)thr * 1000003 + (uint64_t)seq;
  fill(&r[0] + at, id, len);
  r[at + len] = '>';
  r[at + len + 1] = '\n';
  return r;
}
struct Parsed {
  int thr;
  long seq;
  size_t off, size;
};
struct ParseResult {
  std::vector<Parsed> recs;
  long discards = 0;          // sum announced
  std::string error;          // not empty: the text is not a sequence of records
  size_t error_at = 0;
};
static ParseResult parse(const std::string &s, bool allow_discard) {
  ParseResult r;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] == 'D' && allow_discard) {
      long n = 0;
      size_t e = s.find('\n', i);
      if (e != std::string::npos && sscanf(s.c_str() + i, "Discard %ld", &n) == 1) {
        r.discards += n;
        i = e + 1;
        continue;
      }
    }
    int thr;
    long seq;
    size_t len;
    int used = 0;
    if (s[i] != '<' || sscanf(s.substr(i, 64).c_str(), "<%d,%ld,%zu:%n", &thr, &seq, &len, &used) != 3 || !used) {
      r.error = "text is not a record";
      r.error_at = i;
      return r;
    }
    size_t b = i + used;
    if (b + len + 2 > s.size() || s[b + len] != '>' || s[b + len + 1] != '\n') {
      r.error = "record cut short or mixed";
      r.error_at = i;
      return r;
    }
    uint64_t id = (uint64_t)thr * 1000003 + (uint64_t)seq;
    if (!filled(s.data() + b, id, len)) {
      r.error = "record contents changed";
      r.error_at = i;
      return r;
    }
    r.recs.push_back({thr, seq, i, (size_t)used + len + 2});
    i = b + len + 2;
  }
  return r;
}
static std::string around(const std::string &s, size_t at) {
  size_t a = at > 20 ? at - 20 : 0;
  return s.substr(a, 120);
}

// own files: basename.YYYYmmdd-HHMMSS.<pid>.<host>.log
static std::string g_host;
static bool own_name(const std::string &f, const std::string &base, std::string *when = nullptr) {
  std::string tail = "." + std::to_string(getpid()) + "." + g_host + ".log";
  if (f.size() != base.size() + 1 + 15 + tail.size()) return false;
  if (f.compare(0, base.size() + 1, base + ".") != 0) return false;
  if (f.compare(f.size() - tail.size(), tail.size(), tail) != 0) return false;
  std::string w = f.substr(base.size() + 1, 15);
  for (int i = 0; i < 15; ++i)
    if (i == 8 ? w[i] != '-' : !isdigit((unsigned char)w[i])) return false;
  if (when) *when = w;
  return true;
}
static std::string stamp(int64_t t) {
  time_t tt = (time_t)t;
  struct tm tm;
  localtime_r(&tt, &tm);
  char b[40];
  strftime(b, sizeof b, "%Y%m%d-%H%M%S", &tm);
  return b;
}
static const char *kZones[] = {"UTC0", "XXX-5:30", "YYY8", "ZZZ-14", "WWW12"};

// ====================================================================== K19
struct Snap {
  std::vector<std::string> own, other;
  long bytes = 0;
};
static Snap snap(const std::string &dir, const std::string &base) {
  Snap s;
  for (auto &f : list_dir(dir)) {
    if (own_name(f, base)) {
      s.own.push_back(f);
      struct stat st;
      if (stat((dir + "/" + f).c_str(), &st) == 0) s.bytes += st.st_size;
    } else
      s.other.push_back(f);
  }
  return s;
}

static void k19_single(long ci, Rng &r) {
  std::string root = fresh_dir();
  std::string dir = root;
  int how = (int)r.below(5);
  std::string prefix;
  if (how == 0) { dir = root; prefix = root; }
  else if (how == 1) { dir = root; prefix = root + "/"; }
  else if (how == 2) { dir = root + "/sub"; prefix = dir + (r.chance(1, 2) ? "/" : ""); }
  else if (how == 3) { dir = root + "/a/b/c"; prefix = dir + (r.chance(1, 2) ? "/" : ""); }
  else { dir = root + "/x.y/z"; mkdir((root + "/x.y").c_str(), 0755); prefix = dir; }
  std::string base;
  int bl = 1 + (int)r.below(9);
  const char *al = "abcXYZ019_-.";
  for (int i = 0; i < bl; ++i) base += al[r.below(i == 0 ? 9 : 12)];
  setenv("TZ", kZones[r.below(5)], 1);
  tzset();

  size_t roll;
  switch (r.below(6)) {
    case 0: roll = r.below(300); break;
    case 1: roll = 0; break;
    case 2: roll = 1000 + r.below(60000); break;
    case 3: roll = 1u << 30; break;
    case 4: roll = 64 * 1024 + (size_t)r.below(3) - 1; break;
    default: roll = 100000 + r.below(200000);
  }
  size_t interval = r.chance(1, 3) ? 86400 : 1 + r.below(r.chance(1, 2) ? 5 : 5000);
  size_t flushi = r.below(4) == 0 ? 0 : r.below(12);
  bool limited = r.chance(1, 2);
  size_t limit = limited ? 1 + r.below(5) : UINT_MAX;
  size_t keep_max = limited ? limit : (size_t)-1;
  // foreign files that must survive
  std::vector<std::string> foreign;
  bool pre = (how <= 1);
  if (pre) {
    foreign = {base + ".log", base + ".20200101-000000.1." + g_host + ".log", "zzz", base + ".19990101-010101.999999.other.log"};
    for (auto &f : foreign) { FILE *fp = fopen((dir + "/" + f).c_str(), "w"); fputs("foreign", fp); fclose(fp); }
    std::sort(foreign.begin(), foreign.end());
    foreign.erase(std::unique(foreign.begin(), foreign.end()), foreign.end());
  }
  int64_t now = 1600000000 + (int64_t)r.below(200000000);
  if (r.chance(1, 4)) now -= now % 86400, now -= 1 + (int64_t)r.below(3);
  g_time = now;
  { pthread_mutex_lock(&g_rm_mu); g_removed.clear(); pthread_mutex_unlock(&g_rm_mu); }

  uint64_t h = mix(mix(mix(how, roll), interval), mix(limit, flushi));
  std::string expect;              // everything appended
  std::vector<std::pair<int64_t, size_t>> marks; // (time, size of expect after it)
  std::set<std::string> created;   // own files ever seen or reported removed
  auto paths_removed = [&] {
    std::vector<std::string> v;
    pthread_mutex_lock(&g_rm_mu);
    v = g_removed;
    pthread_mutex_unlock(&g_rm_mu);
    return v;
  };
  size_t cur_bytes = 0;            // in the current file
  int64_t cur_created = now, tmax = now;
  long n_created = 1, n_rolls = 0, n_recs = 0;
  std::set<std::string> eligible;
  bool stop = false;
  size_t existing = 1;             // own files that exist, once settled
  std::map<std::string, std::string> gone; // contents unknown of removed files

  auto *lf = new kanon::LogFile<>(base, roll, prefix, limit, interval, flushi);
  auto settle = [&](const char *what) {
    // removal happens on another thread
    bool ok = wait_for([&] { return snap(dir, base).own.size() <= std::max<size_t>(keep_max, 1); }, 1000);
    if (!ok) {
      viol("too-many-files", "%s: %zu log files are kept, the limit is %zu", what, snap(dir, base).own.size(), limit);
      stop = true;
    }
  };
  // returns the number of files newly created, and checks the survivors
  auto observe = [&](const char *what) -> long {
    if (limited) settle(what);
    Snap s = snap(dir, base);
    auto rem = paths_removed();
    for (auto &p : rem) {
      std::string d = dir + "/";
      std::string f = p.compare(0, d.size(), d) == 0 ? p.substr(d.size()) : p;
      if (!own_name(f, base)) { viol("foreign-removed", "%s: removed %s", what, p.c_str()); stop = true; }
      created.insert(f);
    }
    for (auto &f : s.own) created.insert(f);
    if (pre && !std::includes(s.other.begin(), s.other.end(), foreign.begin(), foreign.end())) {
      viol("foreign-removed", "%s: a file that is not its own disappeared", what);
      stop = true;
    }
    if (s.own.empty()) { viol("current-removed", "%s: no log file is left", what); stop = true; return 0; }
    long fresh = (long)created.size() - n_created;
    n_created = (long)created.size();
    // survivors: a contiguous newest suffix
    std::vector<std::string> all(created.begin(), created.end());
    size_t k = s.own.size();
    if (std::vector<std::string>(all.end() - (long)std::min(k, all.size()), all.end()) != s.own) {
      viol("wrong-files-kept", "%s: the %zu files kept are not the newest of the %zu created", what, k, all.size());
      stop = true;
    }
    size_t c = existing + (size_t)std::max(0l, fresh);
    if (limited && c >= limit && !all.empty()) eligible.insert(all.begin(), all.end() - 1);
    for (auto &f : all)
      if (!std::binary_search(s.own.begin(), s.own.end(), f) && !eligible.count(f)) {
        viol("removed-too-early", "%s: a file was removed although only %zu existed, the limit is %zu", what, c, limit);
        stop = true;
        break;
      }
    if (k < c) count("purges");
    existing = k;
    return fresh;
  };
  auto visible = [&] {  // bytes in the files that exist plus nothing for the removed ones
    return snap(dir, base).bytes;
  };
  observe("construction");
  if (created.size() != 1) { viol("roll-count", "construction made %zu files", created.size()); stop = true; }
  else {
    std::string w;
    own_name(*created.begin(), base, &w);
    if (w != stamp(now)) viol("name", "file is named %s at %s", w.c_str(), stamp(now).c_str());
  }
  // With removed files, what is visible is only a suffix; track the start offset of every file.
  std::map<std::string, size_t> start_of;  // file -> offset in expect
  start_of[*created.begin()] = 0;
  std::string cur_file = *created.begin();
  size_t cur_start = 0;
  auto check_visible = [&](const char *what, size_t need) {
    // every byte of expect before `need` that belongs to an existing file must be in it
    if (need <= cur_start) return;
    struct stat st;
    if (stat((dir + "/" + cur_file).c_str(), &st) != 0) return;
    if (cur_start + (size_t)st.st_size < need) {
      viol(what, "%zu of %zu bytes are in the current file", (size_t)st.st_size, need - cur_start);
      stop = true;
    }
  };

  int steps = 5 + (int)r.below(60);
  long seq = 0;
  std::string trace;
  for (int i = 0; i < steps && !stop; ++i) {
    int op = (int)r.below(10);
    if (op < 6) {
      size_t len;
      switch (r.below(7)) {
        case 0: len = 0; break;
        case 1: len = roll < 300000 ? roll / 2 : r.below(100); break;
        case 2: len = r.below(100000); break;
        case 3: len = 65536 + r.below(5) - 2; break;
        default: len = r.below(600);
      }
      std::string rec = make_rec(0, seq++, len);
      if (r.chance(1, 6) && roll > cur_bytes && roll - cur_bytes < 400000) {
        // land exactly on, just below or just above the roll size
        size_t want = roll - cur_bytes + (size_t)r.below(3);
        want = want ? want - 1 : 0;
        for (int guard = 0; guard < 3; ++guard) {
          size_t over = rec.size() - len;
          if (want < over) break;
          len = want - over;
          rec = make_rec(0, seq - 1, len);
          if (rec.size() == want) break;
        }
      }
      bool pend_size = cur_bytes > roll && now > cur_created;
      bool pend_period = now / (int64_t)interval > cur_created / (int64_t)interval && now > cur_created;
      size_t bytes_before = cur_bytes;
      // exact-size heap copy: reading outside the record is seen
      char *exact = (char *)malloc(rec.size() ? rec.size() : 1);
      memcpy(exact, rec.data(), rec.size());
      lf->Append(exact, rec.size());
      free(exact);
      expect += rec;
      tmax = std::max(tmax, now);
      marks.push_back({tmax, expect.size()});
      ++n_recs;
      h = mix(h, rec.size());
      long fresh = observe("append");
      if (stop) break;
      if (fresh < 0 || fresh > 1) { viol("roll-count", "one record started %ld files", fresh); break; }
      if (fresh == 1) {
        ++n_rolls;
        bool by_size = bytes_before + rec.size() > roll;
        bool by_time = now / (int64_t)interval > cur_created / (int64_t)interval;
        if (!by_size && !by_time)
          viol("roll-needless", "new file at %zu bytes of %zu, %ld s into a period of %zu", bytes_before + rec.size(), roll,
               (long)(now - cur_created), interval);
        if (now <= cur_created) viol("roll-needless", "second file within one second");
        std::string w, f = *created.rbegin();
        own_name(f, base, &w);
        if (w != stamp(now)) viol("name", "file is named %s at %s", w.c_str(), stamp(now).c_str());
        // where did the record go? the new file is empty or holds exactly it
        cur_created = now;
        // the previous file's contents decide
        struct stat st;
        size_t prev_end = expect.size();
        std::string pf = dir + "/" + cur_file;
        if (stat(pf.c_str(), &st) == 0) {
          prev_end = cur_start + (size_t)st.st_size;
          if (prev_end != expect.size() && prev_end != expect.size() - rec.size())
            viol("old-file-incomplete", "the file left at a roll holds %ld bytes, not %zu or %zu", (long)st.st_size,
                 expect.size() - cur_start, expect.size() - rec.size() - cur_start);
        }
        cur_file = f;
        cur_start = prev_end;
        start_of[f] = prev_end;
        cur_bytes = expect.size() - prev_end;
        count(by_size ? "size_rolls" : "period_rolls");
      } else {
        cur_bytes += rec.size();
        if (pend_size) viol("roll-missed", "%zu bytes in a file of at most %zu, and no new file was started", cur_bytes, roll);
        if (pend_period)
          viol("roll-missed", "period of %zu s began at %ld, file of %ld, and no new file was started", interval, (long)now,
               (long)cur_created);
      }
      // flush interval
      size_t need = 0;
      for (size_t k = 0; k + 1 < marks.size(); ++k)
        if (now - marks[k].first > (int64_t)flushi) need = marks[k].second;
      check_visible("flush-interval", need);
    } else if (op < 8) {
      int64_t adv;
      switch (r.below(5)) {
        case 0: adv = 0; break;
        case 1: adv = 1; break;
        case 2: adv = (int64_t)interval - now % (int64_t)interval - (int64_t)r.below(2); break;
        case 3: adv = (int64_t)flushi + (int64_t)r.below(3); break;
        default: adv = (int64_t)r.below(2 * interval < 200000 ? 2 * interval : 10);
      }
      if (adv < 0) adv = 0;
      if (r.chance(1, 20)) adv = -(int64_t)r.below(100);  // the clock is set back
      now += adv;
      g_time = now;
      h = mix(h, (uint64_t)adv);
    } else {
      lf->Flush();
      check_visible("flush-not-visible", expect.size());
      count("flushes");
      h = mix(h, 77);
    }
  }
  (void)visible;
  if (!stop && r.chance(1, 3)) { lf->Flush(); check_visible("flush-not-visible", expect.size()); }
  delete lf;
  if (!stop) {
    Snap s = snap(dir, base);
    if (limited && s.own.size() > std::max<size_t>(limit, 1))
      viol("too-many-files", "%zu log files after destruction, the limit is %zu", s.own.size(), limit);
    std::string all;
    for (auto &f : s.own) {
      std::string c = slurp(dir + "/" + f);
      auto it = start_of.find(f);
      if (it != start_of.end() && it->second != std::string::npos && expect.compare(it->second, c.size(), c) != 0)
        viol("contents", "file %s does not hold the records written to it", f.c_str());
      ParseResult p = parse(c, false);
      if (!p.error.empty()) viol("record-split", "%s in %s: %s", p.error.c_str(), f.c_str(), around(c, p.error_at).c_str());
      all += c;
    }
    if (all.size() > expect.size() || expect.compare(expect.size() - all.size(), all.size(), all) != 0)
      viol("contents", "the files together are not the last %zu bytes of the %zu written", all.size(), expect.size());
    if (!limited && all.size() != expect.size()) viol("lost", "%zu of %zu bytes are in the files", all.size(), expect.size());
    for (auto &f : s.other)
      if (pre && std::find(foreign.begin(), foreign.end(), f) != foreign.end() && slurp(dir + "/" + f) != "foreign")
        viol("foreign-changed", "%s was written to", f.c_str());
    struct stat st;
    if (stat(dir.c_str(), &st) == 0 && (st.st_mode & 0700) != 0700)
      viol("directory-mode", "log directory created with mode %o: its owner cannot use it", st.st_mode & 0777);
  }
  count("logfile_records", n_recs);
  count("logfile_rolls", n_rolls);
  seen(mix(h, (uint64_t)n_rolls));
  if (ci < 3)
    sample("logfile roll=" + std::to_string(roll) + " interval=" + std::to_string(interval) + " limit=" + std::to_string(limit) +
           " records=" + std::to_string(n_recs) + " rolls=" + std::to_string(n_rolls));
  wipe(root);
  g_time = -1;
}

// Several threads share a LogFile<true>, or each has its own LogFile<false>.
static void k19_threads(long, Rng &r) {
  bool shared = r.chance(2, 3);
  std::string root = fresh_dir();
  setenv("TZ", "UTC0", 1);
  tzset();
  g_time = 1700000000 + (int64_t)r.below(1000000);
  int n = 2 + (int)r.below(3);
  size_t roll = r.chance(1, 2) ? 200 + r.below(3000) : 1u << 30;
  size_t interval = 1 + r.below(4);
  bool limited = r.chance(1, 3);
  size_t limit = limited ? 1 + r.below(4) : UINT_MAX;
  size_t fl = r.below(3);
  g_slow = r.chance(1, 2) ? 20 : 0;
  std::unique_ptr<kanon::LogFile<true>> sh;
  if (shared) sh.reset(new kanon::LogFile<true>("t", roll, root, limit, interval, fl));
  std::vector<long> per(n);
  std::vector<uint64_t> seeds(n);
  for (int t = 0; t < n; ++t) { per[t] = 10 + (long)r.below(120); seeds[t] = r.next(); }
  std::atomic<int> running{n};
  std::vector<std::thread> ths;
  for (int t = 0; t < n; ++t)
    ths.emplace_back([&, t] {
      Rng q(seeds[t]);
      std::unique_ptr<kanon::LogFile<>> own;
      if (!shared) own.reset(new kanon::LogFile<>("t" + std::to_string(t), roll, root, limit, interval, fl));
      for (long i = 0; i < per[t]; ++i) {
        std::string rec = make_rec(t, i, q.below(400));
        if (shared) {
          sh->Append(rec.data(), rec.size());
          if (q.chance(1, 10)) sh->Flush();
        } else {
          own->Append(rec.data(), rec.size());
          if (q.chance(1, 10)) own->Flush();
        }
        if (q.chance(1, 8)) sleep_us(q.below(300));
        if (q.chance(1, 6)) g_time.fetch_add(1);
      }
      own.reset();
      --running;
    });
  if (!wait_for([&] { return running.load() == 0; }, 6000)) VFATAL("hang:append", "threads appending to a log file never finish");
  for (auto &t : ths) t.join();
  sh.reset();
  g_slow = 0;
  uint64_t h = mix(mix(shared, roll), mix(interval, limit));
  for (int g = 0; g < (shared ? 1 : n); ++g) {
    std::string base = shared ? "t" : "t" + std::to_string(g);
    Snap s = snap(root, base);
    if (limited && s.own.size() > std::max<size_t>(limit, 1))
      viol("too-many-files", "%zu log files of %zu threads, the limit is %zu", s.own.size(), (size_t)n, limit);
    if (s.own.empty()) { viol("current-removed", "no log file is left"); continue; }
    std::string all;
    for (auto &f : s.own) {
      std::string c = slurp(root + "/" + f);
      ParseResult p = parse(c, false);
      if (!p.error.empty()) viol("record-split", "%s in %s: %s", p.error.c_str(), f.c_str(), around(c, p.error_at).c_str());
      all += c;
    }
    ParseResult p = parse(all, false);
    std::map<int, long> next;
    std::map<int, long> cnt;
    for (auto &q : p.recs) {
      h = mix(h, (uint64_t)q.thr);
      auto it = next.find(q.thr);
      if (it != next.end() && q.seq != it->second) viol("order", "thread %d: record %ld after %ld", q.thr, q.seq, it->second - 1);
      if (it == next.end() && !limited && q.seq != 0) viol("lost", "thread %d: first record in the files is %ld", q.thr, q.seq);
      next[q.thr] = q.seq + 1;
      cnt[q.thr]++;
    }
    for (int t = 0; t < n; ++t) {
      if (!shared && t != g) continue;
      if (!limited && cnt[t] != per[t]) viol("lost", "thread %d: %ld of %ld records are in the files", t, cnt[t], per[t]);
    }
    count("logfile_mt_records", (long)p.recs.size());
  }
  seen(h);
  wipe(root);
  g_time = -1;
}

// Logger -> LogFile, as applications set it up
static void k19_setup(long, Rng &r) {
  std::string root = fresh_dir();
  setenv("TZ", "UTC0", 1);
  tzset();
  int64_t now = 1650000000 + (int64_t)r.below(1000000);
  g_time = now;
  {
    kanon::LogFile<> lf("app", 1 + r.below(4000), root, UINT_MAX, 86400, r.below(3));
    kanon::SetupLogFile(lf);
    auto old = kanon::Logger::GetLogLevel();
    kanon::Logger::SetLogLevel(kanon::Logger::KANON_LL_INFO);
    int n = 5 + (int)r.below(80);
    std::string all;
    for (int i = 0; i < n; ++i) {
      LOG_INFO << "record " << i << " of " << n;
      LOG_DEBUG << "never";
      if (r.chance(1, 4)) g_time = (now += (int64_t)r.below(3));
    }
    if (r.chance(1, 2)) kanon::Logger::GetFlushCallback()();
    else lf.Flush();
    for (auto &f : snap(root, "app").own) all += slurp(root + "/" + f);
    size_t at = 0;
    for (int i = 0; i < n; ++i) {
      std::string want = "record " + std::to_string(i) + " of " + std::to_string(n) + " - h_log.cc:";
      size_t p = all.find(want, at);
      if (p == std::string::npos) { viol("lost", "log statement %d of %d is not in the files after a flush", i, n); break; }
      at = p + want.size();
    }
    if ((size_t)std::count(all.begin(), all.end(), '\n') != (size_t)n)
      viol("contents", "%zu lines for %d statements", (size_t)std::count(all.begin(), all.end(), '\n'), n);
    kanon::Logger::SetOutputCallback(&kanon::DefaultOutput);
    kanon::Logger::SetFlushCallback(&kanon::DefaultFlush);
    kanon::Logger::SetLogLevel(old);
    seen(mix(mix(5, n), r.s));
    count("logfile_records", n);
  }
  wipe(root);
  g_time = -1;
}

// ====================================================================== K18
static std::string read_all(const std::string &dir, const std::string &base, size_t *files = nullptr) {
  std::string all;
  auto own = snap(dir, base).own;
  if (files) *files = own.size();
  for (auto &f : own) {
    std::string c = slurp(dir + "/" + f);
    if (all.empty()) all.swap(c);
    else all += c;
  }
  return all;
}

enum { MB4 = 4096 << 10 };

// what every thread appended: [0, done) certainly before the stop, [done, tried) maybe
struct Wrote {
  long sure = 0, tried = 0;
  size_t max_rec = 0;
};
static uint64_t check_async(const std::string &dir, const std::string &base, std::vector<Wrote> &w, const char *what, bool overload,
                            uint64_t h, std::vector<size_t> *sizes0 = nullptr) {
  size_t nf = 0;
  // no record may be split over two files
  for (auto &f : snap(dir, base).own) {
    std::string c = slurp(dir + "/" + f);
    ParseResult p = parse(c, true);
    if (!p.error.empty()) {
      viol("record-broken", "%s: %s: %s", what, p.error.c_str(), around(c, p.error_at).c_str());
      return h;
    }
  }
  std::string all = read_all(dir, base, &nf);
  ParseResult p = parse(all, true);
  std::vector<long> next(w.size(), 0), cnt(w.size(), 0);
  std::map<int, std::vector<char>> have;
  long missing = 0;
  for (auto &q : p.recs) {
    if (q.thr < 0 || q.thr >= (int)w.size() || q.seq < 0 || q.seq >= w[q.thr].tried) {
      viol("invented", "%s: record %d,%ld was never appended", what, q.thr, q.seq);
      return h;
    }
    if (q.seq < next[q.thr]) {
      viol("order", "%s: thread %d record %ld after %ld (repeated or out of order)", what, q.thr, q.seq, next[q.thr] - 1);
      return h;
    }
    if (q.seq > next[q.thr]) {
      missing += q.seq - next[q.thr];
      if (!overload || p.discards == 0) {
        viol("lost", "%s: thread %d: record %ld is followed by %ld (files: %zu)", what, q.thr, next[q.thr] - 1, q.seq, nf);
        return h;
      }
    }
    next[q.thr] = q.seq + 1;
    cnt[q.thr]++;
    if (h % 4 == 0 && h) h = mix(h, (uint64_t)q.thr); else h = mix(h, (uint64_t)q.thr + 1);
  }
  size_t worst = MB4;
  for (size_t t = 0; t < w.size(); ++t) {
    worst = std::max(worst, w[t].max_rec);
    if (next[t] < w[t].sure) {
      missing += w[t].sure - next[t];
      if (!overload || p.discards == 0) {
        viol("lost", "%s: thread %zu: %ld of %ld records appended before the stop are in the %zu files", what, t, next[t], w[t].sure, nf);
        return h;
      }
    }
  }
  if (sizes0 && p.discards) {
    // thread 0 only: the bytes missing must fit into the buffers announced as dropped
    size_t miss = 0;
    std::vector<char> got(sizes0->size(), 0);
    for (auto &q : p.recs) got[q.seq] = 1;
    for (size_t i = 0; i < sizes0->size(); ++i)
      if (!got[i]) miss += (*sizes0)[i];
    if (miss > (size_t)p.discards * worst)
      viol("discard-count", "%s: %zu bytes are missing, %ld buffers were announced", what, miss, p.discards);
  }
  count("async_records", (long)p.recs.size());
  count("async_files", (long)nf);
  if (missing) count("async_announced_losses");
  count_max("max_discards", p.discards);
  return h;
}

static void k18_case(long ci, Rng &r) {
  int kind = (int)opt_int("kind", -1);
  if (kind < 0) {
    int k = (int)r.below(40);
    if (is_tsan() && k >= 16 && k < 29 && !r.chance(1, 4)) k = k % 2 ? 23 : 0;
    kind = k < 16 ? 0 : k < 22 ? 1 : k < 27 ? 2 : k < 29 ? 3 : k < 34 ? 4 : k < 37 ? 5 : 6;
  }
  std::string dir = fresh_dir();
  setenv("TZ", "UTC0", 1);
  tzset();
  g_time = 1700000000 + (int64_t)r.below(10000000);
  uint64_t h = mix(18, kind);
  static const size_t kFlush[] = {1, 3, 100000, 1000000000};
  size_t flushi = r.chance(1, 8) ? 0 : kFlush[r.below(4)];
  size_t roll = r.chance(1, 3) ? 1u << 30 : 1000 + r.below(400000);
  size_t interval = r.chance(1, 2) ? 86400 : 1 + r.below(3);
  g_slow = r.chance(1, 3) ? 4 : 0;
  auto *al = new kanon::AsyncLog("as", roll, dir, UINT_MAX, interval, flushi);
  static const char *kNames[] = {"threads", "volume", "stop-race", "overload", "edges", "stall", "flush"};
  std::string what = kNames[kind];
  auto bounded_stop = [&](bool by_dtor) {
    std::atomic<bool> done{false};
    std::thread st([&] {
      if (by_dtor) { delete al; al = nullptr; }
      else al->Stop();
      done = true;
    });
    if (!wait_for([&] { return done.load(); }, 2500))
      VFATAL("hang:stop", "%s: Stop() of the asynchronous log does not return (flush interval %zu)", what.c_str(), flushi);
    st.join();
    count("async_stops");
  };
  if (kind == 0 || kind == 1) {
    int n = kind == 0 ? 1 + (int)r.below(4) : 1 + (int)r.below(2);
    std::vector<Wrote> w(n);
    std::vector<uint64_t> seeds(n);
    for (auto &s : seeds) s = r.next();
    bool early = r.chance(1, 8);
    if (early) {  // some records before the log runs
      for (int i = 0; i < 3; ++i) { std::string rec = make_rec(0, w[0].tried, r.below(100)); al->Append(rec.data(), rec.size()); w[0].sure = ++w[0].tried; }
    }
    al->StartRun();
    std::atomic<int> running{n};
    std::vector<std::thread> ths;
    long per = kind == 0 ? 5 + (long)r.below(300) : 2 + (long)r.below(8);
    bool pauses = r.chance(1, 2);
    for (int t = 0; t < n; ++t)
      ths.emplace_back([&, t] {
        Rng q(seeds[t]);
        for (long i = 0; i < per; ++i) {
          size_t len;
          if (kind == 0) len = q.chance(1, 20) ? q.below(100000) : q.below(300);
          else
            switch (q.below(6)) {
              case 0: len = MB4 - 40 + q.below(80); break;
              case 1: len = MB4 / 2 + q.below(1000); break;
              case 2: len = MB4 + q.below(MB4); break;
              case 3: len = 2 * MB4 + q.below(100); break;
              case 4: len = 1000000 + q.below(2000000); break;
              default: len = q.below(1000);
            }
          std::string rec = make_rec(t, w[t].tried, len);
          w[t].max_rec = std::max(w[t].max_rec, rec.size());
          w[t].tried++;
          al->Append(rec.data(), rec.size());
          w[t].sure = w[t].tried;
          if (q.chance(1, 30)) g_time.fetch_add(1);
          if (pauses && q.chance(1, 10)) sleep_us(q.below(400));
        }
        --running;
      });
    if (!wait_for([&] { return running.load() == 0; }, 6000)) VFATAL("hang:append", "%s: Append() never returns", what.c_str());
    for (auto &t : ths) t.join();
    if (r.chance(1, 4)) sleep_us(r.below(3000));
    bounded_stop(r.chance(1, 2));
    h = check_async(dir, "as", w, what.c_str(), kind == 1, h);
    count(kind == 0 ? "async_normal" : "async_volume");
  } else if (kind == 2) {
    // threads still append while the log is stopped
    int n = 1 + (int)r.below(3);
    struct Shared { std::atomic<long> tried{0}, done{0}; };
    std::vector<Shared> sh(n);
    al->StartRun();
    std::atomic<bool> end{false};
    std::atomic<int> running{n};
    std::vector<std::thread> ths;
    for (int t = 0; t < n; ++t)
      ths.emplace_back([&, t] {
        for (long i = 0; i < 100000 && !end.load(); ++i) {
          std::string rec = make_rec(t, i, (size_t)(i % 200));
          sh[t].tried = i + 1;
          al->Append(rec.data(), rec.size());
          sh[t].done = i + 1;
          if (i % 16 == 0) sched_yield();
        }
        --running;
      });
    sleep_us(r.below(3000));
    std::vector<Wrote> w(n);
    for (int t = 0; t < n; ++t) w[t].sure = sh[t].done.load();
    bounded_stop(false);
    if (r.chance(1, 2)) sleep_us(r.below(500));
    end = true;
    if (!wait_for([&] { return running.load() == 0; }, 6000)) VFATAL("hang:append", "%s: Append() never returns", what.c_str());
    for (auto &t : ths) t.join();
    for (int t = 0; t < n; ++t) w[t].tried = sh[t].tried.load();
    std::string late = make_rec(0, w[0].tried, 10);
    w[0].tried++;
    al->Append(late.data(), late.size());
    al->Flush();  // must not wait for a thread that is gone
    bounded_stop(true);
    h = check_async(dir, "as", w, what.c_str(), false, h);
    count("async_stop_races");
  } else if (kind == 3) {
    // overload: the disk does not move while more than the bounded backlog comes in
    std::vector<Wrote> w(1);
    std::vector<size_t> sizes;
    al->StartRun();
    g_stalled = 0;
    g_stall = 1;
    std::string first = make_rec(0, 0, 10);
    sizes.push_back(first.size());
    w[0].tried = 1;
    al->Append(first.data(), first.size());
    size_t total = (size_t)(60 + r.below(60)) << 20, sent = 0;
    std::atomic<bool> done{false};
    std::thread t([&] {
      Rng q(r.next());
      while (sent < total) {
        size_t len = q.chance(1, 8) ? 2 * (size_t)MB4 + q.below(1000000) : q.chance(1, 3) ? MB4 - 100 : 400000 + q.below(3000000);
        std::string rec = make_rec(0, w[0].tried, len);
        w[0].max_rec = std::max(w[0].max_rec, rec.size());
        sizes.push_back(rec.size());
        w[0].tried++;
        al->Append(rec.data(), rec.size());
        sent += rec.size();
      }
      done = true;
    });
    if (!wait_for([&] { return done.load(); }, 6000)) VFATAL("hang:append-blocks", "Append() waits for a disk that does not move");
    t.join();
    w[0].sure = w[0].tried;
    g_stall = 0;
    bool sleepy = r.chance(1, 2);
    if (sleepy) sleep_us(20000);
    // after the overload, records must arrive again
    bounded_stop(r.chance(1, 2));
    h = check_async(dir, "as", w, what.c_str(), true, h, &sizes);
    h = mix(h, total >> 22);
    count("async_overloads");
  } else if (kind == 4) {
    // degenerate lifetimes
    int e = (int)r.below(5);
    std::vector<Wrote> w(1);
    h = mix(h, e);
    auto app = [&](int k) {
      for (int i = 0; i < k; ++i) {
        std::string rec = make_rec(0, w[0].tried, r.below(2000));
        al->Append(rec.data(), rec.size());
        w[0].tried++;
      }
    };
    if (e == 0) { delete al; al = nullptr; }                                    // never started
    else if (e == 1) { al->StartRun(); bounded_stop(true); }                     // nothing appended
    else if (e == 2) { al->StartRun(); bounded_stop(false); bounded_stop(true); } // stop, then destroy
    else if (e == 3) { app(2); al->Flush(); delete al; al = nullptr; }           // records, never started
    else { al->StartRun(); app(1); w[0].sure = w[0].tried; bounded_stop(false); app(2); bounded_stop(true); }
    h = check_async(dir, "as", w, ("edges" + std::to_string(e)).c_str(), false, h);
    h = mix(h, mix(flushi, w[0].tried));
    count("async_edges");
  } else if (kind == 5) {
    // a stalled disk delays nothing but the files
    std::vector<Wrote> w(2);
    al->StartRun();
    g_stalled = 0;
    g_stall = 1;
    std::atomic<int> running{2};
    std::vector<std::thread> ths;
    uint64_t s0 = r.next();
    for (int t = 0; t < 2; ++t)
      ths.emplace_back([&, t] {
        Rng q(s0 + t);
        for (int i = 0; i < 40; ++i) {
          std::string rec = make_rec(t, i, q.below(t == 0 ? 400000 : 500));
          w[t].tried++;
          al->Append(rec.data(), rec.size());
          w[t].sure = w[t].tried;
        }
        --running;
      });
    if (!wait_for([&] { return running.load() == 0; }, 6000)) VFATAL("hang:append-blocks", "Append() waits for a disk that does not move");
    for (auto &t : ths) t.join();
    count("async_stalled_writes", g_stalled.load());
    g_stall = 0;
    bounded_stop(r.chance(1, 2));
    h = check_async(dir, "as", w, what.c_str(), false, h);
    count("async_stalls");
  } else {
    // Flush: what was appended before it is in the files afterwards
    std::vector<Wrote> w(1);
    al->StartRun();
    int rounds = 1 + (int)r.below(5);
    std::atomic<bool> end{false};
    std::atomic<long> others{0};
    std::thread other([&] {
      while (!end.load()) {
        al->Flush();
        ++others;
        sleep_us(300);
      }
    });
    for (int k = 0; k < rounds; ++k) {
      int n = (int)r.below(20);
      for (int i = 0; i < n; ++i) {
        std::string rec = make_rec(0, w[0].tried, r.chance(1, 10) ? r.below(3 * MB4 / 2) : r.below(500));
        w[0].max_rec = std::max(w[0].max_rec, rec.size());
        al->Append(rec.data(), rec.size());
        w[0].sure = ++w[0].tried;
      }
      std::atomic<bool> done{false};
      std::thread t([&] { al->Flush(); done = true; });
      if (!wait_for([&] { return done.load(); }, 2500)) VFATAL("hang:flush", "Flush() of the asynchronous log does not return");
      t.join();
      std::string all = read_all(dir, "as");
      ParseResult p = parse(all, true);
      if (!p.error.empty() || ((long)p.recs.size() < w[0].sure && !p.discards))
        viol("flush-incomplete", "after Flush() %zu of %ld records are in the files %s", p.recs.size(), w[0].sure, p.error.c_str());
    }
    end = true;
    if (!wait_for([&] { return others.load() >= 0 && (other.joinable()); }, 10)) {}
    other.join();
    bounded_stop(r.chance(1, 2));
    h = check_async(dir, "as", w, what.c_str(), false, h);
    count("async_flushes", rounds);
  }
  delete al;
  seen(mix(h, mix(flushi, roll)));
  if (ci < 3) sample("async kind=" + what + " flush=" + std::to_string(flushi) + " roll=" + std::to_string(roll));
  g_slow = 0;
  wipe(dir);
  g_time = -1;
}

// ====================================================================== children
struct ChildResult {
  int status = -1;
  bool hung = false;
  std::string out;
};
static ChildResult spawn(std::vector<std::string> args, std::vector<std::pair<std::string, std::string>> env) {
  ChildResult cr;
  int p[2];
  if (pipe(p) != 0) return cr;
  args.insert(args.begin(), "/proc/self/exe");
  std::vector<char *> av;
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  std::vector<std::string> es;
  extern char **environ;
  for (char **e = environ; *e; ++e) {
    bool drop = strncmp(*e, "KANON_LOG", 9) == 0;
    for (auto &kv : env) drop = drop || strncmp(*e, (kv.first + "=").c_str(), kv.first.size() + 1) == 0;
    if (!drop) es.push_back(*e);
  }
  for (auto &kv : env)
    if (kv.second != "\x01") es.push_back(kv.first + "=" + kv.second);
  std::vector<char *> ev;
  for (auto &e : es) ev.push_back((char *)e.c_str());
  ev.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1);
    close(p[0]);
    close(p[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    execve("/proc/self/exe", av.data(), ev.data());
    _exit(97);
  }
  close(p[1]);
  std::thread rd([&] {
    char b[65536];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) cr.out.append(b, n);
  });
  int st = 0;
  bool ended = wait_for([&] { return waitpid(pid, &st, WNOHANG) == pid; }, 4000);
  if (!ended) {
    cr.hung = true;
    kill(pid, SIGKILL);
    waitpid(pid, &st, 0);
  }
  rd.join();
  close(p[0]);
  cr.status = st;
  count("children");
  return cr;
}
static int exit_code(const ChildResult &c) { return WIFEXITED(c.status) ? WEXITSTATUS(c.status) : 1000 + WTERMSIG(c.status); }
// abort() ends in SIGABRT, or in the sanitizer's exit code if it handles it
static bool aborted(const ChildResult &c) { return WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGABRT; }

static int child_main() {
  const std::string &what = C().opt["what"];
  int n = (int)opt_int("n", 5);
  if (what == "fatal-async" || what == "exit-async") {
    size_t flushi = (size_t)opt_int("flush", 3);
    kanon::SetupAsyncLog("as", 1u << 20, C().opt["dir"], UINT_MAX, 86400, flushi);
    std::vector<std::thread> ths;
    int t = (int)opt_int("threads", 0);
    std::atomic<int> ready{0};
    for (int i = 0; i < t; ++i)
      ths.emplace_back([i, n, &ready] {
        for (int k = 0; k < n; ++k) LOG_INFO << "T" << i + 1 << "#" << k << "#";
        ++ready;
      });
    for (int i = 0; i < n; ++i) LOG_INFO << "T0#" << i << "#";
    while (ready.load() < t) sleep_us(100);
    for (auto &th : ths) th.join();
    if (what == "fatal-async") {
      if (opt_int("sys", 0)) {
        errno = EACCES;
        LOG_SYSFATAL << "the end";
      } else
        LOG_FATAL << "the end";
    }
    return 0;
  }
  if (what == "stdout") {
    for (int i = 0; i < n; ++i) LOG_INFO << "line " << i << ".";
    if (opt_int("fatal", 0)) LOG_FATAL << "the end";
    return 0;
  }
  if (what == "level") {
    kanon::Logger::SetColor(false);
    LOG_TRACE << "is-trace";
    LOG_DEBUG << "is-debug";
    LOG_INFO << "is-info";
    LOG_WARN << "is-warn";
    LOG_ERROR << "is-error";
    errno = 2;
    LOG_SYSERROR << "is-syserror";
    using kanon::g_kanon_log;
    LOG_TRACE_KANON << "is-ktrace";
    LOG_DEBUG_KANON << "is-kdebug";
    LOG_INFO_KANON << "is-kinfo";
    LOG_WARN_KANON << "is-kwarn";
    LOG_ERROR_KANON << "is-kerror";
    return 0;
  }
  if (what == "syserr") {
    kanon::Logger::SetColor(false);
    errno = (int)opt_int("errno", EACCES);
    LOG_SYSERROR << "is-first";
    return 0;
  }
  return 3;
}

static void k18_child(Rng &r) {
  bool fatal = r.chance(1, 2);
  std::string dir = fresh_dir();
  int n = (int)r.below(200), t = (int)r.below(3), sys = (int)r.below(2);
  static const int kFl[] = {1, 3, 100000};
  int fl = kFl[r.below(3)];
  ChildResult c = spawn({"--mode", "child", "--what", fatal ? "fatal-async" : "exit-async", "--n", std::to_string(n), "--threads",
                         std::to_string(t), "--dir", dir, "--flush", std::to_string(fl), "--sys", std::to_string(sys)}, {});
  const char *what = fatal ? "fatal statement" : "exit";
  if (c.hung) viol(fatal ? "hang:fatal" : "hang:exit", "%s with an asynchronous log never ends the process (flush interval %d)", what, fl);
  else if (fatal ? !aborted(c) : exit_code(c) != 0) viol("child-status", "%s: the process ended with %d", what, exit_code(c));
  std::string all;
  for (auto &f : list_dir(dir)) all += slurp(dir + "/" + f);
  for (int k = 0; k <= t && !c.hung; ++k) {
    size_t at = 0;
    for (int i = 0; i < n; ++i) {
      std::string want = "T" + std::to_string(k) + "#" + std::to_string(i) + "# - h_log.cc:";
      size_t p = all.find(want, at);
      if (p == std::string::npos) {
        viol(fatal ? "lost-at-fatal" : "lost-at-exit", "%s: record %d of %d of thread %d is not in the files", what, i, n, k);
        k = t;
        break;
      }
      at = p;
    }
  }
  if (fatal && !c.hung && all.find("the end - h_log.cc:") == std::string::npos)
    viol("lost-at-fatal", "the record of the fatal statement is not in the log files");
  count(fatal ? "fatal_children" : "exit_children");
  seen(mix(mix(fatal, n), mix(t, fl)));
  wipe(dir);
}

// ====================================================================== K20
static thread_local std::vector<std::string> *t_cap;
static std::atomic<long> g_stray{0};

static const char *kLevels[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "SYS_ERROR", "FATAL", "SYS_FATAL"};
static const char *kColors[] = {"\033[0;36m", "\033[0;34m", "\033[0;32m", "\033[1;33m", "\033[0;31m", "\033[1;31m", "\033[0;31m", "\033[1;31m"};

static std::string time_text(int64_t us) {
  time_t s = us / 1000000;
  struct tm tm;
  localtime_r(&s, &tm);
  char b[64];
  snprintf(b, sizeof b, "%04d%02d%02d:%02d%02d%02d.%06d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
           (int)(us % 1000000));
  return b;
}

struct Piece {
  int kind;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  std::string s;
  void put(kanon::LogStream &o) const {
    switch (kind) {
      case 0: o << (int)i; break;
      case 1: o << (long long)i; break;
      case 2: o << (unsigned long long)u; break;
      case 3: o << (unsigned char)u; break;
      case 4: o << (short)i; break;
      case 5: o << (bool)(u & 1); break;
      case 6: o << (char)('!' + u % 90); break;
      case 7: o << d; break;
      case 8: o << (float)d; break;
      case 9: o << s; break;
      case 10: o << s.c_str(); break;
      case 11: o << StringView(s.data(), s.size()); break;
      case 12: o << (void const *)(uintptr_t)u; break;
      case 13: o << (unsigned short)u; break;
      case 14: o << (unsigned long)u; break;
      case 15: o << (unsigned)u; break;
      default: o << (long)i; break;
    }
  }
  std::string text() const {
    char b[400];
    switch (kind) {
      case 0: return std::to_string((int)i);
      case 1: return std::to_string((long long)i);
      case 2: return std::to_string((unsigned long long)u);
      case 3: return std::to_string((unsigned char)u);
      case 4: return std::to_string((short)i);
      case 5: return (u & 1) ? "True" : "False";
      case 6: return std::string(1, (char)('!' + u % 90));
      case 7: snprintf(b, sizeof b, "%.12g", d); return b;
      case 8: snprintf(b, sizeof b, "%.12g", (double)(float)d); return b;
      case 9: return s;
      case 10: return s.c_str();
      case 11: return s;
      case 12:
        if (!u) return "(null)";
        snprintf(b, sizeof b, "0x%016lX", (unsigned long)u);
        return b;
      case 13: return std::to_string((unsigned short)u);
      case 14: return std::to_string((unsigned long)u);
      case 15: return std::to_string((unsigned)u);
      default: return std::to_string((long)i);
    }
  }
};
static int64_t edgy(Rng &r) {
  static const int64_t e[] = {0, 1, -1, 9, 10, -10, 127, -128, 255, 32767, -32768, 65535, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 99, 100, -100};
  return r.chance(1, 2) ? e[r.below(sizeof e / sizeof *e)] : (int64_t)(r.next() >> r.below(64));
}
static Piece rand_piece(Rng &r, size_t maxlen) {
  Piece p;
  p.kind = (int)r.below(17);
  p.i = edgy(r);
  p.u = r.chance(1, 10) ? 0 : (uint64_t)edgy(r);
  static const double ds[] = {0, -0.0, 1.5, -1e300, 1e-300, 3.14159265358979, 1e15, 123456789012.0, 1e12, -1e-5};
  p.d = r.chance(1, 2) ? ds[r.below(10)] : (double)edgy(r) / 7.0;
  size_t len = r.chance(1, 6) ? r.below(maxlen + 1) : r.below(20);
  for (size_t i = 0; i < len; ++i) p.s += (char)(p.kind == 10 ? 1 + r.below(255) : r.chance(1, 30) ? r.next() : ' ' + r.below(95));
  return p;
}

// Is rec the record of this statement? full: the whole message.
static void check_record(const std::string &rec, int level, const std::string &time, const std::string &who, bool color,
                         const std::string &extra, const std::string &msg, const std::string &tail, const char *what) {
  std::string head = time + " " + who + " " + (color ? kColors[level] : "") + "[" + kLevels[level] + "]" + (color ? "\033[0m" : "") + " " + extra;
  std::string full = head + msg + tail;
  if (rec == full) return;
  if (rec.size() < tail.size() || rec.compare(rec.size() - tail.size(), tail.size(), tail) != 0) {
    viol("record-tail", "%s: record of %zu bytes does not end in its source position and newline: ...%s", what, rec.size(),
         rec.substr(rec.size() > 60 ? rec.size() - 60 : 0).c_str());
    return;
  }
  std::string body = rec.substr(0, rec.size() - tail.size());
  if (body.compare(0, head.size(), head) != 0) {
    viol("record-head", "%s: record begins %s, not %s", what, body.substr(0, 100).c_str(), head.c_str());
    return;
  }
  std::string m = body.substr(head.size());
  if (full.size() <= 4000) {
    viol("record-message", "%s: message %s instead of %s", what, m.substr(0, 200).c_str(), msg.substr(0, 200).c_str());
    return;
  }
  if (m.size() > msg.size() || msg.compare(0, m.size(), m) != 0)
    viol("record-corrupt", "%s: of a message of %zu bytes the record holds %zu, not a beginning of it", what, msg.size(), m.size());
  else if (rec.size() < 4000)
    viol("record-short", "%s: a message of %zu bytes was cut to %zu although the record has room for 4095", what, msg.size(), m.size());
  count("truncated_records");
}

static std::string g_who_main;
struct Seq {
  const std::vector<Piece> *ps;
};
static kanon::LogStream &operator<<(kanon::LogStream &o, const Seq &s) {
  for (auto &p : *s.ps) p.put(o);
  return o;
}
static thread_local long t_evals;
static const Seq &eval(const Seq &s) { ++t_evals; return s; }

static void capture(bool on) {
  if (!on) {
    kanon::Logger::SetOutputCallback(&kanon::DefaultOutput);
    kanon::Logger::SetFlushCallback(&kanon::DefaultFlush);
    return;
  }
  kanon::Logger::SetOutputCallback([](char const *d, size_t n) {
    if (!t_cap) { ++g_stray; return; }
    char *x = (char *)malloc(n ? n : 1);  // reading beyond the record is seen
    memcpy(x, d, n);
    t_cap->emplace_back(x, n);
    free(x);
  });
}
static std::string whoami() {
  char b[160];
  const char *n = kanon::CurrentThread::tidName();
  snprintf(b, sizeof b, "%d %s", (int)syscall(SYS_gettid), n ? n : "Unnamed");
  return b;
}

// A few statements with everything about them checked. Level settings are
// changed only if alone.
static uint64_t statements(Rng &r, int stmts, bool color, bool alone, uint64_t h) {
  std::vector<std::string> recs;
  t_cap = &recs;
  std::string who = whoami();
  bool libon = true;
  kanon::Logger::LogLevel set = kanon::Logger::KANON_LL_TRACE;
  for (int k = 0; k < stmts && !C().viols.load(); ++k) {
    static const kanon::Logger::LogLevel kSet[] = {
        kanon::Logger::KANON_LL_TRACE, kanon::Logger::KANON_LL_DEBUG, kanon::Logger::KANON_LL_INFO, kanon::Logger::KANON_LL_WARN,
        kanon::Logger::KANON_LL_ERROR, kanon::Logger::KANON_LL_SYS_ERROR, kanon::Logger::KANON_LL_FATAL, kanon::Logger::KANON_LL_OFF};
    int level = (int)r.below(6);
    bool lib = r.chance(1, 4);
    if (alone) {
      set = r.chance(1, 2) ? kanon::Logger::KANON_LL_TRACE : kSet[r.below(8)];
      kanon::Logger::SetLogLevel(set);
      libon = r.chance(1, 2);
      kanon::SetKanonLog(libon);
    }
    bool enabled = level >= (int)set && !(lib && !libon);
    int np = (int)r.below(12);
    size_t maxlen = r.chance(1, 4) ? 6000 : 200;
    std::vector<Piece> ps;
    for (int i = 0; i < np; ++i) ps.push_back(rand_piece(r, maxlen));
    if (r.chance(1, 5)) {  // land around the capacity
      Piece p;
      p.kind = 9;
      p.s.assign(3850 + r.below(250), 'x');
      for (auto &c : p.s) c = (char)('a' + r.below(26));
      ps.insert(ps.begin() + (long)r.below(ps.size() + 1), p);
    }
    std::string msg;
    for (auto &p : ps) msg += p.text();
    t_usec += r.chance(1, 3) ? 0 : r.chance(1, 2) ? (int64_t)r.below(1000) : (int64_t)r.below(3000000);
    if (r.chance(1, 12)) { t_usec -= (int64_t)r.below(r.chance(1, 2) ? 3000000 : 90000) ; count("clock_back"); }  // the clock was set
    if (r.chance(1, 8)) t_usec = t_usec / 1000000 * 1000000 + (r.chance(1, 2) ? 0 : 999999);
    std::string tm = time_text(t_usec);
    int en;
    switch (r.below(5)) {
      case 0: en = 0; break;
      case 1: en = 1 + (int)r.below(133); break;
      case 2: en = 100000 + (int)r.below(1000); break;
      default: { static const int es[] = {EACCES, ENOENT, EAGAIN, EINTR, ECONNRESET}; en = es[r.below(5)]; }
    }
    char etext[300] = "";
    if (en) snprintf(etext, sizeof etext, "errno: %d, errmsg: %s ", en, strerrordesc_np(en) ? strerrordesc_np(en) : ("Unknown error " + std::to_string(en)).c_str());
    Seq seq{&ps};
    t_evals = 0;
    recs.clear();
    int line = 0;
    using kanon::g_kanon_log;
#define RUN(M) { line = __LINE__; errno = en; M << eval(seq); } break
    switch (level + (lib ? 10 : 0)) {
      case 0: RUN(LOG_TRACE);
      case 1: RUN(LOG_DEBUG);
      case 2: RUN(LOG_INFO);
      case 3: RUN(LOG_WARN);
      case 4: RUN(LOG_ERROR);
      case 5: RUN(LOG_SYSERROR);
      case 10: RUN(LOG_TRACE_KANON);
      case 11: RUN(LOG_DEBUG_KANON);
      case 12: RUN(LOG_INFO_KANON);
      case 13: RUN(LOG_WARN_KANON);
      case 14: RUN(LOG_ERROR_KANON);
      default: RUN(LOG_SYSERROR_KANON);
    }
#undef RUN
    char what[64];
    snprintf(what, sizeof what, "%s%s at %d", kLevels[level], lib ? "_KANON" : "", (int)set);
    h = mix(mix(h, (uint64_t)(level + 8 * (int)lib + 16 * (int)set)), msg.size());
    if (!enabled) {
      if (!recs.empty()) viol("level-output", "%s: a disabled statement wrote %s", what, recs[0].substr(0, 100).c_str());
      if (t_evals) viol("level-evaluated", "%s: a disabled statement evaluated its operands", what);
      count("disabled_statements");
      continue;
    }
    count("statements");
    if (recs.size() != 1) { viol("record-count", "%s: %zu records from one statement", what, recs.size()); continue; }
    if (t_evals != 1) viol("operand-evaluated", "%s: operands evaluated %ld times", what, t_evals);
    std::string extra = level <= 1 ? std::string(__func__) + "() " : level == 5 ? etext : "";
    std::string tail = " - h_log.cc:" + std::to_string(line) + "\n";
    if (level == 5 && en == 0) {  // no error number in force: the error part may be empty or name none
      size_t hs = tm.size() + 1 + who.size() + 1 + (color ? strlen(kColors[level]) : 0) + 2 + strlen(kLevels[level]) + (color ? 4 : 0) + 1;
      if (recs[0].size() > hs && recs[0].substr(hs) != msg + tail) {
        if (recs[0].compare(hs, 6, "errno:") == 0) extra = std::string("errno: 0, errmsg: ") + strerror(0) + " ";
        else if (recs[0][hs] == ' ') extra = " ";
      }
      count("errno_zero");
    }
    check_record(recs[0], level, tm, who, color, extra, msg, tail, what);
    if (C().viols.load()) {
      std::string kinds;
      for (auto &p : ps) kinds += std::to_string(p.kind) + ":" + std::to_string(p.text().size()) + " ";
      viol("record-note", "pieces %s errno %d", kinds.c_str(), en);
    }
  }
  t_cap = nullptr;
  return h;
}

static void k20_one(long ci, Rng &r) {
  capture(true);
  setenv("TZ", kZones[r.below(5)], 1);
  tzset();
  bool color = r.chance(1, 2);
  kanon::Logger::SetColor(color);
  t_usec = (int64_t)(1000000000 + ci * 100000 + (long)r.below(900)) * 1000000 + (int64_t)r.below(1000000);
  uint64_t h = statements(r, 1 + (int)r.below(12), color, true, 20);
  kanon::Logger::SetLogLevel(kanon::Logger::KANON_LL_INFO);
  t_usec = -1;
  capture(false);
  seen(h);
  if (ci < 2) sample("logger statements with mixed levels, values and errno");
}

static void k20_threads(long ci, Rng &r) {
  capture(true);
  setenv("TZ", kZones[r.below(5)], 1);
  tzset();
  bool color = r.chance(1, 2);
  kanon::Logger::SetColor(color);
  kanon::Logger::SetLogLevel(kanon::Logger::KANON_LL_TRACE);
  kanon::SetKanonLog(true);
  int n = 2 + (int)r.below(4);
  std::vector<uint64_t> seeds(n);
  for (auto &s : seeds) s = r.next();
  std::atomic<int> running{n}, start{0};
  std::vector<std::unique_ptr<kanon::Thread>> kt;
  std::vector<std::thread> st;
  int per = 3 + (int)r.below(20);
  auto body = [&](int t) {
    Rng q(seeds[t]);
    // every thread lives in its own second
    t_usec = (int64_t)(1000000000 + ci * 1000 + t * 7) * 1000000 + (int64_t)q.below(1000000);
    ++start;
    while (start.load() < n) sched_yield();
    statements(q, per, color, false, 0);
    t_usec = -1;
    --running;
  };
  for (int t = 0; t < n; ++t) {
    if (r.chance(1, 2)) {
      kt.emplace_back(new kanon::Thread([&, t] { body(t); }, "worker" + std::to_string(t)));
      kt.back()->StartRun();
    } else
      st.emplace_back([&, t] { body(t); });
  }
  if (!wait_for([&] { return running.load() == 0; }, 6000)) VFATAL("hang:log", "logging threads never finish");
  for (auto &t : kt) t->Join();
  for (auto &t : st) t.join();
  if (g_stray.load()) viol("wrong-thread", "a record was handed out on a thread that did not log it");
  kanon::Logger::SetLogLevel(kanon::Logger::KANON_LL_INFO);
  capture(false);
  count("thread_rounds");
  seen(mix(mix(21, n), seeds[0]));
}

static void k20_child(Rng &r) {
  int k = (int)r.below(4);
  uint64_t h = mix(22, k);
  if (k == 0) {  // standard output, fatal
    int n = (int)r.below(30);
    int fatal = (int)r.below(2);
    ChildResult c = spawn({"--mode", "child", "--what", "stdout", "--n", std::to_string(n), "--fatal", std::to_string(fatal)}, {});
    size_t at = 0;
    if (c.hung) viol("hang:fatal", "process does not end");
    else if (fatal ? !aborted(c) : exit_code(c) != 0) viol("child-status", "%s: the process ended with %d", fatal ? "fatal" : "exit", exit_code(c));
    for (int i = 0; i < n; ++i) {
      std::string want = "line " + std::to_string(i) + ". - h_log.cc:";
      size_t p = c.out.find(want, at);
      if (p == std::string::npos) { viol("stdout-lost", "statement %d of %d is not on standard output", i, n); break; }
      at = p + 1;
    }
    if (fatal && c.out.find("the end - h_log.cc:", at) == std::string::npos) viol("stdout-lost", "the record of the fatal statement is not on standard output");
    if ((size_t)std::count(c.out.begin(), c.out.end(), '\n') != (size_t)(n + fatal)) viol("stdout-extra", "%zu lines of %d statements", (size_t)std::count(c.out.begin(), c.out.end(), '\n'), n + fatal);
    h = mix(h, (uint64_t)(n * 2 + fatal));
  } else if (k == 1) {  // levels from the environment
    static const struct { const char *v; int from; } kEnv[] = {{"trace", 0}, {"TRACE", 0}, {"Debug", 1}, {"warn", 3}, {"WARNING", 3}, {"error", 4},
        {"fatal", 6}, {"off", 9}, {"\x01", 2}, {"nonsense", 2}, {"info", 2}, {"", 2}};
    size_t i = r.below(sizeof kEnv / sizeof *kEnv);
    bool klog = !r.chance(1, 3);
    ChildResult c = spawn({"--mode", "child", "--what", "level"}, {{"KANON_LOG", kEnv[i].v}, {"KANON_LOG_ENABLE", klog ? "\x01" : "0"}});
    static const char *ms[] = {"is-trace", "is-debug", "is-info", "is-warn", "is-error", "is-syserror"};
    static const char *km[] = {"is-ktrace", "is-kdebug", "is-kinfo", "is-kwarn", "is-kerror"};
    if (exit_code(c) != 0) viol("child-status", "level child ended with %d", exit_code(c));
    for (int l = 0; l < 6; ++l)
      if ((c.out.find(ms[l]) != std::string::npos) != (l >= kEnv[i].from))
        viol("env-level", "KANON_LOG=%s: statement of level %s is %s", kEnv[i].v, kLevels[l], l >= kEnv[i].from ? "missing" : "written");
    for (int l = 0; l < 5; ++l)
      if ((c.out.find(km[l]) != std::string::npos) != (l >= kEnv[i].from && klog))
        viol("env-level", "KANON_LOG=%s library log %d: statement of level %s is wrong", kEnv[i].v, klog, kLevels[l]);
    h = mix(h, i * 2 + klog);
  } else if (k == 2) {  // the first statement of the process is about an error number
    int en = 1 + (int)r.below(100);
    static const char *tz[] = {":/nonexistent/zone", "\x01", "UTC0", ":Nowhere/Land"};
    int z = (int)r.below(4);
    ChildResult c = spawn({"--mode", "child", "--what", "syserr", "--errno", std::to_string(en)}, {{"TZ", tz[z]}});
    if (exit_code(c) != 0) viol("child-status", "error child ended with %d", exit_code(c));
    std::string want = "errno: " + std::to_string(en) + ", errmsg: " + std::string(strerror(en)) + " is-first - h_log.cc:";
    if (c.out.find(want) == std::string::npos)
      viol("errno-text", "first statement with errno %d (TZ=%s): %s", en, tz[z], c.out.c_str());
    h = mix(h, mix(en, z));
  } else {  // a fatal statement with installed callbacks
    int sys = (int)r.below(2);
    ChildResult c = spawn({"--mode", "child", "--what", "fatal-cb", "--sys", std::to_string(sys), "--level", std::to_string(r.below(3))}, {});
    if (!aborted(c)) viol("child-status", "fatal: the process ended with %d", exit_code(c));
    size_t a = c.out.find("OUT["), b = c.out.find("the end"), f = c.out.find("FLUSH;");
    if (a == std::string::npos || b == std::string::npos) viol("fatal-record", "the fatal record was not handed to the output function");
    else if (f == std::string::npos || f < b) viol("fatal-flush", "no flush after the fatal record");
    if (c.out.find("AFTER") != std::string::npos) viol("fatal-continues", "the process went on after a fatal statement");
    h = mix(h, sys);
  }
  count("logger_children");
  seen(h);
}

int main(int argc, char **argv) {
  init(argc, argv);
  char hb[256] = "";
  gethostname(hb, sizeof hb);
  g_host = hb;
  if (C().mode == "child") {
    if (C().opt["what"] == "fatal-cb") {
      kanon::Logger::SetOutputCallback([](char const *d, size_t n) {
        std::string s = "OUT[" + std::string(d, n) + "]";
        ssize_t w = ::write(1, s.data(), s.size()); (void)w;
      });
      kanon::Logger::SetFlushCallback([] { ssize_t w = ::write(1, "FLUSH;", 6); (void)w; });
      kanon::Logger::SetLogLevel(opt_int("level", 0) == 0 ? kanon::Logger::KANON_LL_TRACE : opt_int("level", 0) == 1 ? kanon::Logger::KANON_LL_OFF : kanon::Logger::KANON_LL_INFO);
      if (opt_int("sys", 0)) { errno = 5; LOG_SYSFATAL << "the end"; }
      else LOG_FATAL << "the end";
      ssize_t w = ::write(1, "AFTER", 5); (void)w;
      return 0;
    }
    return child_main();
  }
  kanon::Logger::SetColor(false);
  bool tsan = is_tsan();
  std::string m = C().mode;
  run_cases([&](long i, Rng &r) {
    if (m == "k19") {
      int k = (int)opt_int("kind", (long)r.below(10));
      if (tsan ? k < 3 : k < 7) k19_single(i, r);
      else if (k < 9) k19_threads(i, r);
      else k19_setup(i, r);
    } else if (m == "k18") {
      if (opt_int("kind", -1) < 0 && r.chance(1, 8)) k18_child(r);
      else k18_case(i, r);
    } else {
      int k = (int)opt_int("kind", (long)r.below(100));
      if (k < 2) k20_child(r);
      else if (tsan ? k < 60 : k < 12) k20_threads(i, r);
      else k20_one(i, r);
    }
  });
  finish();
  return 0;
}
