// K14: ChunkList against a std::string model; writes under injected short writes and errors.
#include "vh.h"
#include "kanon/net/chunk_list.h"
#include <sys/socket.h>
#include <sys/uio.h>
#include <errno.h>
using namespace kanon;
using vh::Rng;

// ---- faults on the descriptor under test
static int g_fd = -1;
static Rng *g_rng = nullptr;
static bool g_faults = false;
static std::string g_acc;       // bytes the "kernel" accepted
static int g_err = 0;           // error injected last
static long g_calls = 0;
extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
static ssize_t accept_iov(const struct iovec *v, int n) {
  ++g_calls;
  g_err = 0;
  if (n <= 0 || n > 1024) { errno = g_err = EINVAL; return -1; }
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  size_t lim = total;
  if (g_faults) {
    switch (g_rng->below(6)) {
    case 0: {
      static const int es[] = {EAGAIN, EINTR, EPIPE, ECONNRESET, ENOBUFS};
      errno = g_err = es[g_rng->below(5)];
      return -1;
    }
    case 1: case 2: lim = g_rng->below(total + 1); break;
    case 3: lim = std::min<size_t>(total, g_rng->below(5)); break;
    default: break;
    }
  }
  size_t left = lim;
  for (int i = 0; i < n && left; ++i) {
    size_t k = std::min(left, v[i].iov_len);
    g_acc.append((const char *)v[i].iov_base, k);
    left -= k;
  }
  return (ssize_t)lim;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (fd == g_fd && fd >= 0) { struct iovec v = {(void *)p, n}; return accept_iov(&v, 1); }
  return __real_write(fd, p, n);
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
  if (fd == g_fd && fd >= 0) return accept_iov(v, n);
  return __real_writev(fd, v, n);
}
}

static std::string flat(const ChunkList &c) {
  std::string s;
  for (auto it = c.begin(); it != c.end(); ++it) {
    auto v = it->ToStringView();
    s.append(v.data(), v.size());
  }
  return s;
}
static bool check(const char *op, ChunkList &c, const std::string &m) {
  if (c.GetReadableSize() != m.size()) {
    vh::viol("chunk-size", "after %s: readable=%zu expected=%zu chunks=%zu", op, (size_t)c.GetReadableSize(), m.size(), (size_t)c.GetChunkSize());
    return false;
  }
  std::string f = flat(c);
  if (f != m) {
    size_t i = 0;
    while (i < f.size() && i < m.size() && f[i] == m[i]) ++i;
    vh::viol("chunk-content", "after %s: %zu bytes, expected %zu, first difference at %zu", op, f.size(), m.size(), i);
    return false;
  }
  if (m.empty() && c.HasReadable()) { vh::viol("chunk-ghost", "after %s: no bytes but reported readable (%zu chunks)", op, (size_t)c.GetChunkSize()); return false; }
  if (!m.empty() && c.GetFirstChunk()->GetReadableSize() == 0) { vh::viol("chunk-first-empty", "after %s: %zu bytes but the first chunk has none", op, m.size()); return false; }
  if (!m.empty() && (c.IsEmpty() || !c.HasReadable())) { vh::viol("chunk-empty", "after %s: %zu bytes but reported empty", op, m.size()); return false; }
  size_t n = 0;
  for (auto it = c.begin(); it != c.end(); ++it) ++n;
  if (n != c.GetChunkSize()) { vh::viol("chunk-count", "after %s: %zu chunks, reports %zu", op, n, (size_t)c.GetChunkSize()); return false; }
  return true;
}
static size_t pick_size(Rng &r) {
  switch (r.below(12)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return r.below(9);
  case 3: return 4096 + r.below(3) - 1;
  case 4: return 4088 + r.below(3) - 1;
  case 5: return 4096 * r.below(4) + r.below(20);
  case 6: return 8192 + r.below(30) - 15;
  case 7: return r.below(20000);
  default: return r.below(300);
  }
}
struct L {
  ChunkList c;
  std::string m;
};

int main(int argc, char **argv) {
  vh::init(argc, argv);
  int devnull = open("/dev/null", O_WRONLY);
  g_fd = devnull;
  vh::run_cases([&](long ci, Rng &r) {
    g_rng = &r;
    std::vector<L> ls(2);
    int nops = 4 + r.below(50);
    bool huge = r.below(200) == 0;
    uint64_t h = 7;
    std::string ops;
    long writes = 0, faults = 0;
    for (int k = 0; k < nops; ++k) {
      int w = r.below(2);
      L &a = ls[w], &b = ls[1 - w];
      int op = r.below(22);
      const char *name = "?";
      size_t sz = 0;
      switch (op) {
      case 0: case 1: case 2: case 3: {
        name = "append"; sz = pick_size(r);
        std::string s = r.bytes(sz);
        if (r.chance(1, 2)) a.c.Append(s.data(), s.size()); else a.c.Append(StringView(s));
        a.m += s;
        break;
      }
      case 4: {
        name = "append_huge";
        if (!huge) break;
        sz = 4096 * 1024 + r.below(4096 * 1500);
        std::string s(sz, 0);
        uint64_t x = r.next();
        for (size_t i = 0; i + 8 <= sz; i += 8) { x = x * 6364136223846793005ull + 1; memcpy(&s[i], &x, 8); }
        a.c.Append(s.data(), s.size());
        a.m += s;
        huge = false;
        break;
      }
      case 5: {
        name = "append_int";
        uint64_t v = r.next();
        char be[8];
        for (int i = 0; i < 8; ++i) be[i] = (char)(v >> (8 * (7 - i)));
        switch (r.below(4)) {
        case 0: a.c.Append8((uint8_t)v); a.m.append(be + 7, 1); sz = 1; break;
        case 1: a.c.Append16((uint16_t)v); a.m.append(be + 6, 2); sz = 2; break;
        case 2: a.c.Append32((uint32_t)v); a.m.append(be + 4, 4); sz = 4; break;
        default: a.c.Append64(v); a.m.append(be, 8); sz = 8; break;
        }
        break;
      }
      case 6: case 7: {
        name = "prepend";
        // room for a header exists in a fresh list, or when the first chunk has 8 bytes read or reserved
        if (!a.c.IsEmpty()) {
          Chunk *f = a.c.GetFirstChunk();
          if (f->GetMaxSize() - f->GetWritableSize() - f->GetReadableSize() < 8) break;
        }
        uint64_t v = r.next();
        char be[8];
        for (int i = 0; i < 8; ++i) be[i] = (char)(v >> (8 * (7 - i)));
        switch (r.below(5)) {
        case 0: a.c.Prepend8((uint8_t)v); a.m.insert(0, be + 7, 1); break;
        case 1: a.c.Prepend16((uint16_t)v); a.m.insert(0, be + 6, 2); break;
        case 2: a.c.Prepend32((uint32_t)v); a.m.insert(0, be + 4, 4); break;
        case 3: a.c.Prepend64(v); a.m.insert(0, be, 8); break;
        default: { std::string s = r.bytes(1 + r.below(8)); a.c.Prepend(s.data(), s.size()); a.m.insert(0, s); }
        }
        break;
      }
      case 8: case 9: {
        name = "advance";
        sz = r.chance(1, 4) ? a.m.size() : std::min<size_t>(a.m.size(), pick_size(r));
        if (sz == a.m.size() && r.chance(1, 2)) a.c.AdvanceReadAll(); else a.c.AdvanceRead(sz);
        a.m.erase(0, sz);
        break;
      }
      case 10: {
        name = "read_int";
        if (a.c.IsEmpty()) break;
        size_t first = a.c.GetFirstChunk()->GetReadableSize();
        size_t n = (size_t)1 << r.below(4);
        if (first < n) break;
        uint64_t want = 0, got = 0;
        for (size_t i = 0; i < n; ++i) want = want << 8 | (unsigned char)a.m[i];
        bool peek = r.chance(1, 2);
        switch (n) {
        case 1: got = peek ? a.c.GetReadBegin8() : a.c.Read8(); break;
        case 2: got = peek ? a.c.GetReadBegin16() : a.c.Read16(); break;
        case 4: got = peek ? a.c.GetReadBegin32() : a.c.Read32(); break;
        default: got = peek ? a.c.GetReadBegin64() : a.c.Read64(); break;
        }
        if (got != want) vh::viol("chunk-int", "read %zu-byte integer %llx, expected %llx", n, (unsigned long long)got, (unsigned long long)want);
        if (!peek) a.m.erase(0, n);
        sz = n;
        break;
      }
      case 11: case 12: {
        name = "merge";
        a.c.AppendChunkList(&b.c);
        a.m += b.m;
        b.m.clear();
        break;
      }
      case 13: name = "swap"; if (r.chance(1, 2)) a.c.swap(b.c); else kanon::swap(a.c, b.c); std::swap(a.m, b.m); break;
      case 14: {
        name = "move";
        ChunkList t(std::move(a.c));
        if (!check("move-ctor", t, a.m)) return;
        a.c = std::move(t);
        break;
      }
      case 15: name = "move_over"; a.c = std::move(b.c); a.m = b.m; b.c.AdvanceReadAll(); b.m.clear(); break;  // moved-from contents are unspecified
      case 16: {
        name = "clone";
        ChunkList t = a.c.Clone();
        if (!check("clone", t, a.m)) return;
        t.Append("xyz", 3);  // must not be shared
        std::string tm = a.m + "xyz";
        if (!check("clone-append", t, tm)) return;
        break;
      }
      case 17: name = "copy_assign"; a.c.CopyAssign(b.c); a.m = b.m; break;
      case 18: {
        name = "shrink"; sz = r.below(6);
        size_t before = a.c.GetFreeChunkSize();
        if (r.chance(1, 2)) a.c.Shrink(sz); else a.c.ShrinkChunk(sz);
        if (a.c.GetFreeChunkSize() != std::min(before, sz)) vh::viol("chunk-shrink", "free chunks %zu -> %zu, limit %zu", before, (size_t)a.c.GetFreeChunkSize(), sz);
        break;
      }
      case 19: {
        name = "reserve"; sz = pick_size(r);
        a.c.ReserveWriteSpace(sz);
        break;
      }
      case 20: {
        name = "reserve_free"; sz = r.below(6);
        a.c.ReserveFreeChunk(sz);
        if (r.chance(1, 300)) { a.c.DebugPrint(); b.c.DebugPrint(); }
        if (a.c.GetFreeChunkSize() < sz) vh::viol("chunk-reserve", "reserved %zu, free %zu", sz, (size_t)a.c.GetFreeChunkSize());
        break;
      }
      default: {
        name = "write_fd";
        g_faults = r.chance(2, 3);
        g_acc.clear(); g_err = 0;
        int se = 0x7777;
        size_t n = r.chance(1, 5) ? ChunkListWriteFd(a.c, g_fd) : ChunkListWriteFd(a.c, g_fd, se);
        sz = n;
        ++writes;
        if (g_err) ++faults;
        if (n != g_acc.size()) { vh::viol("chunk-write-count", "reported %zu written, the kernel took %zu of %zu", n, g_acc.size(), a.m.size()); return; }
        if (g_acc.compare(0, std::string::npos, a.m, 0, g_acc.size()) != 0) { vh::viol("chunk-write-bytes", "wrong bytes written (%zu of %zu)", n, a.m.size()); return; }
        if (g_err && se != 0x7777 && se != g_err) { vh::viol("chunk-write-errno", "error %d reported as %d", g_err, se); return; }
        if (!g_faults && n != a.m.size()) { vh::viol("chunk-write-all", "%zu of %zu written though the kernel takes all", n, a.m.size()); return; }
        if (!check("write", a.c, a.m)) return;
        a.c.AdvanceRead(n);
        a.m.erase(0, n);
        break;
      }
      }
      h = vh::mix(vh::mix(h, op), sz);
      if (ci < 3) { ops += name; ops += "(" + std::to_string(sz) + ") "; }
      if (!check(name, a.c, a.m) || !check(name, b.c, b.m)) return;
    }
    vh::seen(h);
    vh::count("ops", nops);
    vh::count("fd_writes", writes);
    vh::count("write_errors", faults);
    if (ci < 3) vh::sample(ops);
  });
  g_fd = -1;
  vh::finish();
  return 0;
}
