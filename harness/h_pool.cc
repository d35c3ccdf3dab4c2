// K17: FixedChunkMemoryPool, ObjectMemoryPool, LinearFixedMemoryPool and
// ObjectPoolAllocator against an interval map of what is handed out.
#include "vh.h"
#include "kanon/util/macro.h"
#include "kanon/mem/linear_fixed_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#include <cstddef>
#include <list>
#include <map>
#include <set>
#include <stdexcept>
using namespace kanon;
using vh::Rng;

static thread_local int t_fail = 0;  // the n-th allocation of the pool fails
extern "C" {
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void *__real_reallocarray(void *, size_t, size_t);
static bool fails(size_t n) { return (t_fail && --t_fail == 0) || n >> 40; }  // sanitizers refuse huge sizes by dying
void *__wrap_malloc(size_t n) { return fails(n) ? nullptr : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return fails(n) ? nullptr : __real_realloc(p, n); }
void *__wrap_reallocarray(void *p, size_t m, size_t n) { return fails(m > (1u << 20) || n > (1u << 20) ? SIZE_MAX : m * n) ? nullptr : __real_reallocarray(p, m, n); }
}
// bytes this thread ever allocated (the library's and ours; the heartbeat thread has its own)
static thread_local size_t t_allocated;
static void on_malloc(const volatile void *, size_t n) { t_allocated += n; }
static void on_free(const volatile void *) {}
static size_t heap() { return t_allocated; }

// what is handed out, filled with a pattern of its own
struct Live {
  struct B { size_t n; uint64_t pat; };
  std::map<char *, B> m;
  uint64_t seq = 0;
  static unsigned char at(uint64_t p, size_t i) { return (unsigned char)((p * 0x9e3779b97f4a7c15ull + i * 0x2545f4914f6cdd1dull) >> 37); }
  bool add(const char *what, void *vp, size_t n, size_t align) {
    char *p = (char *)vp;
    if ((uintptr_t)p % align) { vh::viol("misaligned", "%s: %zu bytes at %%%zu = %zu", what, n, align, (size_t)((uintptr_t)p % align)); return false; }
    if (__asan_region_is_poisoned(p, n)) { vh::viol("outside", "%s: %zu bytes are not all inside allocated memory", what, n); return false; }
    auto it = m.upper_bound(p);
    if (it != m.end() && it->first < p + n) { vh::viol("overlap", "%s: %zu bytes overlap a handed out block", what, n); return false; }
    if (it != m.begin() && (--it)->first + it->second.n > p) { vh::viol("overlap", "%s: %zu bytes overlap a handed out block", what, n); return false; }
    B b{n, ++seq};
    for (size_t i = 0; i < n; ++i) p[i] = (char)at(b.pat, i);
    m[p] = b;
    return true;
  }
  bool intact(const char *what, char *p, B const &b) {
    if (__asan_region_is_poisoned(p, b.n)) { vh::viol("vanished", "%s: a handed out block of %zu bytes is not allocated any more", what, b.n); return false; }
    for (size_t i = 0; i < b.n; ++i)
      if ((unsigned char)p[i] != at(b.pat, i)) { vh::viol("changed", "%s: byte %zu of a handed out block of %zu changed", what, i, b.n); return false; }
    return true;
  }
  bool all(const char *what) {
    for (auto &x : m) if (!intact(what, x.first, x.second)) return false;
    return true;
  }
  char *pick(Rng &r) {
    auto it = m.begin();
    std::advance(it, (long)r.below(m.size()));
    return it->first;
  }
};
// start of the heap region an address lies in
static void *region(void *p) {
  char name[8];
  void *a = nullptr;
  size_t n = 0;
  __asan_locate_address(p, name, sizeof name, &a, &n);
  return a;
}

static size_t g_sz, g_cpb;
static void t_fixed(Rng &r) {
  static const size_t sizes[] = {1, 3, 4, 7, 8, 9, 12, 13, 16, 17, 20, 24, 31, 32, 40, 48, 56, 63, 64, 72, 100, 127, 128, 200, 256, 500, 1000};
  size_t sz = r.chance(1, 6) ? 1 + r.below(300) : sizes[r.below(sizeof sizes / sizeof *sizes)];
  size_t cpb = r.chance(1, 4) ? 1 : r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 4) ? 64 : 8);
  g_sz = sz; g_cpb = cpb;
  size_t align = sz % 16 == 0 ? 16 : sz % 8 == 0 ? 8 : sz % 4 == 0 ? 4 : sz % 2 == 0 ? 2 : 1;
  Live L;
  std::string trace;
  uint64_t sig = vh::mix(sz, cpb);
  {
    FixedChunkMemoryPool pool(cpb);
    size_t cap = 0;  // chunks of all blocks
    std::map<void *, size_t> blocks;  // region -> chunks
    std::multimap<void *, char *> where;
    auto state = [&](const char *what) {
      size_t fr = pool.GetFreeChunkNum(sz);
      if (fr + L.m.size() != cap) vh::viol("free-count", "%s: %zu free chunks reported, %zu chunks of which %zu are handed out [sz=%zu %s]", what, fr, cap, L.m.size(), sz, trace.c_str());
      if (pool.GetBlockNum() != blocks.size()) vh::viol("block-count", "%s: %zu blocks reported, %zu allocated [sz=%zu %s]", what, pool.GetBlockNum(), blocks.size(), sz, trace.c_str());
      size_t use = pool.GetUsage(sz);
      if (use < L.m.size() * sz) vh::viol("usage", "%s: usage %zu with %zu blocks of %zu handed out", what, use, L.m.size(), sz);
      if (L.m.empty() && blocks.empty() && use) vh::viol("usage", "%s: usage %zu of an empty pool", what, use);
    };
    int n = 10 + (int)r.below(120), bias = (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      unsigned op = (unsigned)r.below(20);
      if (op < 9 + (unsigned)bias) {
        bool must_reuse = cap > L.m.size();
        size_t before = heap();
        bool inject = !must_reuse && r.chance(1, 6);
        t_fail = inject ? 1 : 0;
        void *p = pool.Malloc(sz);
        size_t after = heap();
        bool failed = inject && t_fail == 0;
        t_fail = 0;
        trace += 'm';
        vh::count("fixed_mallocs");
        if (failed) {
          vh::count("alloc_failures");
          if (p) vh::viol("alloc-failure", "Malloc() returned a block though memory is exhausted");
          continue;
        }
        if (!p) { vh::viol("no-block", "Malloc(%zu) returned nothing [%s]", sz, trace.c_str()); return; }
        if (must_reuse && after > before) vh::viol("not-reused", "Malloc() grew the pool with %zu free chunks [sz=%zu cpb=%zu %s]", cap - L.m.size(), sz, cpb, trace.c_str());
        if (!must_reuse) {
          if (!blocks.insert({region(p), pool.GetChunkPerBlock() ? pool.GetChunkPerBlock() : 1}).second) vh::viol("region", "the new chunk of a grown pool lies in an old block");
          cap += pool.GetChunkPerBlock() ? pool.GetChunkPerBlock() : 1;
          vh::count("grown");
        } else {
          vh::count("reused");
          if (!blocks.count(region(p))) vh::viol("region", "a reused chunk lies in no block of the pool");
        }
        if (!L.add("Malloc", p, sz, align)) return;
      } else if (op < 18) {
        if (L.m.empty()) continue;
        char *p = L.pick(r);
        if (!L.intact("Free", p, L.m[p])) return;
        L.m.erase(p);
        pool.Free(p);
        trace += 'f';
        vh::count("fixed_frees");
      } else if (op < 19) {
        trace += 'S';
        std::set<void *> used;
        for (auto &x : L.m) used.insert(region(x.first));
        pool.Shrink(sz);
        size_t freed = 0;
        for (auto it = blocks.begin(); it != blocks.end();)
          if (used.count(it->first)) ++it;
          else {
            if (!__asan_address_is_poisoned(it->first)) vh::viol("not-shrunk", "Shrink() kept a block without a handed out chunk [sz=%zu cpb=%zu %s]", sz, cpb, trace.c_str());
            cap -= it->second;
            it = blocks.erase(it);
            ++freed;
          }
        vh::count("shrinks");
        vh::count("shrunk_blocks", (long)freed);
      } else if (r.chance(1, 3)) {
        size_t k = 1 + r.below(9);
        pool.SetChunkPerBlock(k);
        trace += 'c' + std::to_string(k);
      } else {
        pool.Free(nullptr);
        if (pool.Malloc(0)) vh::viol("zero", "Malloc(0) returned a block");
      }
      if (r.chance(1, 4)) { if (!L.all(trace.c_str())) return; }
      state("state");
      sig = vh::mix(sig, op * 131 + L.m.size());
    }
    if (!L.all("at the end")) return;
    if (r.chance(1, 4)) {  // far too big: refused
      size_t huge = r.chance(1, 2) ? SIZE_MAX - r.below(64) : SIZE_MAX / (pool.GetChunkPerBlock() + 2) + r.below(100);
      FixedChunkMemoryPool p2(1 + r.below(5));
      if (p2.Malloc(huge)) vh::viol("huge", "Malloc(%zu) returned a block", huge);
      vh::count("huge");
    }
    if (r.chance(1, 2)) {
      while (!L.m.empty()) { char *p = L.pick(r); pool.Free(p); L.m.erase(p); }
      state("all given back");
      if (r.chance(1, 2)) {
        pool.Shrink(sz);
        if (pool.GetBlockNum() || pool.GetUsage(sz)) vh::viol("not-shrunk", "%zu blocks, usage %zu after everything was given back and the pool shrunk", pool.GetBlockNum(), pool.GetUsage(sz));
        if (r.chance(1, 2)) pool.Shrink(sz);
        void *p = pool.Malloc(sz);
        if (!p || !L.add("after shrinking", p, sz, align)) return;
        L.all("after shrinking");
      }
    }
    vh::count_max("live", (long)L.m.size());
    vh::sample("fixed sz=" + std::to_string(sz) + " cpb=" + std::to_string(cpb) + " " + trace.substr(0, 60));
  }
  L.m.clear();
  vh::seen(sig);
}

struct Obj16 { alignas(16) char b[48]; };
struct Obj3 { char b[3]; };
struct Obj24 { double a; char b[9]; };
template <class T> static void t_object(const char *tn, Rng &r) {
  Live L;
  ObjectMemoryPool<T> pool(1 + r.below(6));
  int n = 5 + (int)r.below(60);
  uint64_t sig = vh::hash_str(tn, strlen(tn));
  size_t most = 0;
  for (int i = 0; i < n; ++i) {
    unsigned op = (unsigned)r.below(16);
    if (op < 9) { void *p = pool.Malloc(); if (!p || !L.add(tn, p, sizeof(T), alignof(T))) return; }
    else if (op < 15) { if (L.m.empty()) continue; char *p = L.pick(r); if (!L.intact(tn, p, L.m[p])) return; L.m.erase(p); pool.Free(p); }
    else { pool.Shrink(); most = 0; }
    most = std::max(most, L.m.size());
    if (!L.all(tn)) return;
    if (pool.GetUsage() < most * sizeof(T)) vh::viol("usage", "%s: usage %zu with %zu objects of %zu", tn, pool.GetUsage(), most, sizeof(T));
    sig = vh::mix(sig, op * 31 + L.m.size());
    vh::count("object_ops");
  }
  vh::seen(sig);
}

template <class T> static void t_linear(const char *tn, Rng &r) {
  Live L;
  size_t cap = r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 4) ? 60 : 6);
  uint64_t sig = vh::mix(vh::hash_str(tn, strlen(tn)), cap);
  std::string trace = tn;
  {
    LinearFixedMemoryPool<T> pool(cap);
    std::set<char *> in;  // handed out from the pool itself
    int n = 10 + (int)r.below(80);
    for (int i = 0; i < n; ++i) {
      unsigned op = (unsigned)r.below(20);
      if (op < 11) {
        size_t fr = pool.freesize(), before = heap();
        T *p = pool.Malloc();
        size_t after = heap();
        trace += 'm';
        if (!p) { vh::viol("no-block", "linear %s: no block", trace.c_str()); return; }
        if (fr && after > before) vh::viol("not-reused", "linear %s: memory allocated with %zu free", trace.c_str(), fr);
        if (fr && pool.freesize() != fr - 1) vh::viol("free-count", "linear %s: %zu free, then %zu", trace.c_str(), fr, pool.freesize());
        if (!L.add("linear", p, sizeof(T), alignof(T))) return;
        if (fr) in.insert((char *)p);
        else vh::count("linear_overflow");
        vh::count("linear_mallocs");
      } else if (op < 18) {
        if (L.m.empty()) continue;
        char *p = L.pick(r);
        if (!L.intact("linear", p, L.m[p])) return;
        L.m.erase(p);
        size_t fr = pool.freesize();
        pool.Free((T *)p);
        trace += 'f';
        bool was_in = in.erase(p) != 0;
        if (was_in && pool.freesize() != fr + 1) vh::viol("free-count", "linear %s: %zu free, then %zu after giving back", trace.c_str(), fr, pool.freesize());
        if (!was_in && !__asan_address_is_poisoned(p) && pool.freesize() == fr) vh::viol("not-freed", "linear %s: a block beyond the pool is neither freed nor kept", trace.c_str());
      } else {
        size_t k = r.below(cap * 2 + 8);
        trace += 'R' + std::to_string(k);
        size_t fr = pool.freesize();
        bool inject = k > cap && r.chance(1, 5), failed = false;
        t_fail = inject ? 1 : 0;
        try { pool.Reserve(k); } catch (std::bad_alloc const &) { failed = true; }
        inject = inject && t_fail == 0;
        t_fail = 0;
        if (failed) {
          if (!inject) vh::viol("refused", "linear %s: Reserve() failed", trace.c_str());
          if (pool.size() != cap || pool.freesize() != fr) vh::viol("free-count", "linear %s: size changed by a failed Reserve()", trace.c_str());
          vh::count("alloc_failures");
        } else {
          size_t want = std::max(cap, k);
          if (pool.size() != want || pool.freesize() != fr + (want - cap)) vh::viol("free-count", "linear %s: size %zu free %zu after Reserve(%zu), was %zu/%zu", trace.c_str(), pool.size(), pool.freesize(), k, cap, fr);
          if (want != cap && !L.m.empty()) vh::count("reserved_with_live");
          cap = want;
        }
      }
      if (pool.size() != cap) vh::viol("free-count", "linear %s: size %zu expected %zu", trace.c_str(), pool.size(), cap);
      if (pool.freesize() + in.size() != cap) vh::viol("free-count", "linear %s: %zu free + %zu out of %zu", trace.c_str(), pool.freesize(), in.size(), cap);
      if (!L.all(trace.c_str())) return;
      sig = vh::mix(sig, op * 37 + L.m.size());
    }
    while (!L.m.empty()) {  // blocks beyond the pool have no other owner
      char *p = L.pick(r);
      L.m.erase(p);
      if (!in.count(p) || r.chance(1, 2)) pool.Free((T *)p);
    }
  }
  vh::seen(sig);
  vh::sample("linear " + trace.substr(0, 60));
}

struct Boom { static int &left() { static int n = -1; return n; } };
struct Item : vh::Tracked {
  Item(int v) : vh::Tracked(v) { tick(); }
  Item(Item const &o) : vh::Tracked(o) { tick(); }
  Item &operator=(Item const &) = default;
  static void tick() { if (Boom::left() >= 0 && Boom::left()-- == 0) throw std::runtime_error("injected"); }
};
static bool operator<(Item const &a, Item const &b) { return a.v < b.v; }

static void t_alloc(Rng &r) {
  typedef std::list<Item, ObjectPoolAllocator<Item>> PL;
  typedef std::map<int, std::string, std::less<int>, ObjectPoolAllocator<std::pair<const int, std::string>>> PM;
  long live0 = vh::Tracked::live().load();
  uint64_t sig = 77;
  {
    FixedChunkMemoryPool lp(1 + r.below(9)), mp(1 + r.below(9)), sp(1 + r.below(4));
    ObjectPoolAllocator<Item> la(lp);
    PL a(la), b(la);
    std::list<int> ma, mb;
    PM m{std::less<int>(), ObjectPoolAllocator<std::pair<const int, std::string>>(mp)};
    std::map<int, std::string> mm;
    std::vector<std::shared_ptr<Item>> sh;
    auto same = [&](PL &x, std::list<int> &y) {
      if (x.size() != y.size()) return false;
      auto i = y.begin();
      for (auto &e : x) if (e.v != *i++) return false;
      return true;
    };
    int n = 10 + (int)r.below(80);
    for (int i = 0; i < n; ++i) {
      PL &x = r.chance(1, 2) ? a : b;
      PL &y = &x == &a ? b : a;
      std::list<int> &xm = &x == &a ? ma : mb, &ym = &x == &a ? mb : ma;
      int v = (int)r.below(1000);
      unsigned op = (unsigned)r.below(16);
      bool boom = r.chance(1, 10);
      if (boom) Boom::left() = 0;
      try {
        switch (op) {
        case 0: case 1: case 2: x.push_back(v); xm.push_back(v); break;
        case 3: case 4: { auto p = x.begin(); auto q = xm.begin(); long k = (long)r.below(x.size() + 1); std::advance(p, k); std::advance(q, k); x.emplace(p, v); xm.insert(q, v); break; }
        case 5: case 6: if (!x.empty()) { auto p = x.begin(); auto q = xm.begin(); long k = (long)r.below(x.size()); std::advance(p, k); std::advance(q, k); x.erase(p); xm.erase(q); } break;
        case 7: x.splice(x.begin(), y); xm.splice(xm.begin(), ym); break;
        case 8: Boom::left() = -1; x.swap(y); xm.swap(ym); break;
        case 9: { PL c(x); if (!same(c, xm)) vh::viol("alloc-content", "a copied list differs"); break; }
        case 10: m[v % 50] = std::string((size_t)v % 40, 'x'); mm[v % 50] = std::string((size_t)v % 40, 'x'); break;
        case 11: if (m.erase(v % 50) != mm.erase(v % 50)) vh::viol("alloc-content", "map erase differs"); break;
        case 12: sh.push_back(std::allocate_shared<Item>(ObjectPoolAllocator<Item>(sp), v)); break;
        case 13: if (!sh.empty()) sh.erase(sh.begin() + (long)r.below(sh.size())); break;
        case 14: x.sort(); xm.sort(); break;
        default: {
          ObjectPoolAllocator<int> al(lp);
          bool refused = false;
          if (r.chance(1, 2)) t_fail = 1;
          bool one = t_fail && lp.GetFreeChunkNum(sizeof(void *) * 2 + sizeof(Item)) == 0;
          try { (void)(one ? al.allocate(1) : (t_fail = 0, al.allocate(2 + r.below(5)))); } catch (std::bad_alloc const &) { refused = true; }
          t_fail = 0;
          if (!refused) vh::viol("alloc-refuse", "allocate() neither delivers nor throws bad_alloc");
          if (!(al == la) || al != la || !(la == al)) vh::viol("alloc-equal", "comparison across types");
          if (!(al == ObjectPoolAllocator<int>(lp)) || al != ObjectPoolAllocator<int>(lp) || al == ObjectPoolAllocator<int>(mp)) vh::viol("alloc-equal", "comparison");
        }
        }
      } catch (std::runtime_error const &) {
        vh::count("injected_throws");
      }
      Boom::left() = -1;
      t_fail = 0;
      if (!same(a, ma) || !same(b, mb)) { vh::viol("alloc-content", "list differs after operation %u", op); return; }
      if (m.size() != mm.size() || !std::equal(m.begin(), m.end(), mm.begin())) { vh::viol("alloc-content", "map differs after operation %u", op); return; }
      sig = vh::mix(sig, op * 101 + a.size() * 7 + b.size());
      vh::count("alloc_ops");
    }
    sh.clear();
  }
  if (vh::Tracked::live().load() != live0) vh::viol("alloc-leak", "%ld objects left", vh::Tracked::live().load() - live0);
  if (vh::Tracked::errors().load()) { vh::viol("alloc-lifetime", "objects destroyed twice or used dead"); vh::Tracked::errors() = 0; }
  vh::seen(sig);
}

static void one(long, Rng &r) {
  switch (r.below(12)) {
  case 0: case 1: case 2: case 3: case 4: t_fixed(r); break;
  case 5: switch (r.below(5)) {
    case 0: t_object<int>("int", r); break;
    case 1: t_object<Obj3>("3 bytes", r); break;
    case 2: t_object<Obj24>("24 bytes", r); break;
    case 3: t_object<Obj16>("16-aligned", r); break;
    default: t_object<long double>("long double", r); break;
    } break;
  case 6: case 7: case 8: switch (r.below(4)) {
    case 0: t_linear<int>("int", r); break;
    case 1: t_linear<Obj3>("3 bytes", r); break;
    case 2: t_linear<Obj16>("16-aligned", r); break;
    default: t_linear<Obj24>("24 bytes", r); break;
    } break;
  default: t_alloc(r); break;
  }
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) { puts("no malloc hooks"); return 3; }
  vh::run_cases([](long i, Rng &r) { one(i, r); });
  vh::finish();
}
