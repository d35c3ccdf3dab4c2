// K16: ReservedArray against std::vector.
#include "vh.h"
#include "kanon/algo/reserved_array.h"
#include <stdexcept>
using namespace kanon::algo;
using vh::Rng;
using vh::Tracked;

struct Fancy : Tracked {  // opts in to realloc; bitwise relocatable
  static constexpr bool can_reallocate = true;
  Fancy() noexcept : Tracked(0) {}
  Fancy(int v) : Tracked(v) {}
};
struct FancyNE : Fancy {  // also nothrow copy-assignable: the realloc copy-assignment path
  FancyNE() noexcept {}
  FancyNE(int v) : Fancy(v) {}
  FancyNE(const FancyNE &o) noexcept : Fancy(o) {}
  FancyNE &operator=(const FancyNE &o) noexcept { Fancy::operator=(o); return *this; }
};
struct Thrower : Tracked {  // copy and default construction may throw
  static long &budget() { static long b = -1; return b; }
  static void tick() { if (budget() >= 0 && budget()-- == 0) throw std::runtime_error("injected"); }
  struct G { G() { Thrower::tick(); } G(const G &) { Thrower::tick(); } G &operator=(const G &) { Thrower::tick(); return *this; } } g;
  Thrower() : Tracked(0) {}
  Thrower(int v) : Tracked(v) {}
  Thrower(const Thrower &o) : Tracked(o), g(o.g) {}
  Thrower &operator=(const Thrower &o) { G x(o.g); Tracked::operator=(o); return *this; }
};

template <class T> struct Val { static T make(Rng &r) { return T((int)r.below(1000)); } static bool eq(const T &a, const T &b) { return a == b; } };
template <> struct Val<std::string> {
  static std::string make(Rng &r) { return r.bytes(r.below(40)); }
  static bool eq(const std::string &a, const std::string &b) { return a == b; }
};
template <class T> static bool same(const char *op, const ReservedArray<T> &a, const std::vector<T> &m, const std::vector<char> &known) {
  if (a.size() != m.size() || a.GetSize() != m.size() || a.empty() != m.empty() || (size_t)(a.end() - a.begin()) != m.size()) {
    vh::viol("array-size", "%s: size=%zu expected=%zu", op, a.size(), m.size());
    return false;
  }
  for (size_t i = 0; i < m.size(); ++i)
    if (known[i] && !Val<T>::eq(a[i], m[i])) { vh::viol("array-content", "%s: element %zu of %zu differs", op, i, m.size()); return false; }
  if (a.size() && (a.data() != a.begin() || a.cbegin() != a.begin() || a.cend() != a.end())) { vh::viol("array-iter", "%s", op); return false; }
  return true;
}
static size_t psize(Rng &r) { return r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.below(2000) : r.below(40); }

template <class T, bool Uninit, bool Throws> static void one(const char *tn, Rng &r) {
  long live0 = Tracked::live().load();
  uint64_t sig = vh::hash_str(tn, strlen(tn));
  std::string trace = tn;
  {
    struct A { ReservedArray<T> a; std::vector<T> m; std::vector<char> k; A(size_t n) : a(n), m(n), k(n, !Uninit) {} A() {} };
    std::vector<std::unique_ptr<A>> v;
    auto fresh = [&](size_t n, bool def) { v.emplace_back(def ? new A() : new A(n)); };
    fresh(psize(r), r.chance(1, 4));
    fresh(psize(r), r.chance(1, 4));
    int n = 4 + (int)r.below(30);
    for (int i = 0; i < n; ++i) {
      A &x = *v[r.below(2)], &y = *v[r.below(2)];
      int op = (int)r.below(12);
      size_t k = psize(r);
      sig = vh::mix(sig, op * 4096 + k);
      trace += " " + std::to_string(op) + ":" + std::to_string(k);
      bool inject = Throws && r.chance(1, 3);
      if (inject) Thrower::budget() = (long)r.below(30);
      try {
        switch (op) {
        case 0: case 1: x.a.Grow(k); Thrower::budget() = -1; if (k > x.m.size()) { x.m.resize(k); x.k.resize(k, !Uninit); } break;
        case 2: case 3: x.a.Shrink(k); Thrower::budget() = -1; if (k < x.m.size()) { x.m.resize(k); x.k.resize(k); } break;
        case 4: case 5: Thrower::budget() = -1; for (size_t j = 0; j < x.m.size(); ++j) { T t = Val<T>::make(r); x.a[j] = t; x.m[j] = t; x.k[j] = 1; } break;
        case 6: if (x.m.size()) { Thrower::budget() = -1; size_t j = r.below(x.m.size()); T t = Val<T>::make(r); x.a.begin()[j] = t; x.m[j] = t; x.k[j] = 1; } break;
        case 7: x.a = y.a; Thrower::budget() = -1; x.m = std::vector<T>(y.m); x.k = std::vector<char>(y.k); break;
        case 8: { ReservedArray<T> c(x.a); Thrower::budget() = -1; if (!same("copy-ctor", c, x.m, x.k)) return; break; }
        case 9: { ReservedArray<T> c(std::move(x.a)); if (!same("move-ctor", c, x.m, x.k)) return; x.a = std::move(c); break; }
        case 10: x.a.swap(y.a); if (&x != &y) { x.m.swap(y.m); x.k.swap(y.k); } break;
        case 11: { std::swap(x.a, y.a); if (&x != &y) { x.m.swap(y.m); x.k.swap(y.k); } break; }
        }
      } catch (std::runtime_error &) { vh::count("injected_throws"); }
      catch (std::bad_alloc &) { vh::viol("array-badalloc", "%s", trace.c_str()); return; }
      Thrower::budget() = -1;
      vh::count("ops");
      if (!same(trace.c_str(), x.a, x.m, x.k) || !same(trace.c_str(), y.a, y.m, y.k)) return;
      long expect = live0;
      for (auto &p : v) expect += 2 * (long)p->m.size();
      if (std::is_base_of<Tracked, T>::value && Tracked::live().load() != expect) {
        vh::viol("array-lifetime", "live=%ld expected=%ld after %s", Tracked::live().load(), expect, trace.c_str());
        return;
      }
    }
  }
  if (Tracked::errors().load()) vh::viol("array-lifetime", "use or destruction of a dead element: %s", trace.c_str());
  if (Tracked::live().load() != live0) vh::viol("array-lifetime", "%ld elements alive after destruction: %s", Tracked::live().load() - live0, trace.c_str());
  vh::seen(sig);
  vh::sample(trace);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  vh::run_cases([&](long i, Rng &r) {
    switch (i % 7) {
    case 0: one<int, true, false>("int", r); break;
    case 1: one<std::string, false, false>("string", r); break;
    case 2: one<Tracked, false, false>("tracked", r); break;
    case 3: one<Fancy, false, false>("realloc-class", r); break;
    case 4: one<Thrower, false, true>("throwing", r); break;
    case 6: one<FancyNE, false, false>("realloc-ne", r); break;
    case 5: one<char, true, false>("char", r); break;
    }
  });
  vh::finish();
}
