// K27: value holders (Any, UniqueAny, RawAny, optional), time stamps and the
// smart pointer helpers against simple models.
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/raw_any.h"
#include "kanon/util/optional.h"
#include "kanon/util/time_stamp.h"
#include "kanon/util/ptr.h"

#include <cmath>
#include <ctime>
#include <memory>
#include <new>
#include <string>
#include <sys/time.h>
#include <vector>

#include "vh.h"
using namespace vh;
using kanon::Any;
using kanon::UniqueAny;
using kanon::RawAny;
using kanon::TimeStamp;
using kanon::optional;

static const char *P = "k27";
static std::string key(const char *k) { return std::string(P) + "." + k; }
#define BAD(k, ...) viol(key(k).c_str(), __VA_ARGS__)

struct Boom {};
static int g_fuse = -1;  // copies until one throws; -1: never
struct Throwy {
  Tracked t;
  Throwy(int v = 0) : t(v) {}
  Throwy(const Throwy &o) : t(o.t) { if (g_fuse >= 0 && g_fuse-- == 0) { g_fuse = -1; throw Boom(); } }
  Throwy(Throwy &&o) noexcept : t(std::move(o.t)) {}
  Throwy &operator=(const Throwy &o) {
    if (g_fuse >= 0 && g_fuse-- == 0) { g_fuse = -1; throw Boom(); }
    t = o.t;
    return *this;
  }
  Throwy &operator=(Throwy &&o) noexcept { t = std::move(o.t); return *this; }
};
struct Big { long a[24]; };
struct alignas(16) Odd { char c[16]; char d; };
struct MoveOnly {
  Tracked t;
  MoveOnly(int v) : t(v) {}
  MoveOnly(MoveOnly &&) = default;
  MoveOnly &operator=(MoveOnly &&) = default;
};
struct Base1 { virtual ~Base1() {} int x = 11; };
struct Base2 { virtual ~Base2() {} int y = 22; };
struct Derived : Base1, Base2 { Tracked t; Derived(int v) : t(v) {} };

static long one_fn(long x) { return x + 1; }
typedef long (*Fn)(long);

// --- value kinds ---------------------------------------------------------
template <class T> struct Val;
#define VAL(T, MK, GET)                                  \
  template <> struct Val<T> {                            \
    static T mk(int v) { return MK; }                    \
    static int get(const T &x) { return GET; }           \
  };
VAL(int, v, x)
VAL(long, (long)v << 20, (int)(x >> 20))
VAL(unsigned, (unsigned)v, (int)x)
VAL(char, (char)v, (int)(unsigned char)x)
VAL(double, v * 0.5, (int)(x * 2))
VAL(std::string, "string number " + std::to_string(v), atoi(x.c_str() + 14))
VAL(Tracked, Tracked(v), (x.check(), *x.heap == x.v ? x.v : -1))
VAL(Throwy, Throwy(v), (x.t.check(), *x.t.heap == x.t.v ? x.t.v : -1))
template <> struct Val<Big> {
  static Big mk(int v) { Big b; for (auto &e : b.a) e = v; return b; }
  static int get(const Big &b) { for (auto &e : b.a) if (e != b.a[0]) return -1; return (int)b.a[0]; }
};
template <> struct Val<Odd> {
  static Odd mk(int v) { Odd b; memset(&b, v & 127, sizeof b); return b; }
  static int get(const Odd &b) { return (uintptr_t)&b % 16 ? -2 : b.d == b.c[7] ? b.d : -1; }
};
template <> struct Val<std::shared_ptr<Tracked>> {
  static std::shared_ptr<Tracked> mk(int v) { return std::make_shared<Tracked>(v); }
  static int get(const std::shared_ptr<Tracked> &p) { return p ? p->v : -1; }
};
template <> struct Val<std::vector<int>> {
  static std::vector<int> mk(int v) { return std::vector<int>(3, v); }
  static int get(const std::vector<int> &p) { return p.size() == 3 ? p[1] : -1; }
};
template <> struct Val<std::vector<Any>> {
  static std::vector<Any> mk(int v) { std::vector<Any> r; r.push_back(Any(v)); r.push_back(Any(std::to_string(v))); return r; }
  static int get(const std::vector<Any> &p) {
    if (p.size() != 2) return -1;
    int *i = kanon::SafeAnyCast<int>(p[0]);
    std::string *s = kanon::SafeAnyCast<std::string>(p[1]);
    return i && s && atoi(s->c_str()) == *i ? *i : -1;
  }
};
template <> struct Val<Fn> {
  static Fn mk(int) { return one_fn; }
  static int get(const Fn &f) { return f == one_fn && f(1) == 2 ? 0 : -1; }
};
template <> struct Val<const char *> {
  static const char *mk(int v) { static const char t[] = "abcdefghijklmnopqrstuvwxyz"; return t + v % 26; }
  static int get(const char *const &p) { return *p - 'a'; }
};
template <> struct Val<MoveOnly> {
  static MoveOnly mk(int v) { return MoveOnly(v); }
  static int get(const MoveOnly &m) { m.t.check(); return m.t.v; }
};
template <> struct Val<std::unique_ptr<Tracked>> {
  static std::unique_ptr<Tracked> mk(int v) { return std::unique_ptr<Tracked>(new Tracked(v)); }
  static int get(const std::unique_ptr<Tracked> &m) { return m ? m->v : -1; }
};

template <class T> int normal(int v) { T t = Val<T>::mk(v); return Val<T>::get(t); }

struct Kind {
  const char *name;
  const std::type_info *ti;
  int (*norm)(int);
};

// One table entry per type for one holder class H.
template <class H> struct Ops {
  const char *name;
  const std::type_info *ti;
  int (*norm)(int);
  void (*make)(H *, int);         // placement construct from rvalue
  void (*make_l)(H *, int);       // ... from lvalue (Any only; null otherwise)
  void (*assign)(H &, int);       // assignment from rvalue
  void (*assign_l)(H &, int);
  bool (*holds)(const H &, int &v, bool unsafe_too);
  bool (*write)(H &, int v);
};
template <class H> struct Cast;
template <> struct Cast<Any> {
  template <class T> static T *safe(const Any &a) { return kanon::SafeAnyCast<T>(a); }
  template <class T> static T *unsafe(const Any &a) { return kanon::UnsafeAnyCast<T>(a); }
  template <class T> static T *plain(const Any &a) { return kanon::AnyCast<T>(a); }
};
template <> struct Cast<UniqueAny> {
  template <class T> static T *safe(const UniqueAny &a) {
    T *x = kanon::SafeAnyCast<T>(a), *y = kanon::SafeUniqueAnyCast<T>(a);
    if (x != y) BAD("cast", "two casts to the same type disagree");
    return x;
  }
  template <class T> static T *unsafe(const UniqueAny &a) { return kanon::UnsafeAnyCast<T>(a); }
  template <class T> static T *plain(const UniqueAny &a) { return kanon::UniqueAnyCast<T>(a); }
};
template <class H, class T> struct OpsOf {
  static void make(H *h, int v) { new (h) H(Val<T>::mk(v)); }
  static void assign(H &h, int v) { h = Val<T>::mk(v); }
  static bool holds(const H &h, int &v, bool un) {
    T *p = Cast<H>::template safe<T>(h);
    if (!p) return false;
    v = Val<T>::get(*p);
    if (un && (Cast<H>::template unsafe<T>(h) != p || Cast<H>::template plain<T>(h) != p))
      BAD("cast", "casts of the same object to %s give different addresses", typeid(T).name());
    return true;
  }
  static bool write(H &h, int v) {
    T *p = Cast<H>::template safe<T>(h);
    if (!p) return false;
    T t = Val<T>::mk(v);
    *p = std::move(t);
    return true;
  }
};
template <class T> struct OpsL {
  static void make(Any *h, int v) { T t = Val<T>::mk(v); new (h) Any(t); if (Val<T>::get(t) != normal<T>(v)) BAD("copy", "storing a copy of %s changed the original", typeid(T).name()); }
  static void assign(Any &h, int v) { const T t = Val<T>::mk(v); h = t; if (Val<T>::get(t) != normal<T>(v)) BAD("copy", "storing a copy of %s changed the original", typeid(T).name()); }
};
template <class T> Ops<Any> any_ops(const char *n) {
  typedef OpsOf<Any, T> O;
  return Ops<Any>{n, &typeid(T), normal<T>, O::make, OpsL<T>::make, O::assign, OpsL<T>::assign, O::holds, O::write};
}
template <class T> Ops<UniqueAny> un_ops(const char *n) {
  typedef OpsOf<UniqueAny, T> O;
  return Ops<UniqueAny>{n, &typeid(T), normal<T>, O::make, nullptr, O::assign, nullptr, O::holds, O::write};
}
static std::vector<Ops<Any>> ANY() {
  return {any_ops<int>("int"), any_ops<long>("long"), any_ops<unsigned>("unsigned"), any_ops<char>("char"), any_ops<double>("double"),
          any_ops<std::string>("string"), any_ops<Tracked>("tracked"), any_ops<Throwy>("throwing copy"), any_ops<Big>("big"),
          any_ops<Odd>("aligned"), any_ops<std::shared_ptr<Tracked>>("shared_ptr"), any_ops<std::vector<int>>("vector"),
          any_ops<std::vector<Any>>("vector of Any"), any_ops<Fn>("function"), any_ops<const char *>("literal")};
}
static std::vector<Ops<UniqueAny>> UN() {
  return {un_ops<int>("int"), un_ops<long>("long"), un_ops<char>("char"), un_ops<std::string>("string"), un_ops<Tracked>("tracked"),
          un_ops<Throwy>("throwing copy"), un_ops<Big>("big"), un_ops<Odd>("aligned"), un_ops<MoveOnly>("move only"),
          un_ops<std::unique_ptr<Tracked>>("unique_ptr"), un_ops<std::vector<Any>>("vector of Any"), un_ops<const char *>("literal")};
}

struct M { int k = -1, v = 0; bool operator==(const M &o) const { return k == o.k && (k < 0 || v == o.v); } };

template <class H> bool agrees(const std::vector<Ops<H>> &T, H &h, const M &m, std::string *why) {
  if (h.empty() != (m.k < 0)) { *why = m.k < 0 ? "holds something, expected nothing" : "is empty, expected a value"; return false; }
  const std::type_info &ti = h.type();
  if (m.k < 0 ? ti != typeid(void) : ti != *T[m.k].ti) { *why = std::string("has type ") + ti.name(); return false; }
  for (size_t k = 0; k < T.size(); ++k) {
    int v = -99;
    bool got = T[k].holds(h, v, m.k == (int)k);
    if (got != (m.k == (int)k)) { *why = std::string(got ? "gives a value as " : "gives no value as ") + T[k].name; return false; }
    if (got && v != T[k].norm(m.v)) { *why = "has value " + std::to_string(v) + ", expected " + std::to_string(T[k].norm(m.v)); return false; }
  }
  return true;
}

// Copies exist for Any only.
static bool copy_make(Any *dst, const Any &src) { new (dst) Any(src); return true; }
static bool copy_make(UniqueAny *, const UniqueAny &) { return false; }
static bool copy_make_nc(Any *dst, Any &src) { new (dst) Any(src); return true; }
static bool copy_make_nc(UniqueAny *, UniqueAny &) { return false; }
static bool copy_assign(Any &dst, const Any &src) { dst = src; return true; }
static bool copy_assign(UniqueAny &, const UniqueAny &) { return false; }
static bool copy_assign_nc(Any &dst, Any &src) { dst = src; return true; }
static bool copy_assign_nc(UniqueAny &, UniqueAny &) { return false; }

template <class H> void holder_cases(const std::vector<Ops<H>> &T) {
  run_cases([&](long, Rng &r) {
    const int N = 4;
    long live0 = Tracked::live(), err0 = Tracked::errors();
    typename std::aligned_storage<sizeof(H), alignof(H)>::type mem[N + 1];
    auto at = [&](int i) -> H & { return *reinterpret_cast<H *>(&mem[i]); };
    M m[N];
    std::string trace;
    int steps = (int)r.range(1, 40);
    uint64_t h = 7;
    for (int i = 0; i < N; ++i) { memset((void *)&mem[i], 0xAB, sizeof mem[i]); new (&mem[i]) H(); }
    bool ok = true;
    for (int s = 0; s < steps && ok; ++s) {
      int i = (int)r.below(N), j = (int)r.below(N), k = (int)r.below(T.size()), v = (int)r.range(1, 99);
      int op = (int)r.below(14);
      g_fuse = -1;
      bool armed = r.chance(1, 6);
      if (armed) g_fuse = (int)r.below(2);
      M before[N];
      for (int x = 0; x < N; ++x) before[x] = m[x];
      char b[96];
      snprintf(b, sizeof b, " %d(%d,%d,%s,%d%s)", op, i, j, T[k].name, v, armed ? ",throws" : "");
      trace += b;
      bool threw = false;
      int taken = -1;  // slot whose content may be anything it or the destination held before
      M alt1, alt2;
      try {
        switch (op) {
          case 0:  // rebuild from an rvalue
            at(i).~H(); new (&mem[i]) H(); m[i] = M();
            { H *n = reinterpret_cast<H *>(&mem[N]); T[k].make(n, v); M nm; nm.k = k; nm.v = v; 
              std::string why; if (!agrees(T, *n, nm, &why)) BAD("construct", "a holder made from a %s %s:%s", T[k].name, why.c_str(), trace.c_str());
              at(i).swap(*n); m[i] = nm; 
              if (!n->empty()) BAD("swap", "swapped with an empty holder but not empty:%s", trace.c_str());
              n->~H(); }
            break;
          case 1:
            if (!T[k].make_l) break;
            { H *n = reinterpret_cast<H *>(&mem[N]); T[k].make_l(n, v); 
              n->swap(at(i)); n->~H(); m[i].k = k; m[i].v = v; }
            break;
          case 2: T[k].assign(at(i), v); m[i].k = k; m[i].v = v; break;
          case 3: if (T[k].assign_l) { T[k].assign_l(at(i), v); m[i].k = k; m[i].v = v; } break;
          case 4:  // move construct
            { H n(std::move(at(i)));
              std::string why;
              if (!agrees(T, n, m[i], &why)) BAD("move", "the moved holder %s:%s", why.c_str(), trace.c_str());
              if (!at(i).empty()) BAD("move", "the source of a move construction is not empty:%s", trace.c_str());
              M mi = m[i]; m[i] = M();
              if (r.chance(2, 3)) { n.swap(at(j)); std::swap(mi, m[j]); } }
            break;
          case 5:  // move assign, possibly to itself
            if (i == j) { H &x = at(i); x = std::move(at(j)); }  // keeps its value
            else { at(i) = std::move(at(j)); alt1 = m[i]; alt2 = M(); m[i] = m[j]; taken = j; }
            break;
          case 6: at(i).swap(at(j)); std::swap(m[i], m[j]); break;
          case 7: at(i).clear(); m[i] = M(); break;
          case 8:
            { H *n = reinterpret_cast<H *>(&mem[N]);
              bool did = r.chance(1, 2) ? copy_make(n, at(i)) : copy_make_nc(n, at(i));
              if (did) {
                g_fuse = -1;
                std::string why;
                if (!agrees(T, *n, m[i], &why)) BAD("copy", "the copy %s:%s", why.c_str(), trace.c_str());
                M mi = m[i];
                if (m[i].k >= 0 && r.chance(1, 2)) {  // independence
                  int nv = (int)r.range(100, 120);
                  T[m[i].k].write(*n, nv);
                  mi.v = nv;
                  if (!agrees(T, at(i), m[i], &why)) BAD("copy", "changing the copy changed the original: it %s:%s", why.c_str(), trace.c_str());
                }
                n->swap(at(j)); std::swap(mi, m[j]);
                n->~H();
              } }
            break;
          case 9: if (copy_assign(at(i), at(j))) m[i] = m[j]; break;
          case 10: if (copy_assign_nc(at(i), at(j))) m[i] = m[j]; break;
          case 11: if (m[i].k >= 0) { g_fuse = -1; if (!T[m[i].k].write(at(i), v)) BAD("cast", "no value as its own type:%s", trace.c_str()); m[i].v = v; } break;
          case 12: { H tmp; if (!tmp.empty()) BAD("empty", "a new holder is not empty"); tmp.clear(); at(i).swap(tmp); m[i] = M(); } break;
          case 13: at(i).~H(); new (&mem[i]) H(); m[i] = M(); break;
        }
      } catch (Boom &) {
        threw = true;
      }
      g_fuse = -1;
      if (threw) {
        count("throwing_copies");
        if (op != 0 && op != 8) for (int x = 0; x < N; ++x) m[x] = before[x];
      }
      h = mix(h, op * 64 + k + (threw ? 999 : 0) + i * 5 + j);
      std::string why;
      if (taken >= 0) {
        g_fuse = -1;
        if (agrees(T, at(taken), alt1, &why)) m[taken] = alt1;
        else if (agrees(T, at(taken), alt2, &why)) m[taken] = alt2;
        else { BAD("move", "the source of a move assignment %s:%s", why.c_str(), trace.c_str()); ok = false; }
      }
      for (int x = 0; x < N && ok; ++x)
        if (!agrees(T, at(x), m[x], &why)) { BAD(threw ? "throw" : "contents", "slot %d %s:%s", x, why.c_str(), trace.c_str()); ok = false; }
    }
    for (int i = 0; i < N; ++i) at(i).~H();
    if (Tracked::errors() != err0) BAD("lifetime", "an object was used or destroyed after its end:%s", trace.c_str());
    if (Tracked::live() != live0) BAD("lifetime", "%ld objects too many at the end:%s", Tracked::live() - live0, trace.c_str());
    count("operations", steps);
    seen(h);
    if (C().cur_case < 2) sample(trace);
  });
}

// --- optional ---------------------------------------------------------------
template <class T, class U> void opt_case(Rng &r, const char *tn) {
  long live0 = Tracked::live(), err0 = Tracked::errors();
  std::string trace;
  {
    const int N = 3;
    std::vector<std::unique_ptr<optional<T>>> o;
    std::vector<std::unique_ptr<optional<U>>> u;
    bool mh[N], uh[N];
    int mv[N], uv[N];
    for (int i = 0; i < N; ++i) {
      o.emplace_back(new optional<T>()); u.emplace_back(new optional<U>());
      mh[i] = uh[i] = false; mv[i] = uv[i] = 0;
    }
    int steps = (int)r.range(1, 30);
    for (int s = 0; s < steps; ++s) {
      int i = (int)r.below(N), j = (int)r.below(N), v = (int)r.range(1, 99), op = (int)r.below(18);
      char b[64];
      snprintf(b, sizeof b, " %d(%d,%d,%d)", op, i, j, v);
      trace += b;
      bool threw = false;
      bool bh[N], b2[N]; int bv[N], b2v[N];
      for (int x = 0; x < N; ++x) { bh[x] = mh[x]; bv[x] = mv[x]; b2[x] = uh[x]; b2v[x] = uv[x]; }
      if (r.chance(1, 8)) g_fuse = (int)r.below(2);
      bool reset_i = false;
      (void)reset_i;
      try {
        switch (op) {
          case 0: { T t = Val<T>::mk(v); std::unique_ptr<optional<T>> n(new optional<T>(t)); o[i].swap(n); mh[i] = true; mv[i] = v;
                    if (Val<T>::get(t) != normal<T>(v)) BAD("opt.copy", "%s: making an optional of a copy changed the original:%s", tn, trace.c_str()); } break;
          case 1: { std::unique_ptr<optional<T>> n(new optional<T>(Val<T>::mk(v))); o[i].swap(n); mh[i] = true; mv[i] = v; } break;
          case 2: { T t = Val<T>::mk(v); *o[i] = t; mh[i] = true; mv[i] = v; 
                    if (Val<T>::get(t) != normal<T>(v)) BAD("opt.copy", "%s: assigning a copy changed the original:%s", tn, trace.c_str()); } break;
          case 3: *o[i] = Val<T>::mk(v); mh[i] = true; mv[i] = v; break;
          case 4: { const optional<T> &c = *o[j]; std::unique_ptr<optional<T>> n(new optional<T>(c)); o[i].swap(n); mh[i] = mh[j]; mv[i] = mv[j]; } break;
          case 5: { std::unique_ptr<optional<T>> n(new optional<T>(*o[j])); o[i].swap(n); mh[i] = mh[j]; mv[i] = mv[j]; } break;
          case 6: if (i != j) { std::unique_ptr<optional<T>> n(new optional<T>(std::move(*o[j]))); o[i].swap(n); mh[i] = mh[j]; mv[i] = mv[j];
                    o[j].reset(new optional<T>()); mh[j] = false; } break;
          case 7: *o[i] = static_cast<const optional<T> &>(*o[j]); mh[i] = mh[j]; mv[i] = mv[j]; break;
          case 8: *o[i] = *o[j]; mh[i] = mh[j]; mv[i] = mv[j]; break;
          case 9: if (i != j) { *o[i] = std::move(*o[j]); mh[i] = mh[j]; mv[i] = mv[j]; o[j].reset(new optional<T>()); mh[j] = false; } break;
          case 10: o[i]->SetInvalid(); mh[i] = false; break;
          case 11: { *u[i] = Val<U>::mk(v); uh[i] = true; uv[i] = v; } break;
          case 12: { u[i].reset(new optional<U>()); uh[i] = false; } break;
          case 13: { std::unique_ptr<optional<T>> n(new optional<T>(static_cast<const optional<U> &>(*u[j]))); o[i].swap(n); mh[i] = uh[j]; mv[i] = uv[j]; } break;
          case 14: { *o[i] = static_cast<const optional<U> &>(*u[j]); mh[i] = uh[j]; mv[i] = uv[j]; } break;
          case 15: { std::unique_ptr<optional<T>> n(new optional<T>(std::move(*u[j]))); o[i].swap(n); mh[i] = uh[j]; mv[i] = uv[j];
                     u[j].reset(new optional<U>()); uh[j] = false; } break;
          case 16: { *o[i] = std::move(*u[j]); mh[i] = uh[j]; mv[i] = uv[j]; u[j].reset(new optional<U>()); uh[j] = false; } break;
          case 17: if (mh[i]) { T t = std::move(*std::move(*o[i])); if (Val<T>::get(t) != normal<T>(mv[i])) BAD("opt.move", "%s: moved out another value:%s", tn, trace.c_str());
                     *o[i] = std::move(t); } break;
        }
      } catch (Boom &) { threw = true; }
      g_fuse = -1;
      if (threw) {
        count("throwing_copies");
        for (int x = 0; x < N; ++x) { mh[x] = bh[x]; mv[x] = bv[x]; uh[x] = b2[x]; uv[x] = b2v[x]; }
        if (op == 17 || op == 16 || op == 15 || op == 3) {  // sources of moves may have been used up
          o[i].reset(new optional<T>()); mh[i] = false; u[j].reset(new optional<U>()); uh[j] = false;
        } else if (op == 11 || op == 2 || op == 7 || op == 8 || op == 14) {
          // assignment that threw: some valid state; only that it can still be used is demanded
          *o[i] = optional<T>(); mh[i] = false;
          *u[i] = optional<U>(); uh[i] = false;
        }
      }
      for (int x = 0; x < N; ++x) {
        const optional<T> &c = *o[x];
        if (c.has_value() != mh[x] || (bool)c != mh[x] || (bool)*o[x] != mh[x])
          return (void)BAD("opt.has", "optional of %s: has_value %d, expected %d:%s", tn, (int)c.has_value(), (int)mh[x], trace.c_str());
        if (mh[x]) {
          int want = normal<T>(mv[x]);
          int g1 = Val<T>::get(c.value()), g2 = Val<T>::get(*c), g3 = Val<T>::get(*c.operator->()), g4 = Val<T>::get(o[x]->value()), g5 = Val<T>::get(**o[x]), g6 = Val<T>::get(*o[x]->operator->());
          if (g1 != want || g2 != want || g3 != want || g4 != want || g5 != want || g6 != want)
            return (void)BAD("opt.value", "optional of %s: value %d, expected %d:%s", tn, g1, want, trace.c_str());
        }
        if (u[x]->has_value() != uh[x] || (uh[x] && Val<U>::get(**u[x]) != normal<U>(uv[x])))
          return (void)BAD("opt.source", "converting from an optional changed it:%s", trace.c_str());
      }
    }
    count("operations", steps);
  }
  if (Tracked::errors() != err0) BAD("lifetime", "optional of %s: an object was used or destroyed after its end:%s", tn, trace.c_str());
  if (Tracked::live() != live0) BAD("lifetime", "optional of %s: %ld objects too many at the end:%s", tn, Tracked::live() - live0, trace.c_str());
  seen(hash_str(trace));
}

// conversions between element types used above
struct CStr { const char *p; CStr() : p(nullptr) {} CStr(const char *q) : p(q) {} operator std::string() const { if (!p) VFATAL("k27.opt.empty", "the value of an empty optional was converted"); return p; } };
template <> struct Val<CStr> {
  static CStr mk(int v) { static std::vector<std::string> *t = nullptr; if (!t) { t = new std::vector<std::string>; for (int i = 0; i < 200; ++i) t->push_back("string number " + std::to_string(i)); } return CStr((*t)[v].c_str()); }
  static int get(const CStr &c) { return c.p ? atoi(c.p + 14) : -1; }
};
struct FromInt { Tracked t; FromInt() : t(-5) {} FromInt(int v) : t(v) {} };
template <> struct Val<FromInt> {
  static FromInt mk(int v) { return FromInt(v); }
  static int get(const FromInt &f) { f.t.check(); return f.t.v; }
};
VAL(short, (short)v, x)
VAL(bool, (v & 1) != 0, x)

template <class T> T *raw_round(RawAny a) { return kanon::AnyCast<T>(a); }

// --- raw any and pointers -----------------------------------------------------
static void raw_case(Rng &r) {
  long live0 = Tracked::live();
  {
    int i1 = 1; std::string s1 = "s"; Tracked t1(3);
    struct { RawAny a; const void *m; } s[3];
    for (auto &e : s) { e.m = nullptr; if (!e.a.empty()) BAD("raw", "a new RawAny is not empty"); }
    const void *objs[3] = {&i1, &s1, &t1};
    std::string trace;
    for (int st = 0, n = (int)r.range(1, 30); st < n; ++st) {
      int a = (int)r.below(3), b = (int)r.below(3), k = (int)r.below(3), op = (int)r.below(10);
      char bf[40]; snprintf(bf, sizeof bf, " %d(%d,%d,%d)", op, a, b, k); trace += bf;
      switch (op) {
        case 0: if (k == 0) s[a].a = i1; else if (k == 1) s[a].a = s1; else s[a].a = t1; s[a].m = objs[k]; break;
        case 1: s[a].a = RawAny(const_cast<void *>(objs[k])); s[a].m = objs[k]; break;
        case 2: s[a].a = s[b].a; s[a].m = s[b].m; break;
        case 3: { RawAny n(std::move(s[a].a)); if (!s[a].a.empty()) BAD("raw", "a moved-from RawAny is not empty"); s[b].a = n; s[b].m = s[a].m; if (a != b) s[a].m = nullptr; } break;
        case 4: { const void *old = s[a].m; s[a].a = std::move(s[b].a); s[a].m = s[b].m;
                  if (a != b) { void *p = kanon::AnyCast<void>(s[b].a); if (p && p != old) BAD("raw", "source of a move holds %p", p); s[b].m = p; } } break;
        case 5: s[a].a.swap(s[b].a); std::swap(s[a].m, s[b].m); break;
        case 6: s[a].a.clear(); s[a].m = nullptr; break;
        case 7: { RawAny n(s[b].a); s[a].a.swap(n); s[a].m = s[b].m; } break;
        case 8: s[a].a = static_cast<void *>(&s1); s[a].m = &s1; break;
        case 9: if (k == 0) { RawAny n(i1); s[a].a = n; } else if (k == 1) { RawAny n(s1); s[a].a = n; } else { RawAny n(t1); s[a].a = n; } s[a].m = objs[k]; break;
      }
      for (auto &e : s) {
        if (e.a.empty() != !e.m || kanon::AnyCast<void>(e.a) != e.m || kanon::UnsafeAnyCast<char>(e.a) != e.m || kanon::SafeAnyCast<char>(e.a) != e.m ||
            kanon::AnyCast2<char *>(e.a) != e.m || kanon::UnsafeAnyCast2<char *>(e.a) != e.m || kanon::SafeAnyCast2<void *>(e.a) != e.m)
          return (void)BAD("raw", "a RawAny does not hold its object:%s", trace.c_str());
        if (e.m == &i1 && *kanon::AnyCast<int>(e.a) != 1) BAD("raw", "wrong int:%s", trace.c_str());
        if (e.m == &s1 && *kanon::AnyCast<std::string>(e.a) != "s") BAD("raw", "wrong string:%s", trace.c_str());
        if (e.m == &t1 && kanon::AnyCast<Tracked>(e.a)->v != 3) BAD("raw", "wrong object:%s", trace.c_str());
      }
      count("operations");
    }
    seen(hash_str(trace));
  }
  if (Tracked::live() != live0) BAD("lifetime", "RawAny changed the number of objects");
  // pointer helpers
  int v = (int)r.range(0, 1000);
  {
    std::unique_ptr<Derived> d(new Derived(v));
    Derived *dp = d.get();
    Base1 *b1 = dp; Base2 *b2 = dp;
    if (kanon::down_pointer_cast<Derived>(b1) != dp || kanon::down_pointer_cast<Derived>(b2) != dp)
      BAD("ptr.down", "down_pointer_cast gives another object");
    if (kanon::GetPointer(d) != dp || kanon::GetPointer(dp) != dp) BAD("ptr.get", "GetPointer gives another pointer");
    { auto k = kanon::MakeUniquePtrAsKey(dp); if (k.get() != dp) BAD("ptr.key", "the key does not point to the object"); }
    if (dp->t.v != v) BAD("ptr.key", "a key deleted or changed its object");
  }
  {
    std::unique_ptr<Base2> b(new Derived(v));
    auto *raw = b.get();
    std::unique_ptr<Derived, std::default_delete<Base2>> d = kanon::down_pointer_cast<Derived>(b);
    if (b || (Base2 *)d.get() != raw || d->t.v != v || d->y != 22) BAD("ptr.down", "down_pointer_cast of a unique_ptr");
  }
  {
    std::shared_ptr<Base2> b = std::make_shared<Derived>(v);
    auto d = kanon::down_pointer_cast<Derived>(b);
    if ((Base2 *)d.get() != b.get() || d->t.v != v || b.use_count() != 2) BAD("ptr.down", "down_pointer_cast of a shared_ptr");
    if (kanon::GetPointer(d) != d.get()) BAD("ptr.get", "GetPointer gives another pointer");
  }
  {
    kanon::KeyUniquePtr<Tracked> own(new Tracked(v));
    Tracked *obj = new Tracked(v);
    KANON_DEFER_DELETE(Tracked, obj);
  }
  (void)v;
}

// --- time stamps ----------------------------------------------------------
static const int64_t US = 1000000;
static int64_t floor_div(int64_t a, int64_t b) { return a / b - (a % b < 0); }

static int64_t any_us(Rng &r) {
  switch (r.below(7)) {
    case 0: return r.range(-3, 3);
    case 1: return r.range(-2 * US, 2 * US);
    case 2: return r.range(-400 * 365 * 86400ll, 400 * 365 * 86400ll) * US + (r.chance(1, 2) ? 0 : r.range(-US, US));
    case 3: return r.range(0, 4102444800ll) * US + r.range(0, 999999);
    case 4: return r.range(1500000000ll, 1800000000ll) * US + r.range(0, 999999);
    case 5: return r.range(-2000, 2000) * US + (r.chance(1, 2) ? 0 : (int64_t)(r.below(2) ? 1 : -1));
    default: return r.range(-(1ll << 52), 1ll << 52);
  }
}
static void eq(const char *what, TimeStamp got, int64_t want, int64_t a, int64_t b) {
  count("instants");
  if (got.GetMicrosecondsSinceEpoch() != want)
    BAD("ts.arith", "%s of %lld and %lld: %lld, expected %lld", what, (long long)a, (long long)b, (long long)got.GetMicrosecondsSinceEpoch(), (long long)want);
}
static void zone(const char *tz) { setenv("TZ", tz, 1); tzset(); }
static const char *ZONES[] = {"UTC0", "CST-8", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "NPT-5:45", "AAA12", "KIR-14", "SUD3SUE,M10.3.0/0,M2.3.0/0"};

static void ts_case(Rng &r) {
  int64_t a = any_us(r), b = any_us(r);
  if (r.chance(1, 5)) b = a + r.range(-2, 2);
  TimeStamp x(a), y(b);
  seen(mix((uint64_t)a, (uint64_t)b));
  // order
  bool lt = x < y, gt = x > y, le = x <= y, ge = x >= y, e = x == y, ne = x != y;
  if (lt != (a < b) || gt != (a > b) || le != (a <= b) || ge != (a >= b) || e != (a == b) || ne != (a != b))
    BAD("ts.order", "%lld and %lld: < %d > %d <= %d >= %d == %d != %d", (long long)a, (long long)b, lt, gt, le, ge, e, ne);
  // units
  if (x.microseconds() != a || x.GetMicroseconds() != a || x.GetMicrosecondsSinceEpoch() != a) BAD("ts.units", "microseconds of %lld", (long long)a);
  if (x.seconds() != x.GetSeconds() || x.milliseconds() != x.GetMilliseconds()) BAD("ts.units", "two getters disagree for %lld", (long long)a);
  int64_t s = x.GetSeconds(), ms = x.GetMilliseconds();
  if (s != a / US && s != floor_div(a, US)) BAD("ts.units", "seconds of %lld us: %lld", (long long)a, (long long)s);
  if (ms != a / 1000 && ms != floor_div(a, 1000)) BAD("ts.units", "milliseconds of %lld us: %lld", (long long)a, (long long)ms);
  // arithmetic
  eq("sum", x + y, a + b, a, b);
  eq("difference", x - y, a - b, a, b);
  { TimeStamp z = x; z += y; eq("+=", z, a + b, a, b); z -= y; eq("+= -=", z, a, a, b); z -= y; eq("-=", z, a - b, a, b); }
  { const TimeStamp c = x; eq("negation", -c, -a, a, 0); }
  { TimeStamp z; z.SetMicroseconds(b); eq("set", z, b, a, b); }
  int n = r.chance(1, 4) ? (int)(r.chance(1, 2) ? INT32_MAX : INT32_MIN) : r.chance(1, 2) ? (int)r.range(-5000, 5000) : (int)r.next();
  TimeStamp::Microsecond us(n); TimeStamp::MilliSecond mi(n); TimeStamp::Second se(n);
  int64_t N = n;
  eq("+ us", x + us, a + N, a, N); eq("us +", us + x, a + N, a, N); eq("- us", x - us, a - N, a, N); eq("us -", us - x, N - a, a, N);
  eq("+ ms", x + mi, a + N * 1000, a, N); eq("ms +", mi + x, a + N * 1000, a, N); eq("- ms", x - mi, a - N * 1000, a, N); eq("ms -", mi - x, N * 1000 - a, a, N);
  eq("+ s", x + se, a + N * US, a, N); eq("s +", se + x, a + N * US, a, N); eq("- s", x - se, a - N * US, a, N); eq("s -", se - x, N * US - a, a, N);
  // intervals in floating point: whole microseconds are exact below 2^53
  int64_t d = r.chance(1, 3) ? r.range(-100, 100) : r.chance(1, 2) ? r.range(-4000ll * US, 4000ll * US) : r.range(-(1ll << 50), 1ll << 50);
  double ds = (double)d / US;
  eq("+ interval", x + ds, a + d, a, d); eq("interval +", ds + x, a + d, a, d); eq("- interval", x - ds, a - d, a, d); eq("interval -", ds - x, d - a, a, d);
  eq("AddTime", kanon::AddTime(x, ds), a + d, a, d);
  { TimeStamp z(a + d); double diff = kanon::TimeDifference(z, x); if (diff != ds) BAD("ts.diff", "TimeDifference of %lld us: %.9f", (long long)d, diff);
    eq("AddTime of TimeDifference", kanon::AddTime(x, diff), a + d, a, d); }
  uint64_t un = r.below(1ull << 40);
  eq("AddTimeUs", kanon::AddTimeUs(x, un), a + (int64_t)un, a, (int64_t)un);
  eq("AddTimeMs", kanon::AddTimeMs(x, un >> 4), a + (int64_t)(un >> 4) * 1000, a, (int64_t)un >> 4);
  // arbitrary (also fractional) intervals: back to where it was, and near the exact instant
  double f = (r.chance(1, 2) ? 1 : -1) * (double)r.below(1u << 30) / (double)(1 + r.below(100000));
  eq("+ and - the same interval", (x + f) - f, a, a, 0);
  if (fabs((double)((x + f).microseconds() - a) - f * US) > 1.0) BAD("ts.arith", "%lld + %.9f s = %lld", (long long)a, f, (long long)(x + f).microseconds());
  // unix time
  time_t ut = (time_t)r.range(-(1ll << 33), 1ll << 35);
  eq("FromUnixTime", TimeStamp::FromUnixTime(ut), (int64_t)ut * US, ut, 0);
  eq("FromUnixTime", TimeStamp::FromUnixTime(ut, a % US), (int64_t)ut * US + a % US, ut, a % US);
  // text of the number of seconds
  {
    std::string t = x.ToString();
    long long w; char frac[32] = {0}; int used = 0; bool neg = t[0] == '-';
    if (sscanf(t.c_str(), "%lld.%31[0-9]%n", &w, frac, &used) != 2 || used != (int)t.size() || strlen(frac) != 6)
      BAD("ts.text", "%lld us as text: '%s'", (long long)a, t.c_str());
    else {
      int64_t back = w * US + (neg ? -1 : 1) * (int64_t)atoll(frac);
      if (back != a) BAD("ts.text", "%lld us as text: '%s'", (long long)a, t.c_str());
    }
    count("texts");
  }
}

static void tz_case(Rng &r) {
  const char *tz = ZONES[r.below(sizeof ZONES / sizeof *ZONES)];
  zone(tz);
  for (int i = 0; i < 40; ++i) {
    int64_t a;
    if (r.chance(1, 3)) {  // near a change of the clock in one of the zones
      struct tm t; memset(&t, 0, sizeof t);
      t.tm_year = (int)r.range(80, 150); t.tm_mon = (int)(r.chance(1, 2) ? r.range(1, 3) : r.range(8, 10)); t.tm_mday = (int)r.range(1, 31); t.tm_hour = (int)r.range(0, 5); t.tm_min = (int)r.range(0, 59);
      t.tm_isdst = (int)r.range(-1, 1);
      a = (int64_t)mktime(&t) * US + r.range(0, US - 1);
    } else a = any_us(r);
    int64_t sec = floor_div(a, US);
    struct tm tm; time_t st = (time_t)sec;
    if (!localtime_r(&st, &tm) || tm.tm_year + 1900 > 9999 || tm.tm_year + 1900 < 1) continue;
    char want[64], wus[80];
    snprintf(want, sizeof want, "%04d%02d%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    snprintf(wus, sizeof wus, "%s.%06d", want, (int)(a - sec * US));
    TimeStamp x(a);
    std::string t0 = x.ToFormattedString(false), t1 = x.ToFormattedString(true), t2 = x.ToFormattedString();
    if (t0 != want || t1 != wus || t2 != wus) BAD("ts.format", "%lld us in %s: '%s' and '%s', expected '%s'", (long long)a, tz, t0.c_str(), t1.c_str(), wus);
    // and back: an instant which reads the same (twice a year two instants do)
    bool ok = r.chance(1, 2), in = ok;
    TimeStamp back = TimeStamp::FromTimeStr("%Y%m%d %H:%M:%S", t0, &ok);
    TimeStamp back2 = TimeStamp::FromTimeStr("%Y%m%d %H:%M:%S", t0);
    (void)in;
    count("texts");
    if (back != back2) BAD("ts.parse", "with and without ok: %lld and %lld for '%s' in %s", (long long)back.microseconds(), (long long)back2.microseconds(), t0.c_str(), tz);
    if (!ok) BAD("ts.parse", "'%s' was refused", t0.c_str());
    else if (back.ToFormattedString(false) != t0 || back.microseconds() % US) BAD("ts.parse", "'%s' in %s became '%s'", t0.c_str(), tz, back.ToFormattedString().c_str());
    else {
      struct tm m2 = tm; m2.tm_isdst = 0; struct tm m3 = tm; m3.tm_isdst = 1;
      int64_t p = (int64_t)mktime(&m2), q = (int64_t)mktime(&m3);
      if (back.microseconds() != sec * US && back.microseconds() != p * US && back.microseconds() != q * US) BAD("ts.parse", "'%s' in %s became %lld, was %lld", t0.c_str(), tz, (long long)back.microseconds(), (long long)a);
    }
    // broken text
    std::string bad = t0;
    switch (r.below(4)) {
      case 0: bad = bad.substr(0, r.below(bad.size())); break;
      case 1: bad[r.below(4)] = 'x'; break;
      case 2: bad = ""; break;
      case 3: bad[14] = '7'; bad[15] = '7'; break;
    }
    struct tm tb; memset(&tb, 0, sizeof tb);
    const char *end = strptime(bad.c_str(), "%Y%m%d %H:%M:%S", &tb);
    ok = end == nullptr;
    TimeStamp z = TimeStamp::FromTimeStr("%Y%m%d %H:%M:%S", bad, &ok);
    TimeStamp z2 = TimeStamp::FromTimeStr("%Y%m%d %H:%M:%S", bad);
    count("malformed_texts", !end);
    if (ok != (end != nullptr)) BAD("ts.parse", "'%s': ok=%d", bad.c_str(), (int)ok);
    if (!end && (z.microseconds() || z2.microseconds())) BAD("ts.parse", "the malformed '%s' gives %lld and %lld", bad.c_str(), (long long)z.microseconds(), (long long)z2.microseconds());
  }
  // now
  struct timeval t0, t1;
  gettimeofday(&t0, nullptr);
  TimeStamp n = TimeStamp::Now();
  gettimeofday(&t1, nullptr);
  int64_t lo = (int64_t)t0.tv_sec * US + t0.tv_usec, hi = (int64_t)t1.tv_sec * US + t1.tv_usec;
  if (lo <= hi && hi - lo < US && (n.microseconds() < lo || n.microseconds() > hi))
    BAD("ts.now", "Now() is %lld, the clock was between %lld and %lld", (long long)n.microseconds(), (long long)lo, (long long)hi);
  seen(hash_str(std::string(tz) + n.ToString()));
}

int main(int argc, char **argv) {
  init(argc, argv, false);
  const std::string &m = C().mode;
  if (m == "any") holder_cases<Any>(ANY());
  else if (m == "unique") holder_cases<UniqueAny>(UN());
  else if (m == "optional")
    run_cases([](long i, Rng &r) {
      switch (i % 9) {
        case 0: opt_case<int, short>(r, "int"); break;
        case 1: opt_case<std::string, CStr>(r, "string"); break;
        case 2: opt_case<Tracked, int>(r, "tracked"); break;
        case 3: opt_case<Throwy, int>(r, "throwing copy"); break;
        case 4: opt_case<FromInt, int>(r, "from int"); break;
        case 5: opt_case<std::shared_ptr<Tracked>, std::shared_ptr<Tracked>>(r, "shared_ptr"); break;
        case 6: opt_case<bool, bool>(r, "bool"); break;
        case 7: opt_case<std::vector<Any>, std::vector<Any>>(r, "vector of Any"); break;
        case 8: raw_case(r); break;
      }
    });
  else if (m == "ts") run_cases([](long, Rng &r) { ts_case(r); });
  else if (m == "tz") run_cases([](long, Rng &r) { tz_case(r); });
  else { fprintf(stderr, "bad mode\n"); return 2; }
  finish();
  return 0;
}
