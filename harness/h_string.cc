// K23 (string views and helpers), K24 (text <-> number), K25 (formatting streams).
// Texts live in exact-size heap blocks so that ASan sees any read outside them;
// results are compared with std::string_view / an independent parser / printf.
#include "kanon/string/string_view.h"
#include "kanon/string/string_view_util.h"
#include "kanon/string/string_util.h"
#include "kanon/string/lexical_cast.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/fmt_stream.h"
#include "kanon/string/strcasecmp.h"

#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <thread>
#include <variant>
#include <vector>

#include "vh.h"
using namespace vh;
using kanon::StringView;

struct Exact {  // a copy of the text without anything behind it
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
  StringView v() const { return StringView(p.get(), n); }
};
static bool is_tsan() {
#ifdef __SANITIZE_THREAD__
  return true;
#else
  return false;
#endif
}
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static const size_t NPOS = (size_t)-1;

// ---------------------------------------------------------------- K23
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static char upp(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
static std::string lower(std::string s) { for (auto &c : s) c = low(c); return s; }
static std::string upper(std::string s) { for (auto &c : s) c = upp(c); return s; }

#define SAME(key, got, want, ...)                                                              \
  do {                                                                                         \
    auto g_ = (got); auto w_ = (want); ++g_ops;                                                \
    if (g_ != w_) viol(key, "%s: got %ld, expected %ld", desc(__VA_ARGS__).c_str(), (long)g_, (long)w_); \
  } while (0)
static long g_ops;
static std::string desc(const char *op, const std::string &s, const std::string &v, size_t pos = NPOS) {
  return std::string(op) + " text '" + hex(s) + "' with '" + hex(v) + "' at " + (pos == NPOS ? "npos" : std::to_string(pos));
}

static void finds(const std::string &s, StringView a, const std::string &v, StringView b, size_t pos) {
  std::string_view o(s), w(v);
  SAME("find", a.find(b, pos), o.find(w, pos), "find", s, v, pos);
  SAME("rfind", a.rfind(b, pos), o.rfind(w, pos), "rfind", s, v, pos);
  SAME("find_first_of", a.find_first_of(b, pos), o.find_first_of(w, pos), "find_first_of", s, v, pos);
  SAME("find_last_of", a.find_last_of(b, pos), o.find_last_of(w, pos), "find_last_of", s, v, pos);
  SAME("find_first_not_of", a.find_first_not_of(b, pos), o.find_first_not_of(w, pos), "find_first_not_of", s, v, pos);
  SAME("find_last_not_of", a.find_last_not_of(b, pos), o.find_last_not_of(w, pos), "find_last_not_of", s, v, pos);
}
static void finds_char(const std::string &s, StringView a, char c, size_t pos) {
  std::string_view o(s);
  std::string v(1, c);
  SAME("find-char", a.find(c, pos), o.find(c, pos), "find(char)", s, v, pos);
  SAME("rfind-char", a.rfind(c, pos), o.rfind(c, pos), "rfind(char)", s, v, pos);
  SAME("find_first_of-char", a.find_first_of(c, pos), o.find_first_of(c, pos), "find_first_of(char)", s, v, pos);
  SAME("find_last_of-char", a.find_last_of(c, pos), o.find_last_of(c, pos), "find_last_of(char)", s, v, pos);
  SAME("find_first_not_of-char", a.find_first_not_of(c, pos), o.find_first_not_of(c, pos), "find_first_not_of(char)", s, v, pos);
  SAME("find_last_not_of-char", a.find_last_not_of(c, pos), o.find_last_not_of(c, pos), "find_last_not_of(char)", s, v, pos);
}
static void compares(const std::string &s, StringView a, const std::string &v, StringView b) {
  std::string_view o(s), w(v);
  int c = sgn(o.compare(w));
  SAME("compare", sgn(a.compare(b)), c, "compare", s, v);
  SAME("operators", (int)(a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5,
       (int)(c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3 | (c <= 0) << 4 | (c >= 0) << 5, "operators", s, v);
  std::string ls = lower(s), lv = lower(v);
  SAME("case-compare", sgn(a.caseCompare(b)), sgn(std::string_view(ls).compare(lv)), "caseCompare", s, v);
  SAME("prefix", a.starts_with(b), o.substr(0, w.size()) == w, "starts_with", s, v);
  SAME("suffix", a.ends_with(b), o.size() >= w.size() && o.substr(o.size() - w.size()) == w, "ends_with", s, v);
  SAME("contains", a.contains(b), o.find(w) != NPOS, "contains", s, v);
}
static void compares_char(const std::string &s, StringView a, char c) {
  std::string v(1, c);
  std::string_view o(s), w(v);
  SAME("compare-char", sgn(a.compare(c)), sgn(o.compare(w)), "compare(char)", s, v);
  std::string ls = lower(s), lv = lower(v);
  SAME("case-compare-char", sgn(a.caseCompare(c)), sgn(std::string_view(ls).compare(lv)), "caseCompare(char)", s, v);
  SAME("prefix-char", a.starts_with(c), !s.empty() && s[0] == c, "starts_with(char)", s, v);
  SAME("suffix-char", a.ends_with(c), !s.empty() && s.back() == c, "ends_with(char)", s, v);
  SAME("contains-char", a.contains(c), o.find(c) != NPOS, "contains(char)", s, v);
}
static void split(const std::string &s, StringView a, const std::string &v, StringView b) {
  std::vector<std::string> want;
  if (v.empty()) want.push_back(s);
  else {
    size_t i = 0, j;
    while ((j = s.find(v, i)) != NPOS) want.push_back(s.substr(i, j - i)), i = j + v.size();
    want.push_back(s.substr(i));
  }
  auto got = a.split(b);
  ++g_ops;
  if (got != want) viol("split", "%s: %zu pieces, expected %zu", desc("split", s, v).c_str(), got.size(), want.size());
  count("splits");
}
static void subviews(const std::string &s, StringView a, size_t pos, size_t n) {
  g_ops += 4;
  // past the end: an empty view or an exception, never a view of something else
  try {
    StringView g = a.substr(pos, n);
    std::string want = pos <= s.size() ? s.substr(pos, n) : std::string();
    if (g.size() != want.size() || (g.size() && memcmp(g.data(), want.data(), g.size())) ||
        (g.size() && (g.data() < a.data() || g.data() + g.size() > a.data() + a.size())))
      viol("substr", "substr(%zu, %zu) of %zu bytes has %zu bytes, expected %zu", pos, n, s.size(), g.size(), want.size());
  } catch (const std::exception &) {
    if (pos <= s.size()) viol("substr", "substr(%zu, %zu) of %zu bytes throws", pos, n, s.size());
  }
  if (pos <= n) {
    try {
      StringView g = a.substr_range(pos, n);
      std::string want = pos <= s.size() ? s.substr(pos, n - pos) : std::string();
      if (g.size() != want.size() || (g.size() && memcmp(g.data(), want.data(), g.size())))
        viol("substr_range", "substr_range(%zu, %zu) of %zu bytes has %zu bytes, expected %zu", pos, n, s.size(), g.size(), want.size());
    } catch (const std::exception &) {
      if (pos <= s.size()) viol("substr_range", "substr_range(%zu, %zu) of %zu bytes throws", pos, n, s.size());
    }
  }
  size_t room = pos <= s.size() ? std::min(n, s.size() - pos) : 0;
  Exact d(std::string(room, '#'));
  bool thrown = false;
  size_t k = 0;
  try { k = a.copy(d.p.get(), n, pos); } catch (const std::exception &) { thrown = true; }
  if (thrown != (pos > s.size())) viol("copy", "copy of %zu at %zu of %zu bytes %s", n, pos, s.size(), thrown ? "throws" : "does not throw");
  else if (!thrown && (k != room || (k && memcmp(d.p.get(), s.data() + pos, k))))
    viol("copy", "copy of %zu at %zu of %zu bytes copied %zu, expected %zu", n, pos, s.size(), k, room);
  thrown = false;
  char c = 0;
  try { c = a.at(pos); } catch (const std::exception &) { thrown = true; }
  if (thrown != (pos >= s.size()) || (!thrown && c != s[pos])) viol("at", "at(%zu) of %zu bytes is wrong", pos, s.size());
  if (pos < s.size() && a[pos] != s[pos]) viol("index", "[%zu] of %zu bytes is wrong", pos, s.size());
}
static void whole(const std::string &s, StringView a, Rng &r) {
  g_ops += 6;
  if (a.size() != s.size() || a.empty() != s.empty() || std::string(a.begin(), a.end()) != s || a.ToString() != s)
    viol("whole", "a view of '%s' is not that text", hex(s).c_str());
  if (!s.empty() && (a.front() != s.front() || a.back() != s.back())) viol("ends", "front/back of '%s'", hex(s).c_str());
  if (a.ToUpperString() != upper(s)) viol("upper", "ToUpperString of '%s'", hex(s).c_str());
  if (a.ToLowerString() != lower(s)) viol("lower", "ToLowerString of '%s'", hex(s).c_str());
  size_t n = r.below(s.size() + 1), m = r.below(s.size() - n + 1);
  StringView x = a;
  x.remove_prefix(n);
  x.remove_suffix(m);
  if (x.ToString() != s.substr(n, s.size() - n - m)) viol("remove", "'%s' without %zu in front and %zu behind", hex(s).c_str(), n, m);
  StringView y("other");
  if (r.chance(1, 2)) swap(x, y); else x.swap(y);
  if (y.ToString() != s.substr(n, s.size() - n - m) || x.ToString() != "other") viol("swap", "swapped views of '%s'", hex(s).c_str());
  x.set(a.data(), n);
  if (x.ToString() != s.substr(0, n)) viol("set", "set(%zu) of '%s'", n, hex(s).c_str());
  x.reset();
  if (!x.empty() || x.size() || x.begin() != x.end()) viol("reset", "a reset view is not empty");
  StringView e;
  if (!e.empty() || !(e == x)) viol("default", "a default view is not empty");
  StringView fs(s);
  if (fs.ToString() != s) viol("from-string", "a view of a string is not that text");
  StringView fc(s.c_str()), fu(reinterpret_cast<const unsigned char *>(s.c_str())), fn(reinterpret_cast<const unsigned char *>(s.c_str()), s.size());
  if (fc.ToString() != s.c_str() || fu.ToString() != s.c_str() || fn.ToString() != s) viol("from-pointer", "a view of a pointer is not that text");
  StringView copy(a), as;
  as = a;
  if (!(copy == a) || !(as == a) || copy.data() != a.data()) viol("copy-view", "a copied view differs");
}
template <size_t N>
static void literal(const std::string &s, StringView a, const char (&lit)[N]) {
  std::string v(lit, N - 1);
  int c = sgn(std::string_view(s).compare(v));
  SAME("operators-literal", (int)(a == lit) | (a != lit) << 1 | (a < lit) << 2 | (a > lit) << 3 | (a <= lit) << 4 | (a >= lit) << 5,
       (int)(c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3 | (c <= 0) << 4 | (c >= 0) << 5, "literal operators", s, v);
  SAME("make-view", kanon::MakeStringView(lit).size(), N - 1, "MakeStringView", s, v);
}
static std::string rand_text(Rng &r, size_t max, const char *alpha, size_t na) {
  size_t n = r.below(max + 1);
  std::string s;
  while (s.size() < n) s += na ? alpha[r.below(na)] : (char)r.next();
  return s;
}
using Part = std::variant<std::string, StringView, const char *, char
#ifdef CXX_STANDARD_17
                          , std::string_view
#endif
                          >;
static void concat(Rng &r) {
  std::vector<std::string> keep;
  std::vector<Part> ps;
  std::vector<std::string> txt;
  keep.reserve(8);
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    keep.push_back(rand_text(r, r.chance(1, 10) ? 3000 : 12, "ab\0c\xff", 5));
    const std::string &s = keep.back();
    switch (r.below(5)) {
      case 0: ps.push_back(s), txt.push_back(s); break;
      case 1: ps.push_back(StringView(s.data(), s.size())), txt.push_back(s); break;
      case 2: ps.push_back(s.c_str()), txt.push_back(s.c_str()); break;
      case 3: { char c = (char)r.next(); ps.push_back(c), txt.push_back(std::string(1, c)); break; }
      default:
#ifdef CXX_STANDARD_17
        ps.push_back(std::string_view(s));
#else
        ps.push_back(s);
#endif
        txt.push_back(s);
    }
  }
  std::string want, base = rand_text(r, 40, "xyz", 3), got, app = base;
  if (r.chance(1, 2)) app.reserve(base.size() + r.below(200));
  for (auto &t : txt) want += t;
  auto both = [&](auto const &...a) { got = kanon::StrCat(a...); kanon::StrAppend(app, a...); };
  if (n == 1) std::visit([&](auto const &a) { both(a); }, ps[0]);
  else if (n == 2) std::visit([&](auto const &a, auto const &b) { both(a, b); }, ps[0], ps[1]);
  else {
    std::visit([&](auto const &a, auto const &b) { both(a, "mid", b, std::string("!"), StringView("?", 1), '.'); }, ps[0], ps[1]);
    want = txt[0] + "mid" + txt[1] + "!?.";
  }
  if (got != want) viol("strcat", "StrCat of %d parts: '%s', expected '%s'", n, hex(got).c_str(), hex(want).c_str());
  if (app != base + want) viol("strappend", "StrAppend of %d parts: '%s', expected '%s'", n, hex(app).c_str(), hex(base + want).c_str());
  count("concats");
}
static void ccase(Rng &r) {
  static const char al[] = "aAbBzZ@[`{_\xe9\xc9";
  std::string a = rand_text(r, 8, al, 13), b = r.chance(1, 2) ? a : rand_text(r, 8, al, 13);
  for (auto &c : b) if (r.chance(1, 3)) c = r.chance(1, 2) ? low(c) : upp(c);
  std::string la = lower(a), lb = lower(b);
  SAME("strcase", sgn(kanon::StrCaseCompare(a.c_str(), b.c_str())), sgn(std::string_view(la).compare(lb)), "StrCaseCompare", a, b);
  size_t n = r.below(10);
  std::string na = la.substr(0, n), nb = lb.substr(0, n);
  SAME("strncase", sgn(kanon::StrNCaseCompare(a.c_str(), b.c_str(), n)), sgn(std::string_view(na).compare(nb)), "StrNCaseCompare", a, b, n);
}
static void all_ops(const std::string &s, const std::string &v, size_t pos, size_t n, Rng &r) {
  Exact es(s), ev(v);
  StringView a = es.v(), b = ev.v();
  finds(s, a, v, b, pos);
  compares(s, a, v, b);
  split(s, a, v, b);
  subviews(s, a, pos, n);
  whole(s, a, r);
  char c = v.empty() ? 'a' : v[0];
  finds_char(s, a, c, pos);
  compares_char(s, a, c);
}
static std::string enum_text(long &k, int maxlen, const char *alpha, int na) {
  // the k-th text over the alphabet in order of length; k is reduced
  long per = 1, total = 0;
  for (int l = 0; l <= maxlen; ++l, per *= na) total += per;
  long x = k % total;
  k /= total;
  per = 1;
  int l = 0;
  while (x >= per) x -= per, per *= na, ++l;
  std::string s;
  for (int i = 0; i < l; ++i) s += alpha[x % na], x /= na;
  return s;
}
static void k23(long i, Rng &r) {
  g_ops = 0;
  uint64_t h = 0;
  int k = (int)opt_int("kind", (long)r.below(4));
  if (k == 0) {  // part of the enumeration of all small texts, patterns and positions
    static const char al[] = {'a', 'B', '\0'};
    for (int j = 0; j < 200; ++j) {
      long id = (i * 200 + j) * 7919 + (long)(C().seed % 1000003) * 104729;
      if (id < 0) id = -id;
      std::string s = enum_text(id, 4, al, 3), v = enum_text(id, 3, al, 3);
      size_t pos = (size_t)(id % 8);
      if (pos == 7) pos = NPOS;
      all_ops(s, v, pos, (size_t)((id / 8) % 6), r);
      if (j % 20 == 0) seen(mix(hash_str(s), mix(hash_str(v), pos)));
    }
    count("enumerated", 200);
    return;
  }
  for (int j = 0; j < 20; ++j) {
    static const char al[] = {'a', 'b', 'A', 'B', '\0', '\x80', '\xff', '@', '[', '`', '{', ' ', ',', 'z', 'Z'};
    size_t na = k == 3 ? 0 : r.chance(1, 2) ? 2 : sizeof al;
    std::string s = rand_text(r, r.chance(1, 20) ? 2000 : r.chance(1, 4) ? 40 : 8, al, na), v;
    if (r.chance(1, 2) && !s.empty()) {
      size_t p = r.below(s.size());
      v = s.substr(p, r.below(5));
      if (r.chance(1, 4)) v += al[r.below(sizeof al)];
    } else v = rand_text(r, 4, al, na);
    if (r.chance(1, 10)) v = s;
    if (r.chance(1, 8)) for (auto &c : v) c = r.chance(1, 2) ? low(c) : upp(c);
    size_t ps[] = {0, s.size(), s.size() + 1, s.size() ? s.size() - 1 : 0, NPOS, NPOS - 1, (size_t)1 << 63, r.below(s.size() + 3)};
    size_t pos = ps[r.below(8)], n = ps[r.below(8)];
    all_ops(s, v, pos, n, r);
    Exact es(s);
    for (char c : {'a', '\0', '\xff', 'Z'}) { finds_char(s, es.v(), c, pos); compares_char(s, es.v(), c); }
    switch (r.below(6)) {
      case 0: literal(s, es.v(), ""); break;
      case 1: literal(s, es.v(), "a"); break;
      case 2: literal(s, es.v(), "ab"); break;
      case 3: literal(s, es.v(), "a\0b"); break;
      case 4: literal(s, es.v(), "\xff"); break;
      default: literal(s, es.v(), "B{"); break;
    }
    concat(r);
    ccase(r);
    h = mix(h, mix(hash_str(s), mix(hash_str(v), pos)));
  }
  count("ops", g_ops);
  seen(h);
}

// ---------------------------------------------------------------- K24
typedef __int128 i128;
enum Verdict { MUST, MAY, NO };
struct Truth { Verdict v; i128 val; };
static int digit(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
// What the text stands for in this base, independent of the result type.
static Truth read_number(const std::string &s, int base, i128 lo, i128 hi) {
  if (base < 0 || base == 1 || base > 36) return {NO, 0};
  size_t i = 0;
  bool strict = true, neg = false;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) ++i, strict = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; if (!neg) strict = false; ++i; }
  int b = base;
  if ((base == 16 || base == 0) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x' && digit(s[i + 2]) < 16) { strict = false; b = 16; i += 2; }
  else if ((base == 2 || base == 0) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'b' && digit(s[i + 2]) < 2) { strict = false; b = 2; i += 2; }  // C23
  else if (base == 0) { if (i < s.size() && s[i] == '0') { b = 8; if (i + 1 < s.size()) strict = false; } else b = 10; }
  if (i >= s.size()) return {NO, 0};
  i128 x = 0;
  for (; i < s.size(); ++i) {
    int d = digit(s[i]);
    if (d >= b) return {NO, 0};
    x = x * b + d;
    if (x > ((i128)1 << 80)) x = (i128)1 << 80;
  }
  if (neg) x = -x;
  if (x < lo || x > hi) return {NO, 0};
  if (neg && lo == 0) strict = false;  // "-0" for an unsigned type
  return {strict ? MUST : MAY, x};
}
static std::string i2s(i128 x, int base = 10) {
  if (x == 0) return "0";
  bool n = x < 0;
  unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x;
  std::string s;
  while (u) s += "0123456789abcdefghijklmnopqrstuvwxyz"[(int)(u % base)], u /= base;
  if (n) s += '-';
  return std::string(s.rbegin(), s.rend());
}
template <class T, class O>
static void judge(const char *fn, const O &o, const std::string &s, int base) {
  Truth t = read_number(s, base, std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
  bool has = o.has_value();
  i128 got = has ? (i128)*o : 0;
  if (has ? t.v == NO || got != t.val : t.v == MUST)
    viol(has ? t.v == NO ? "accepted" : "wrong-value" : "refused", "%s('%s', base %d): %s, expected %s", fn, hex(s, 60).c_str(), base,
         has ? i2s(got).c_str() : "refused", t.v == NO ? "refusal" : i2s(t.val).c_str());
  count(t.v == MUST ? "numbers" : t.v == NO ? "non_numbers" : "grey");
}
static void to_number(const std::string &s, int base) {
  Exact e(s);
  StringView v = e.v();
  judge<uint64_t>("StringViewToU64", kanon::StringViewToU64(v, base), s, base);
  judge<uint32_t>("StringViewToU32", kanon::StringViewToU32(v, base), s, base);
  judge<uint16_t>("StringViewToU16", kanon::StringViewToU16(v, base), s, base);
  judge<uint8_t>("StringViewToU8", kanon::StringViewToU8(v, base), s, base);
  judge<int64_t>("StringViewTo64", kanon::StringViewTo64(v, base), s, base);
  judge<int32_t>("StringViewTo32", kanon::StringViewTo32(v, base), s, base);
  judge<int16_t>("StringViewTo16", kanon::StringViewTo16(v, base), s, base);
  judge<int8_t>("StringViewTo8", kanon::StringViewTo8(v, base), s, base);
  if (base != 10) return;
#define LC(T)                                                                       \
  judge<T>("lexical_cast<" #T ">(StringView)", kanon::lexical_cast<T>(v), s, 10);   \
  judge<T>("lexical_cast<" #T ">(string)", kanon::lexical_cast<T>(s), s, 10)
  LC(i8); LC(i16); LC(int); LC(long); LC(long long);
  LC(u8); LC(u16); LC(unsigned int); LC(unsigned long); LC(unsigned long long);
}
static std::string rand_number_text(Rng &r, int base) {
  static const i128 edges[] = {0, 1, INT8_MAX, INT8_MIN, UINT8_MAX, INT16_MAX, INT16_MIN, UINT16_MAX, INT32_MAX, INT32_MIN, UINT32_MAX, INT64_MAX, INT64_MIN, UINT64_MAX};
  int b = base < 2 || base > 36 ? 10 : base;
  i128 x = edges[r.below(14)];
  switch (r.below(4)) {
    case 0: x += (i128)r.below(5) - 2; break;
    case 1: x = (i128)(int64_t)(r.next() >> r.below(64)); if (r.chance(1, 2)) x = -x; break;
    case 2: x = (i128)r.next() * (r.chance(1, 2) ? 1 : (i128)(1 + r.below(100000))); if (r.chance(1, 3)) x = -x; break;
    default: x = -x + (i128)r.below(3) - 1; break;
  }
  std::string s = i2s(x, b);
  if (b > 10 && r.chance(1, 2)) s = upper(s);
  return s;
}
static std::string rand_numeric(Rng &r, int base) {
  std::string s = rand_number_text(r, base);
  switch (r.below(12)) {
    case 0: s = std::string(r.below(300), '0') + s; break;
    case 1: { size_t p = s[0] == '-'; s.insert(p, std::string(1 + r.below(200), '0')); break; }
    case 2: s += r.chance(1, 2) ? std::string(1, (char)r.next()) : std::string(1, " \n\0.x,-+eE"[r.below(10)]); break;
    case 3: s = std::string(1, " \t\n+\0-x."[r.below(8)]) + s; break;
    case 4: s.insert(r.below(s.size() + 1), 1, (char)r.next()); break;
    case 5: s = r.bytes(r.below(20)); break;
    case 6: { static const char *f[] = {"", "-", "+", " ", "0x", "0X", "-0", "+0", "--1", "+-1", "0x10", "0x1G", "-0x10", "010", "08", "1e3", "1.0", "inf", "nan", " 1", "1 ", "٣", "-", "0b1", "1_000", "1,000", "00", "-00", "- 1"};
      s = f[r.below(29)]; break; }
    case 7: s += rand_number_text(r, base); break;
    case 8: s = s.substr(0, r.below(s.size() + 1)); break;
    default: break;
  }
  return s;
}
template <class T>
static void there_and_back(T x) {
  std::string s = kanon::lexical_cast<std::string>(x);
  std::string v = kanon::lexical_cast<StringView>(x).ToString();
  if (s != i2s((i128)x) || v != s) viol("int-text", "%s became '%s' / '%s'", i2s((i128)x).c_str(), hex(s, 60).c_str(), hex(v, 60).c_str());
  auto b = kanon::lexical_cast<T>(s);
  if (!b.has_value() || *b != x) viol("int-back", "%s does not come back from its text", i2s((i128)x).c_str());
}
static void floats(uint32_t bits) {
  float f;
  memcpy(&f, &bits, 4);
  if (!std::isfinite(f)) return;
  std::string s = kanon::lexical_cast<std::string>(f);
  char *end = nullptr;
  float g = strtof(s.c_str(), &end);
  uint32_t gb;
  memcpy(&gb, &g, 4);
  if (*end || s.empty() || gb != bits) viol("float-back", "float %08x became '%s', which is %08x", bits, hex(s, 60).c_str(), gb);
}
static void k24(long, Rng &r) {
  int k = (int)opt_int("kind", (long)r.below(10));
  bool mt = is_tsan() ? k < 8 : k == 0;
  if (mt) {
    int nt = 2 + (int)r.below(4);
    std::atomic<int> go{0};
    std::vector<std::thread> ts;
    uint64_t s0 = r.next();
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        Rng q(s0 + (uint64_t)t);
        ++go;
        while (go < nt) {}
        for (int j = 0; j < 40; ++j) {
          int base = q.chance(1, 2) ? 10 : (int)(2 + q.below(35));
          to_number(rand_numeric(q, base), base);
          there_and_back<long>((long)q.next());
          there_and_back<unsigned long long>(q.next());
          there_and_back<int>((int)q.next());
          floats((uint32_t)q.next());
        }
      });
    for (auto &t : ts) t.join();
    count("thread_rounds");
    seen(mix(s0, nt));
    return;
  }
  uint64_t h = 0;
  if (k == 1 || k == 8) {
    for (int j = 0; j < 300; ++j) {
      int64_t x = (int64_t)(r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1);
      static const int64_t e[] = {INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, 0, -1, 1, 10, -10, 9, 99, 100, INT64_MIN + 1, 1000000000, 999999999};
      if (r.chance(1, 8)) x = e[r.below(15)];
      there_and_back<int>((int)x); there_and_back<long>(x); there_and_back<long long>(x);
      there_and_back<unsigned>((unsigned)x); there_and_back<unsigned long>((unsigned long)x); there_and_back<unsigned long long>((unsigned long long)x);
      there_and_back<short>((short)x); there_and_back<unsigned short>((unsigned short)x); there_and_back<unsigned char>((unsigned char)x);
      floats((uint32_t)r.next());
      floats((uint32_t)r.below(512) << 23 | (uint32_t)(r.chance(1, 2) ? 0 : r.chance(1, 2) ? 0x7fffff : r.next() & 0x7fffff));
      h = mix(h, (uint64_t)x);
    }
    count("round_trips", 300);
  } else if (k == 2) {  // every small number, in a random base
    int base = 2 + (int)r.below(35);
    long from = (long)r.below(140000) - 70000;
    for (long x = from; x < from + 60; ++x) to_number(i2s(x, base), base), to_number(i2s(x, 10), 10);
    h = mix(base, (uint64_t)from);
  } else {
    for (int j = 0; j < 60; ++j) {
      int base = r.chance(1, 2) ? 10 : r.chance(1, 3) ? 16 : (int)(2 + r.below(35));
      if (r.chance(1, 20)) { static const int bb[] = {0, 0, 0, 1, 37, -1, 100, INT32_MIN}; base = bb[r.below(8)]; }
      std::string s = rand_numeric(r, base);
      to_number(s, base);
      h = mix(h, mix(hash_str(s), base));
    }
  }
  seen(h);
}

// ---------------------------------------------------------------- K25
static int64_t edgy(Rng &r) {
  static const int64_t e[] = {0, 1, -1, 9, 10, -10, 127, -128, 255, 32767, -32768, 65535, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 99, 100, -100};
  return r.chance(1, 2) ? e[r.below(sizeof e / sizeof *e)] : (int64_t)(r.next() >> r.below(64));
}
static double edgy_double(Rng &r) {
  static const double ds[] = {0, -0.0, 1.5, -1e300, 1e-300, 3.14159265358979, 1e15, 123456789012.0, 1e12, -1e-5, 1.7976931348623157e308, 5e-324, 0.1, 1e22};
  if (r.chance(1, 10)) return r.chance(1, 2) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
  if (r.chance(1, 3)) { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return d; }
  return r.chance(1, 2) ? ds[r.below(14)] : (double)edgy(r) / 7.0;
}
static std::string dtext(double d) { char b[400]; snprintf(b, sizeof b, "%.12g", d); return b; }
static std::string ptext(uintptr_t u) { if (!u) return "(null)"; char b[40]; snprintf(b, sizeof b, "0x%016lX", (unsigned long)u); return b; }

template <unsigned N>
static void buffer_agrees(kanon::detail::FixedBuffer<N> &b, const std::string &model, const char *what) {
  if (b.len() != model.size() || b.avali() != N - model.size() || b.empty() != model.empty() || b.ToStringView().size() != model.size() ||
      b.ToStringView().data() != b.data() || b.cur() != b.data() + model.size() || b.end() != b.data() + N)
    viol("accounting", "%s: buffer of %u has length %u, %u left, expected %zu", what, N, b.len(), b.avali(), model.size());
  else if (memcmp(b.data(), model.data(), model.size()))
    viol("content", "%s: buffer of %u holds '%s', expected '%s'", what, N, hex(std::string(b.data(), b.len())).c_str(), hex(model).c_str());
}
// One more item went in: whole if it fits, else a beginning of it or nothing. model follows what is there.
template <unsigned N>
static void step(kanon::detail::FixedBuffer<N> &b, std::string &model, const std::string &item, const char *what) {
  size_t room = N - 1 - model.size();
  if (b.len() > N - 1 || b.len() < model.size()) VFATAL("overrun", "%s of %zu bytes: length %u in a buffer of %u", what, item.size(), b.len(), N);
  size_t got = b.len() - model.size();
  if (item.size() <= room ? got != item.size() : got > room)
    viol("item-size", "%s: %zu bytes of an item of %zu went into a buffer of %u with room for %zu", what, got, item.size(), N, room);
  if (item.size() > room) count("did_not_fit");
  if (got > item.size() || memcmp(b.data() + model.size(), item.data(), got))
    viol("item-text", "%s: '%s' written for '%s'", what, hex(std::string(b.data() + model.size(), got)).c_str(), hex(item).c_str());
  model.append(b.data() + model.size(), got);
  if (got && b.data()[model.size()] != 0) viol("terminator", "%s: no terminator behind %zu bytes in a buffer of %u", what, model.size(), N);
  buffer_agrees(b, model, what);
}
template <class S>
static void put(S &o, int kind, int64_t i, double d, const std::string &s, std::string &text) {
  switch (kind) {
    case 0: o << (int)i; text = std::to_string((int)i); break;
    case 1: o << (long long)i; text = std::to_string(i); break;
    case 2: o << (unsigned long long)i; text = std::to_string((uint64_t)i); break;
    case 3: o << (unsigned char)i; text = std::to_string((unsigned char)i); break;
    case 4: o << (short)i; text = std::to_string((short)i); break;
    case 5: o << (bool)(i & 1); text = i & 1 ? "True" : "False"; break;
    case 6: o << (char)i; text = std::string(1, (char)i); break;
    case 7: o << d; text = dtext(d); break;
    case 8: { float f = std::fabs(d) < 3e38 || !std::isfinite(d) ? (float)d : 1e38f; o << f; text = dtext(f); break; }
    case 9: o << s; text = s; break;
    case 10: o << s.c_str(); text = s.c_str(); break;
    case 11: { Exact e(s); o << e.v(); text = s; break; }
    case 12: o << (void const *)(uintptr_t)i; text = ptext((uintptr_t)i); break;
    case 13: o << (unsigned short)i; text = std::to_string((unsigned short)i); break;
    case 14: o << (unsigned long)i; text = std::to_string((unsigned long)i); break;
    case 15: o << (unsigned)i; text = std::to_string((unsigned)i); break;
    case 16: { Exact e(s); o.Append(e.p.get(), (unsigned)e.n); text = s; break; }
    case 17: { kanon::FmtStream<64> f("<%>", (int)i); o << f; text = "<" + std::to_string((int)i) + ">"; break; }
    default: o << (long)i; text = std::to_string((long)i); break;
  }
}
template <unsigned N>
static uint64_t lexical(Rng &r) {
  auto st = std::make_unique<kanon::LexicalStream<N>>();
  std::string model;
  uint64_t h = N;
  if (st->maxsize() != N) viol("maxsize", "maxsize %u of %u", st->maxsize(), N);
  int n = 1 + (int)r.below(40);
  for (int j = 0; j < n; ++j) {
    size_t len = r.chance(1, 8) ? r.below(N + 5) : r.chance(1, 4) && N - 1 - model.size() < 5000 ? N - 1 - model.size() + r.below(3) : r.below(12);
    std::string s = r.bytes(len), text;
    int kind = (int)r.below(22);
    if (kind < 19) {
      put(*st, kind, edgy(r), edgy_double(r), s, text);
      char what[20];
      snprintf(what, sizeof what, "<< kind %d", kind);
      step(st->buffer(), model, text, what);
      if (st->size() != model.size() || st->data() != st->buffer().data()) viol("accounting", "the stream and its buffer disagree");
      count("items");
    } else if (kind == 19 && r.chance(1, 3)) {
      st->reset();
      model.clear();
      buffer_agrees(st->buffer(), model, "reset");
    } else if (kind == 20 && r.chance(1, 2)) {  // moved
      auto m = std::make_unique<kanon::LexicalStream<N>>(std::move(*st));
      buffer_agrees(m->buffer(), model, "move construction");
      st = std::move(m);
      count("moves");
    } else if (kind == 21 && r.chance(1, 2)) {
      auto m = std::make_unique<kanon::LexicalStream<N>>();
      *m << "x";
      *m = std::move(*st);
      buffer_agrees(m->buffer(), model, "move assignment");
      st = std::move(m);
      count("moves");
    }
    h = mix(h, mix(kind, model.size()));
  }
  return h;
}
template <unsigned N>
static uint64_t raw_buffer(Rng &r) {
  typedef kanon::detail::FixedBuffer<N> B;
  std::unique_ptr<B> b(new B), c(new B);
  std::string mb, mc;
  uint64_t h = N * 3;
  int n = 1 + (int)r.below(30);
  for (int j = 0; j < n; ++j) {
    int k = (int)r.below(10);
    int64_t i = edgy(r);
    std::string s = r.bytes(r.chance(1, 5) ? r.below(N + 5) : r.below(10));
    Exact e(s);
    double d = edgy_double(r);
    switch (k) {
      case 0: b->Append(e.p.get(), (unsigned)e.n); step(*b, mb, s, "Append"); break;
      case 1: b->Append(e.v()); step(*b, mb, s, "Append(view)"); break;
      case 2: if (r.chance(1, 2)) b->appendInt(i); else b->appendInt((int)i), i = (int)i; step(*b, mb, std::to_string(i), "appendInt"); break;
      case 3: b->appendBool(i & 1); step(*b, mb, i & 1 ? "True" : "False", "appendBool"); break;
      case 4: b->appendChar((char)i); step(*b, mb, std::string(1, (char)i), "appendChar"); break;
      case 5: b->appendFloat(d); step(*b, mb, dtext(d), "appendFloat"); break;
      case 6: b->appendPtr((void *)(uintptr_t)i); step(*b, mb, ptext((uintptr_t)i), "appendPtr"); break;
      case 7: if (r.chance(1, 2)) swap(*b, *c); else b->swap(*c); std::swap(mb, mc); buffer_agrees(*b, mb, "swap"); buffer_agrees(*c, mc, "swap"); break;
      case 8: if (r.chance(1, 3)) { b->reset(); mb.clear(); buffer_agrees(*b, mb, "reset"); } break;
      default: if (r.chance(1, 4)) { b->zero(); mb.assign(mb.size(), 0); buffer_agrees(*b, mb, "zero"); } break;
    }
    h = mix(h, mix(k, mb.size()));
  }
  count("items", n);
  return h;
}
typedef std::variant<int, long, unsigned long long, short, unsigned char, bool, char, double, float, void const *, char const *, std::string, StringView> Arg;
static Arg rand_arg(Rng &r, std::string &text, std::vector<std::unique_ptr<Exact>> &keep) {
  int64_t i = edgy(r);
  double d = edgy_double(r);
  std::string s = r.bytes(r.chance(1, 10) ? r.below(300) : r.below(12));
  switch (r.below(13)) {
    case 0: text = std::to_string((int)i); return (int)i;
    case 1: text = std::to_string((long)i); return (long)i;
    case 2: text = std::to_string((unsigned long long)i); return (unsigned long long)i;
    case 3: text = std::to_string((short)i); return (short)i;
    case 4: text = std::to_string((unsigned char)i); return (unsigned char)i;
    case 5: text = i & 1 ? "True" : "False"; return (bool)(i & 1);
    case 6: text = std::string(1, (char)i); return (char)i;
    case 7: text = dtext(d); return d;
    case 8: { float f = std::fabs(d) < 3e38 || !std::isfinite(d) ? (float)d : 1e38f; text = dtext(f); return f; }
    case 9: text = ptext((uintptr_t)i); return (void const *)(uintptr_t)i;
    case 10: {
      s = s.c_str();
      keep.emplace_back(new Exact(s + '\0'));
      text = s;
      return (char const *)keep.back()->p.get();
    }
    case 11: text = s; return s;
    default: keep.emplace_back(new Exact(s)); text = s; return keep.back()->v();
  }
}
template <unsigned N>
static uint64_t fmt(Rng &r) {
  auto st = std::make_unique<kanon::FmtStream<N>>();
  std::string model;  // of what must be there: the pieces until one did not fit
  bool cut = false;
  uint64_t h = N * 5;
  int rounds = 1 + (int)r.below(3);
  for (int k = 0; k < rounds; ++k) {
    int n = (int)r.below(4);
    std::vector<std::unique_ptr<Exact>> keep;
    std::vector<Arg> as;
    std::string first;
    size_t mark = 0;
    std::string f;
    std::vector<std::string> pieces;
    auto lit = [&] {
      size_t len = r.chance(1, 3) ? 0 : r.chance(1, 8) ? r.below(200) : r.below(10);
      std::string t, s;
      for (size_t q = 0; q < len; ++q) {
        char c = r.chance(1, 5) ? '%' : (char)r.next();
        if (c == '%') t += "%%", s += '%';
        else t += c, s += c;
      }
      f += t;
      pieces.push_back(s);
      };
    for (int a = 0; a < n; ++a) {
      lit();
      std::string t;
      if (a == 0) as.push_back(rand_arg(r, first, keep));
      t = first;  // all the same, except the second of three
      if (n == 3 && a == 1) mark = pieces.size();
      f += '%';
      pieces.push_back(t);
      if (a + 1 < n && (r.chance(1, 2))) f += ' ', pieces.push_back(" ");
      else if (a + 1 < n) f += ':', pieces.push_back(":");
    }
    if (n && r.chance(1, 2)) { /* ends with a placeholder */ count("trailing_placeholder"); }
    else { if (n) f += ';', pieces.push_back(";"); lit(); }
    Exact ef(f);
    if (mark) pieces[mark] = std::to_string(ef.n);
    StringView v = ef.v();
    bool ctor = r.chance(1, 4);
    if (ctor) model.clear(), cut = false;
    auto run = [&](auto const &...a) {
      if (ctor) st.reset(new kanon::FmtStream<N>(v, a...));
      else st->Serialize(v, a...);
    };
    if (n == 0) { if (ctor) st.reset(new kanon::FmtStream<N>()); st->Serialize(v); }
    else if (n == 1) std::visit([&](auto const &a) { run(a); }, as[0]);
    else if (n == 2) std::visit([&](auto const &a) { run(a, a); }, as[0]);
    else std::visit([&](auto const &a) { run(a, ef.n, a); }, as[0]);
    h = mix(h, mix(hash_str(f), n));
    std::string got = st->ToStringView().ToString();
    if (got.size() > N - 1) VFATAL("overrun", "format stream of %u holds %zu bytes", N, got.size());
    if (st->GetData() != st->ToStringView().data()) viol("accounting", "data and view differ");
    if (!cut) {
      for (auto &p : pieces) {
        if (model.size() + p.size() > N - 1) { cut = true; break; }
        model += p;
      }
      if (cut ? got.compare(0, model.size(), model) != 0 : got != model)
        viol("format", "'%s' in %u bytes gives '%s', expected '%s'", hex(f, 60).c_str(), N, hex(got, 80).c_str(), hex(model, 80).c_str());
    } else if (got.compare(0, model.size(), model) != 0)
      viol("format-corrupt", "text of a full format stream changed");
    if (r.chance(1, 3)) {
      st->Reset();
      model.clear();
      cut = false;
      if (!st->ToStringView().empty()) viol("reset", "a reset format stream is not empty");
    }
  }
  count("formats", rounds);
  return h;
}
static uint64_t old_fmt(Rng &r) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
  static const char *fi[] = {"%d", "%08d", "[%x]", "%40d", "%-35d|", "%+d", "value of this number is %d."};
  static const char *fd[] = {"%f", "%.3f", "%e", "%.30f", "%g", "%50.1f"};
  char want[2000];
  const char *f;
  std::unique_ptr<kanon::Fmt> p;
  if (r.chance(1, 2)) { int i = (int)edgy(r); f = fi[r.below(7)]; p.reset(new kanon::Fmt(f, i)); snprintf(want, sizeof want, f, i); }
  else { double d = edgy_double(r); f = fd[r.below(6)]; p.reset(new kanon::Fmt(f, d)); snprintf(want, sizeof want, f, d); }
  std::string w = want, got(p->buf(), strnlen(p->buf(), 32));
  if (p->len() != got.size()) viol("fmt-length", "Fmt(%s) of '%s' says %u bytes and holds %zu", f, w.c_str(), p->len(), got.size());
  else if (w.size() < 32 ? got != w : w.compare(0, got.size(), got) != 0) viol("fmt-text", "Fmt(%s) gives '%s', expected '%s'", f, got.c_str(), w.c_str());
  count("old_fmts");
  return mix(hash_str(w), 77);
#pragma GCC diagnostic pop
}
template <unsigned N>
static uint64_t k25_one(Rng &r) {
  switch (opt_int("kind", (long)r.below(3))) {
    case 0: return lexical<N>(r);
    case 1: return raw_buffer<N>(r);
    default: return fmt<N == 1 || N == 5 ? 5 : N <= 64 ? 33 : N == 4096 ? 4096 : 700>(r);
  }
}
static void k25(Rng &r) {
  uint64_t h = 0;
  for (int j = 0; j < 8; ++j) {
    switch (r.below(11)) {
      case 0: h = mix(h, k25_one<1>(r)); break;
      case 1: h = mix(h, k25_one<2>(r)); break;
      case 2: h = mix(h, k25_one<5>(r)); break;
      case 3: h = mix(h, k25_one<16>(r)); break;
      case 4: h = mix(h, k25_one<33>(r)); break;
      case 5: h = mix(h, k25_one<64>(r)); break;
      case 6: h = mix(h, k25_one<100>(r)); break;
      case 7: h = mix(h, k25_one<333>(r)); break;
      case 8: h = mix(h, k25_one<700>(r)); break;
      case 9: h = mix(h, k25_one<4096>(r)); break;
      default: h = mix(h, old_fmt(r)); break;
    }
  }
  seen(h);
}

int main(int argc, char **argv) {
  init(argc, argv);
  std::string m = C().mode;
  run_cases([&](long i, Rng &r) {
    if (m == "k23") k23(i, r);
    else if (m == "k24") k24(i, r);
    else k25(r);
  });
  finish();
  return 0;
}
