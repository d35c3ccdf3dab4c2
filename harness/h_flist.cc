// K15: ForwardList against std::forward_list / std::vector.
#include "vh.h"
#include <initializer_list>
#include <forward_list>
#include <stdexcept>
#include "kanon/algo/forward_list.h"
using vh::Rng;
using vh::Tracked;

// compares by key only; identity (id) shows ordering/stability
struct Item : Tracked {
  int id;
  static long &budget() { static long b = -1; return b; }
  static void tick() { if (budget() >= 0 && budget()-- == 0) throw std::runtime_error("injected"); }
  Item() : Tracked(0), id(0) {}
  Item(int k, int i) : Tracked(k), id(i) {}
  Item(const Item &o) : Tracked(o), id(o.id) { tick(); }
  Item(Item &&o) noexcept : Tracked(std::move(o)), id(o.id) {}
  Item &operator=(const Item &o) { tick(); Tracked::operator=(o); id = o.id; return *this; }
  Item &operator=(Item &&o) noexcept { Tracked::operator=(std::move(o)); std::swap(id, o.id); return *this; }
};
typedef zstl::ForwardList<Item> L;
typedef std::vector<Item> V;
static bool same_el(const Item &a, const Item &b) { return a.v == b.v && a.id == b.id; }

static bool same(const char *op, L &l, const V &m) {
  size_t i = 0;
  for (auto it = l.begin(); it != l.end(); ++it, ++i) {
    if (i >= m.size()) { vh::viol("flist-content", "%s: more than %zu elements", op, m.size()); return false; }
    if (!same_el(*it, m[i])) { vh::viol("flist-content", "%s: element %zu of %zu is (%d,%d), expected (%d,%d)", op, i, m.size(), (*it).v, (*it).id, m[i].v, m[i].id); return false; }
  }
  if (i != m.size()) { vh::viol("flist-content", "%s: %zu elements, expected %zu", op, i, m.size()); return false; }
  if (l.size() != m.size()) { vh::viol("flist-size", "%s: size()=%zu, expected %zu", op, (size_t)l.size(), m.size()); return false; }
  if (l.empty() != m.empty()) { vh::viol("flist-size", "%s: empty()", op); return false; }
  if (!m.empty() && (!same_el(l.front(), m.front()) || !same_el(l.back(), m.back()))) { vh::viol("flist-ends", "%s: front/back", op); return false; }
  const L &c = l;
  i = 0;
  for (auto it = c.cbegin(); it != c.cend(); ++it) ++i;
  if (i != m.size()) { vh::viol("flist-content", "%s: const iteration", op); return false; }
  if (m.empty() ? !(c.cbefore_end() == c.cbefore_begin()) : !(c.cbefore_end().next() == c.cend())) { vh::viol("flist-ends", "%s: before_end", op); return false; }
  return true;
}
static L::Iterator at(L &l, size_t k) {  // k = 0: before_begin
  auto it = l.before_begin();
  while (k--) ++it;
  return it;
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  vh::run_cases([&](long, Rng &r) {
    long live0 = Tracked::live().load();
    std::string trace;
    uint64_t sig = 0;
    int ids = 1, keys = r.chance(1, 3) ? 3 : r.chance(1, 2) ? 8 : 1000;
    {
      L ls[2];
      V ms[2];
      V held;                      // extracted nodes' values
      std::vector<L::Node *> hold; // extracted nodes
      auto item = [&] { return Item((int)r.below(keys), ids++); };
      int n = 3 + (int)r.below(35);
      for (int i = 0; i < n; ++i) {
        int a = (int)r.below(2), b = 1 - a;
        L &l = ls[a], &o = ls[b];
        V &m = ms[a], &mo = ms[b];
        int op = (int)r.below(40);
        size_t p = r.below(m.size() + 1), k = r.chance(1, 12) ? r.below(150) : r.below(6);
        size_t q = p + r.below(m.size() + 1 - p);
        auto itm = m.begin() + p;
        const char *nm = "";
        bool inject = r.chance(1, 12);
        std::vector<Item> src;
        for (size_t j = 0; j < k; ++j) src.push_back(item());
        Item x = item();
        V before, before_o;
        bool threw = false;
        if (inject) { before = m; before_o = mo; Item::budget() = (long)r.below(6); }
        struct Restore { ~Restore() { Item::budget() = -1; } } restore;
#define M Item::budget() = -1
        try {
          switch (op) {
          case 0: nm = "push_front"; if (r.chance(1, 2)) l.push_front(x); else l.push_front(Item(x)); M; m.insert(m.begin(), x); break;
          case 1: case 2: nm = "push_back"; if (r.chance(1, 2)) l.push_back(x); else l.push_back(Item(x)); M; m.push_back(x); break;
          case 3: nm = "emplace"; if (r.chance(1, 2)) { l.emplace_front(x.v, x.id); M; m.insert(m.begin(), x); } else { l.emplace_back(x.v, x.id); M; m.push_back(x); } break;
          case 4: nm = "insert_after"; if (r.chance(1, 3)) l.emplace_after(at(l, p), x.v, x.id); else if (r.chance(1, 2)) l.insert_after(at(l, p), x); else l.insert_after(at(l, p), Item(x)); M; m.insert(itm, x); break;
          case 5: nm = "insert_after(n)"; l.insert_after(at(l, p), (L::SizeType)k, x); M; m.insert(itm, k, x); break;
          case 6: nm = "insert_after(range)"; l.insert_after(at(l, p), src.begin(), src.end()); M; m.insert(itm, src.begin(), src.end()); break;
          case 7: nm = "pop_front"; M; if (m.empty()) break; l.pop_front(); m.erase(m.begin()); break;
          case 8: { nm = "erase_after"; M; if (p == m.size()) break; auto it = l.erase_after(at(l, p)); if (!(it == at(l, p).next())) { vh::viol("flist-ret", "erase_after result"); return; } m.erase(itm); break; }
          case 9: { nm = "erase_after(range)"; M; // (p, q+1)
            auto last = at(l, q).next(); if (r.chance(1, 3)) { last = l.end(); q = m.size(); }
            auto it = l.erase_after(at(l, p), last); if (!(it == last)) { vh::viol("flist-ret", "erase_after range result"); return; }
            m.erase(m.begin() + p, m.begin() + q); break; }
          case 10: nm = "clear"; M; if (r.chance(1, 3)) { l.clear(); m.clear(); } break;
          case 11: nm = "resize(v)"; l.resize((L::SizeType)k * 2, x); M; m.resize(k * 2, x); break;
          case 12: nm = "assign(n)"; l.assign((L::SizeType)k, x); M; m.assign(k, x); break;
          case 13: nm = "assign(range)"; l.assign(src.begin(), src.end()); M; m.assign(src.begin(), src.end()); break;
          case 14: nm = "copy-assign"; l = o; M; m = mo; break;
          case 15: { nm = "copy-ctor"; L c(l); M; if (!same("copy-ctor", c, m)) return; if (r.chance(1, 2)) { c.push_back(x); c.reverse(); } break; }
          case 16: { nm = "move-ctor"; M; L c(std::move(l)); if (!same("move-ctor", c, m)) return; if (!same("moved-from", l, V())) return; c.push_back(x); m.push_back(x); l = std::move(c); break; }
          case 17: nm = "swap"; M; l.swap(o); m.swap(mo); break;
          case 18: nm = "self-assign"; { L &al = l; l = al; } M; break;
          case 19: nm = "splice(list)"; M; if (r.chance(1, 2)) l.splice_after(at(l, p), o); else l.splice_after(at(l, p), std::move(o)); m.insert(itm, mo.begin(), mo.end()); mo.clear(); break;
          case 20: { nm = "splice(one)"; M; if (mo.empty()) break; size_t z = r.below(mo.size()); l.splice_after(at(l, p), o, at(o, z)); m.insert(itm, mo[z]); mo.erase(mo.begin() + z); break; }
          case 21: { nm = "splice(range)"; M; size_t f = r.below(mo.size() + 1), g = f + r.below(mo.size() + 1 - f);
            l.splice_after(at(l, p), o, at(o, f), at(o, g).next()); m.insert(itm, mo.begin() + f, mo.begin() + g); mo.erase(mo.begin() + f, mo.begin() + g); break; }
          case 22: { nm = "splice(self)"; M; if (m.empty()) break; size_t z = r.below(m.size()); // move element z+1-th node after position p (p in 0..size)
            l.splice_after(at(l, p), l, at(l, z));
            if (p != z && p != z + 1) { Item t = m[z]; m.erase(m.begin() + z); m.insert(m.begin() + (p > z ? p - 1 : p), t); } break; }
          case 23: case 24: { nm = "merge"; M; l.sort(); o.sort(); std::stable_sort(m.begin(), m.end()); std::stable_sort(mo.begin(), mo.end());
            if (!same("sort", l, m) || !same("sort", o, mo)) return;
            V t; std::merge(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(t));
            l.merge(o); m = t; mo.clear(); break; }
          case 25: nm = "sort"; M; if (r.chance(1, 2)) { l.sort(); std::stable_sort(m.begin(), m.end()); } else { l.sort([](const Item &A, const Item &B) { return A > B; }); std::stable_sort(m.begin(), m.end(), [](const Item &A, const Item &B) { return A > B; }); } break;
          case 26: nm = "reverse"; M; l.reverse(); std::reverse(m.begin(), m.end()); break;
          case 27: { nm = "unique"; M; size_t c = l.unique(); size_t w = m.size(); m.erase(std::unique(m.begin(), m.end()), m.end()); if (c != w - m.size()) { vh::viol("flist-ret", "unique count"); return; } break; }
          case 28: { nm = "remove"; M; Item y((int)r.below(keys), 0); if (!m.empty() && r.chance(1, 2)) y.v = m[r.below(m.size())].v;
            size_t w = m.size(); m.erase(std::remove(m.begin(), m.end(), y), m.end()); size_t c = l.remove(y); if (c != w - m.size()) { vh::viol("flist-ret", "remove count"); return; } break; }
          case 29: { nm = "remove_if"; M; int par = (int)r.below(3); auto f = [&](const Item &e) { return e.id % 3 == par; }; size_t w = m.size();
            m.erase(std::remove_if(m.begin(), m.end(), f), m.end()); size_t c = l.remove_if(f); if (c != w - m.size()) { vh::viol("flist-ret", "remove_if count"); return; } break; }
          case 30: { nm = "extract"; M; if (m.empty()) break;
            if (r.chance(1, 2)) { held.push_back(m.front()); m.erase(m.begin()); hold.push_back(l.extract_front_node()); }
            else { if (p == m.size()) p = 0; held.push_back(m[p]); m.erase(m.begin() + p); hold.push_back(l.extract_after_node(at(l, p))); }
            if (!same_el(hold.back()->val, held.back())) { vh::viol("flist-extract", "wrong node extracted"); return; }
            break; }
          case 31: { nm = "relink"; M; if (hold.empty()) break;
            L::Node *nd = hold.back(); Item v = held.back(); hold.pop_back(); held.pop_back();
            int w = (int)r.below(3);
            if (w == 0) { l.push_front(nd); m.insert(m.begin(), v); } else if (w == 1) { l.push_back(nd); m.push_back(v); } else { l.insert_after(at(l, p), nd); m.insert(itm, v); }
            break; }
          case 32: { nm = "search_before"; M; Item y((int)r.below(keys), 0); auto f = std::find(m.begin(), m.end(), y); auto it = l.search_before(y);
            if (f == m.end() ? !(it == l.end()) : !(it == at(l, f - m.begin()))) { vh::viol("flist-ret", "search_before"); return; } break; }
          case 33: { nm = "compare"; M; auto eq = m == mo, lt = m < mo;
            if ((l == o) != eq || (l != o) == eq || (l < o) != lt || (l > o) != (mo < m) || (l <= o) == (mo < m) || (l >= o) == lt) { vh::viol("flist-compare", "sizes %zu %zu", m.size(), mo.size()); return; } break; }
          case 34: { nm = "remove(element)"; M; if (m.empty()) break; size_t z = r.below(m.size()); Item y = m[z]; size_t w = m.size();
            m.erase(std::remove(m.begin(), m.end(), y), m.end()); size_t c = l.remove(*at(l, z).next()); if (c != w - m.size()) { vh::viol("flist-ret", "remove(element) count %zu, %zu expected", c, w - m.size()); return; } break; }
          case 35: { nm = "insert(element)"; if (m.empty()) { M; break; } size_t z = r.below(m.size()); Item y = m[z]; const Item &e = *at(l, z).next();
            switch (r.below(4)) {
            case 0: l.push_back(e); M; m.push_back(y); break;
            case 1: l.push_front(e); M; m.insert(m.begin(), y); break;
            case 2: l.insert_after(at(l, p), e); M; m.insert(itm, y); break;
            default: l.insert_after(at(l, p), (L::SizeType)k, e); M; m.insert(itm, k, y); break;
            } break; }
          case 36: { nm = "assign(element)"; if (m.empty()) { M; break; } size_t z = r.below(m.size()); Item y = m[z]; const Item &e = *at(l, z).next();
            if (r.chance(1, 2)) { l.assign((L::SizeType)k, e); M; m.assign(k, y); } else { size_t s = m.size() + k; l.resize((L::SizeType)s, e); M; m.resize(s, y); } break; }
          case 37: nm = "merge(self)"; M; if (r.chance(1, 2)) { l.sort(); std::stable_sort(m.begin(), m.end()); } l.merge(l); break;
          case 38: { nm = "swap(self)"; M; L &al = l; if (r.chance(1, 2)) l.swap(al); else l = std::move(al); break; }
          case 39: { nm = "merge(greater)"; M; auto gt = [](const Item &A, const Item &B) { return A > B; };
            l.sort(gt); o.sort(gt); std::stable_sort(m.begin(), m.end(), gt); std::stable_sort(mo.begin(), mo.end(), gt);
            V t; std::merge(m.begin(), m.end(), mo.begin(), mo.end(), std::back_inserter(t), gt);
            if (r.chance(1, 2)) l.merge(o, gt); else l.merge(std::move(o), gt);
            m = t; mo.clear(); break; }
          }
        } catch (std::runtime_error &) {
          threw = true;
          Item::budget() = -1;
          vh::count("injected_throws");
        }
        sig = vh::mix(sig, (op * 64 + p) * 64 + k);
        trace += std::string(nm) + "(" + std::to_string(p) + "," + std::to_string(k) + ") ";
        if (threw) {
          // basic guarantee: the lists are still well formed; take over their contents
          m.clear();
          for (auto it = l.begin(); it != l.end(); ++it) m.push_back(*it);
          mo.clear();
          for (auto it = o.begin(); it != o.end(); ++it) mo.push_back(*it);
        }
        { V().swap(before); V().swap(before_o); }
        std::vector<Item>().swap(src);
        if (!same(nm, l, m) || !same(nm, o, mo)) { vh::viol("flist-trace", "%s", trace.c_str()); return; }
        long expect = live0 + 1 + (long)held.size() * 2 + 2 * (long)m.size() + 2 * (long)mo.size();
        if (Tracked::live().load() != expect) { vh::viol("flist-lifetime", "live=%ld expected=%ld after %s", Tracked::live().load(), expect, trace.c_str()); return; }
        vh::count("ops");
      }
      // non-member sort2 keeps the multiset and sorts
      ls[0].sort2();
      std::vector<int> k1, k2;
      for (auto it = ls[0].begin(); it != ls[0].end(); ++it) k1.push_back((*it).v);
      for (auto &e : ms[0]) k2.push_back(e.v);
      std::sort(k2.begin(), k2.end());
      if (k1 != k2 || ls[0].size() != k2.size()) vh::viol("flist-sort2", "%zu elements", k2.size());
      for (auto nd : hold) ls[1].drop_node(nd);
    }
    if (Tracked::errors().load()) vh::viol("flist-lifetime", "dead element used: %s", trace.c_str());
    if (Tracked::live().load() != live0) vh::viol("flist-lifetime", "%ld elements left: %s", Tracked::live().load() - live0, trace.c_str());
    vh::seen(sig);
    vh::sample(trace);
  });
  // construction forms and compile-time surface
  {
    zstl::ForwardList<int> a{1, 2, 3}, b(4, 7), c(b.begin(), b.end());
    a.resize(5);
    a.assign({4, 5});
    zstl::ForwardList<std::string> s(3);
    s.emplace_back(100, 'x');
    s.resize(1);
    if (a.size() != 2 || a.back() != 5 || b.size() != 4 || c.back() != 7 || s.size() != 1 || !s.front().empty()) vh::viol("flist-ctor", "constructors");
  }
  vh::finish();
}
