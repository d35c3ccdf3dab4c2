// K26: addresses between text, number and socket form.
// Names are answered by a stand-in resolver (wrapped getaddrinfo) which hands
// numeric hosts to the real one; nothing leaves the machine.
#include "kanon/net/inet_addr.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/endian_api.h"

#include <arpa/inet.h>
#include <netdb.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>

#include "vh.h"
#include "vloop.h"
using namespace vh;
using kanon::InetAddr;
using kanon::StringView;

struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
  StringView v() const { return StringView(p.get(), n); }
};

// What the resolver knows: one name, with addresses in this order.
static std::string g_name;
static std::vector<std::string> g_answers;
static int g_lookups, g_gai_fail;
extern "C" {
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *host, const char *serv, const struct addrinfo *hints, struct addrinfo **res) {
  ++g_lookups;
  *res = nullptr;
  if (g_gai_fail) return g_gai_fail;
  struct addrinfo h;
  memset(&h, 0, sizeof h);
  if (hints) h = *hints;
  h.ai_flags &= ~AI_ADDRCONFIG;
  h.ai_flags |= AI_NUMERICHOST;
  if (host && g_name == host) {  // the first answer comes first in the list
    struct addrinfo *first = nullptr, **tail = &first;
    for (auto &a : g_answers) {
      struct addrinfo *r = nullptr;
      int e = __real_getaddrinfo(a.c_str(), serv, &h, &r);
      if (e) { if (first) freeaddrinfo(first); return e; }
      *tail = r;
      while (*tail) tail = &(*tail)->ai_next;
    }
    *res = first;
    return first ? 0 : EAI_NONAME;
  }
  return __real_getaddrinfo(host, serv, &h, res);
}
}

struct A {  // an address as the harness sees it
  int fam = 0;
  unsigned char b[16] = {};
  uint16_t port = 0;
  std::string ip() const { char t[64]; inet_ntop(fam, b, t, sizeof t); return t; }
  std::string text() const { return (fam == AF_INET6 ? "[" + ip() + "]" : ip()) + ":" + std::to_string(port); }
};
static A rand_addr(Rng &r) {
  A a;
  a.fam = r.chance(1, 2) ? AF_INET : AF_INET6;
  for (auto &c : a.b) c = (unsigned char)(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 255 : r.next());
  if (a.fam == AF_INET6) switch (r.below(6)) {
    case 0: memset(a.b, 0, 16); a.b[15] = (unsigned char)r.below(2); break;
    case 1: memset(a.b, 0, 10); a.b[10] = a.b[11] = 255; break;             // IPv4 mapped
    case 2: memset(a.b, 0, 12); break;                                       // IPv4 compatible
    case 3: memset(a.b + 2 * r.below(8), 0, 2 * (1 + r.below(2)) > 16 ? 2 : 2); a.b[0] = 0xfe; a.b[1] = 0x80; break;
    default: break;
  }
  static const uint16_t ports[] = {0, 1, 80, 255, 256, 9999, 32767, 32768, 65535};
  a.port = r.chance(1, 2) ? ports[r.below(9)] : (uint16_t)r.next();
  return a;
}
static std::string other_spelling(Rng &r, const A &a) {
  if (a.fam == AF_INET) return a.ip();
  std::string s;
  char t[64];
  switch (r.below(4)) {
    case 0: s = a.ip(); for (auto &c : s) c = (char)toupper(c); return s;
    case 1: for (int i = 0; i < 8; ++i) { snprintf(t, sizeof t, "%s%04x", i ? ":" : "", a.b[2 * i] << 8 | a.b[2 * i + 1]); s += t; } return s;
    case 2: for (int i = 0; i < 6; ++i) { snprintf(t, sizeof t, "%x:", a.b[2 * i] << 8 | a.b[2 * i + 1]); s += t; }
      snprintf(t, sizeof t, "%d.%d.%d.%d", a.b[12], a.b[13], a.b[14], a.b[15]); return s + t;
    default: return a.ip();
  }
}
// Is x, built in memory that held garbage, exactly a?
static bool same(const InetAddr &x, const A &a, const char *what, const std::string &from) {
  auto bad = [&](const char *key, const std::string &got) {
    viol(key, "%s from '%s': %s, expected %s", what, hex(from, 60).c_str(), got.c_str(), a.text().c_str());
    return false;
  };
  count("addresses");
  if (x.GetFamily() != a.fam || x.IsIpv4() != (a.fam == AF_INET)) return bad("family", "family " + std::to_string(x.GetFamily()));
  if (a.fam == AF_INET) {
    const sockaddr_in *s = x.ToIpv4();
    if (s->sin_family != AF_INET || memcmp(&s->sin_addr, a.b, 4)) return bad("bytes", "other bytes");
    if (s->sin_port != htons(a.port)) return bad("port", "port " + std::to_string(ntohs(s->sin_port)));
    if ((const void *)x.ToSockaddr() != (const void *)s) return bad("sockaddr", "another socket address");
  } else {
    const sockaddr_in6 *s = x.ToIpv6();
    if (s->sin6_family != AF_INET6 || memcmp(&s->sin6_addr, a.b, 16)) return bad("bytes", "other bytes");
    if (s->sin6_port != htons(a.port)) return bad("port", "port " + std::to_string(ntohs(s->sin6_port)));
    if (s->sin6_flowinfo || s->sin6_scope_id) return bad("scope", "flow or scope not cleared");
    if ((const void *)x.ToSockaddr() != (const void *)s) return bad("sockaddr", "another socket address");
  }
  if (x.GetPort() != a.port) return bad("port", "port " + std::to_string(x.GetPort()));
  if (x.ToIp() != a.ip()) return bad("ip-text", x.ToIp());
  if (x.ToIpPort() != a.text()) return bad("text", x.ToIpPort());
  return true;
}
// Builds an address in dirty memory; false if it threw a std::exception.
struct Dirty {
  alignas(InetAddr) unsigned char mem[sizeof(InetAddr)];
  InetAddr *p = nullptr;
  Dirty() { memset(mem, 0xa5, sizeof mem); }
  template <class... T> bool make(T &&...t) {
    try { p = new (mem) InetAddr(std::forward<T>(t)...); } catch (const std::exception &) { p = nullptr; }
    return p != nullptr;
  }
};

static void from_parts(Rng &r) {
  A a = rand_addr(r);
  std::string ip = other_spelling(r, a);
  {
    Exact e(ip);
    Dirty d;
    if (!d.make(e.v(), a.port)) viol("refused", "InetAddr('%s', %d)", ip.c_str(), a.port);
    else {
      same(*d.p, a, "InetAddr(ip, port)", ip);
      Dirty back;
      Exact t(d.p->ToIpPort());
      if (!back.make(t.v())) viol("refused", "InetAddr('%s')", d.p->ToIpPort().c_str());
      else same(*back.p, a, "there and back", d.p->ToIpPort());
      InetAddr c(*d.p), as;
      as = *d.p;
      same(c, a, "copy", ip);
      same(as, a, "assignment", ip);
    }
  }
  {
    Dirty d;
    std::string text = (a.fam == AF_INET6 ? "[" + ip + "]" : ip) + ":" + std::to_string(a.port);
    Exact e(text);
    if (!d.make(e.v())) viol("refused", "InetAddr('%s')", text.c_str());
    else same(*d.p, a, "InetAddr(text)", text);
  }
  {  // "address string" as the host of a host and service pair, and its resolution
    Dirty d;
    std::string port = std::to_string(a.port);
    if (!d.make(ip, port)) viol("refused", "InetAddr('%s', '%s')", ip.c_str(), port.c_str());
    else same(*d.p, a, "InetAddr(host, service)", ip);
    auto v = InetAddr::Resolve(ip, port, r.chance(1, 2));
    if (v.empty()) viol("refused", "Resolve('%s', '%s') finds nothing", ip.c_str(), port.c_str());
    for (auto &x : v) same(x, a, "Resolve", ip);
  }
  {
    Dirty d;
    if (a.fam == AF_INET) { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(a.port); memcpy(&s.sin_addr, a.b, 4); d.make(s);
      char t[64]; kanon::sock::ToIpPort(t, sizeof t, (sockaddr *)&s); if (t != a.text()) viol("text", "sock::ToIpPort gives %s for %s", t, a.text().c_str());
      sockaddr_in q; memset(&q, 0xa5, sizeof q); kanon::sock::FromIpPort(ip, a.port, q); if (q.sin_family != AF_INET || q.sin_port != s.sin_port || memcmp(&q.sin_addr, &s.sin_addr, 4)) viol("bytes", "sock::FromIpPort of %s", ip.c_str()); }
    else { sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = htons(a.port); memcpy(&s.sin6_addr, a.b, 16); d.make(s);
      char t[64]; kanon::sock::ToIp(t, sizeof t, (sockaddr *)&s); if (t != a.ip()) viol("text", "sock::ToIp gives %s for %s", t, a.ip().c_str());
      sockaddr_in6 q; memset(&q, 0xa5, sizeof q); kanon::sock::FromIpPort(ip, a.port, q); if (q.sin6_family != AF_INET6 || q.sin6_port != s.sin6_port || memcmp(&q.sin6_addr, &s.sin6_addr, 16)) viol("bytes", "sock::FromIpPort of %s", ip.c_str()); }
    same(*d.p, a, "InetAddr(sockaddr)", a.text());
  }
  {
    bool lo = r.chance(1, 2), v6 = r.chance(1, 2);
    A w;
    w.port = a.port;
    w.fam = v6 ? AF_INET6 : AF_INET;
    if (lo && v6) w.b[15] = 1;
    else if (lo) w.b[0] = 127, w.b[3] = 1;
    Dirty d;
    d.make(a.port, lo, v6);
    same(*d.p, w, "InetAddr(port, loopback, v6)", w.text());
  }
  {  // byte order
    uint16_t h = (uint16_t)r.next(); uint32_t w = (uint32_t)r.next(); uint64_t q = r.next();
    unsigned char b[8];
    uint16_t nh = kanon::sock::ToNetworkByteOrder16(h); memcpy(b, &nh, 2);
    if (b[0] != h >> 8 || b[1] != (h & 255) || kanon::sock::ToHostByteOrder16(nh) != h) viol("byte-order", "16 bits %x", h);
    uint32_t nw = kanon::sock::ToNetworkByteOrder32(w); memcpy(b, &nw, 4);
    if (b[0] != w >> 24 || b[3] != (w & 255) || kanon::sock::ToHostByteOrder32(nw) != w) viol("byte-order", "32 bits %x", w);
    uint64_t nq = kanon::sock::ToNetworkByteOrder64(q); memcpy(b, &nq, 8);
    if (b[0] != q >> 56 || b[1] != (q >> 48 & 255) || b[7] != (q & 255) || kanon::sock::ToHostByteOrder64(nq) != q) viol("byte-order", "64 bits %lx", (long)q);
  }
}

// ---- texts of every kind
static bool strict_port(const std::string &s, long &v) {
  v = 0;
  if (s.empty()) return false;
  for (char c : s) { if (c < '0' || c > '9') return false; v = std::min(v * 10 + c - '0', 1000000L); }
  return v <= 65535;
}
// Spellings of a number the system's resolver knows too, and its way to say "none"; they may be refused.
static bool lenient_port(std::string s, long &v) {
  v = 0;
  if (s == "*") return true;
  if (s == "http") { v = 80; return true; }
  size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  return strict_port(s.substr(i), v) && !(neg && v);
}
static const bool kHttp = getservbyname("http", "tcp") != nullptr;
static std::string mutate(Rng &r, std::string s) {
  int n = 1 + (int)r.below(2);
  while (n--) {
    size_t p = r.below(s.size() + 1);
    static const char in[] = ":.[]*-+ %x0129azG/\0";
    switch (r.below(5)) {
      case 0: s.insert(p, 1, in[r.below(sizeof in)]); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: if (p < s.size()) s[p] = in[r.below(sizeof in)]; break;
      case 3: s = s.substr(0, p); break;
      default: if (p < s.size()) s[p] = (char)r.next(); break;
    }
  }
  return s;
}
static void from_text(Rng &r) {
  static const char *names[] = {"localhost", "example.test", "a-b.c1.d", "www.x--y.z", "f00d", "fe80"};
  g_name = names[r.below(6)];
  g_answers.clear();
  std::vector<A> want;
  int na = 1 + (int)r.below(3);
  for (int i = 0; i < na; ++i) want.push_back(rand_addr(r)), g_answers.push_back(want.back().ip());
  g_gai_fail = r.chance(1, 12) ? (r.chance(1, 2) ? EAI_AGAIN : EAI_SYSTEM) : 0;
  A a = rand_addr(r);
  std::string host, port, t;
  switch (r.below(10)) {
    case 0: case 1: case 2: host = g_name; break;
    case 3: host = "*"; break;
    default: host = a.fam == AF_INET6 ? "[" + other_spelling(r, a) + "]" : a.ip(); break;
  }
  static const char *badports[] = {"", "65536", "99999", "-1", "4294967376", "18446744073709551696", "80x", "x", "0x50", " ", "1 ", "http ", "-", "80:90", ":80"};
  static const char *greyports[] = {"+80", " 80", "00080", "http", "0000000000000000000000000000000000000000000000000000000000000000000000000000000080"};
  int pk = (int)r.below(8);
  port = pk == 0 ? badports[r.below(15)] : pk == 1 ? greyports[r.below(5)] : std::to_string(a.port);
  t = host + ":" + port;
  if (r.chance(1, 3)) t = mutate(r, t);
  if (r.chance(1, 40)) t = r.bytes(r.below(12));
  if (r.chance(1, 80)) t += std::string(r.below(3000), "1:.a"[r.below(4)]);

  // what the text is
  bool must = false, may = false;
  A exp;
  bool nul = t.find('\0') != std::string::npos;
  bool by_name = false;
  size_t colon;
  long pv = 0;
  std::string h, ps;
  if (!t.empty() && t[0] == '[' && (colon = t.find(']')) != std::string::npos) {
    h = t.substr(1, colon - 1);
    if (colon + 1 < t.size() && t[colon + 1] == ':') {
      ps = t.substr(colon + 2);
      exp.fam = AF_INET6;
      if (!nul && inet_pton(AF_INET6, h.c_str(), exp.b) == 1) {
        if (strict_port(ps, pv)) must = true;
        else may = ps != "*" && ps != "http" && lenient_port(ps, pv);
      }
    }
  } else if ((colon = t.find(':')) != std::string::npos) {
    h = t.substr(0, colon);
    ps = t.substr(colon + 1);
    bool dotted = !nul && (h == "*" || inet_pton(AF_INET, h.c_str(), exp.b) == 1);
    if (h == "*") memset(exp.b, 0, 16);
    exp.fam = AF_INET;
    by_name = !dotted && !nul && h == g_name && !g_gai_fail;
    if (dotted || by_name) {
      if (strict_port(ps, pv)) must = true;
      else if (lenient_port(ps, pv)) { may = by_name || (ps != "*" && ps != "http"); must = by_name && ps == "http" && kHttp; }
    } else if (!nul && !g_gai_fail && h.find_first_not_of("0123456789.") != std::string::npos) {
      // some other form the resolver of the system may know (0x7f.1); it must at least be what the system says
      addrinfo hi{}, *res = nullptr;
      hi.ai_socktype = SOCK_STREAM; hi.ai_flags = AI_NUMERICHOST;
      if (lenient_port(ps, pv) && getaddrinfo(h.c_str(), ps.c_str(), &hi, &res) == 0) {
        if (res->ai_family == AF_INET) { may = true; memcpy(exp.b, &((sockaddr_in *)res->ai_addr)->sin_addr, 4); }
        freeaddrinfo(res);
      }
    }
  }
  exp.port = (uint16_t)pv;
  if (by_name) { memcpy(exp.b, want[0].b, 16); exp.fam = want[0].fam; }
  g_lookups = 0;
  Exact e(t);
  Dirty d;
  bool ok = d.make(e.v());
  if (ok && !must && !may) viol("accepted", "InetAddr('%s') is %s", hex(t, 80).c_str(), d.p->ToIpPort().c_str());
  else if (!ok && must) viol("refused", "InetAddr('%s') is refused, expected %s", hex(t, 80).c_str(), exp.text().c_str());
  else if (ok) same(*d.p, exp, "InetAddr(text)", t);
  count(must ? by_name ? "names" : "texts" : may ? "grey" : "malformed");

  // an address alone, with a number as the port
  Exact eh(h);
  Dirty dp;
  A he;
  he.port = a.port;
  bool v4 = h.find('\0') == std::string::npos && inet_pton(AF_INET, h.c_str(), he.b) == 1;
  bool v6 = !v4 && h.find('\0') == std::string::npos && inet_pton(AF_INET6, h.c_str(), he.b) == 1;
  he.fam = v4 ? AF_INET : AF_INET6;
  ok = dp.make(eh.v(), a.port);
  if (ok != (v4 || v6)) viol(ok ? "accepted" : "refused", "InetAddr('%s', %d) is %s", hex(h, 60).c_str(), a.port, ok ? dp.p->ToIpPort().c_str() : "refused");
  else if (ok) same(*dp.p, he, "InetAddr(ip, port)", h);

  // the resolver with any service
  if (t.find('\0') == std::string::npos) {
    std::string sv = r.chance(1, 2) ? ps : port;
    auto v = InetAddr::Resolve(g_name, sv, r.chance(1, 2));
    long rp = 0;
    bool sp = strict_port(sv, rp), grey = !sp && (sv.empty() || lenient_port(sv, rp));
    if (g_gai_fail || (!sp && !grey)) {
      if (!v.empty()) viol("accepted", "Resolve('%s', '%s') gives %s", g_name.c_str(), hex(sv).c_str(), v[0].ToIpPort().c_str());
    } else if (sp || !v.empty()) {
      if (v.size() != want.size()) viol("resolve", "Resolve('%s', '%s') gives %zu addresses of %zu", g_name.c_str(), sv.c_str(), v.size(), want.size());
      else for (size_t i = 0; i < v.size(); ++i) { want[i].port = (uint16_t)rp; same(v[i], want[i], "Resolve", sv); }
    }
    Dirty dn;
    if (dn.make(g_name, sv) != !v.empty()) viol("resolve", "InetAddr('%s', '%s') and Resolve disagree", g_name.c_str(), hex(sv).c_str());
    else if (dn.p) same(*dn.p, want[0], "InetAddr(host, service)", sv);
    count("resolutions");
  }
  g_gai_fail = 0;
  seen(mix(hash_str(t), 1));
}
// the addresses of real sockets
static void sockets(Rng &r) {
  bool v6 = r.chance(1, 2);
  Dirty d;
  d.make((uint16_t)0, true, v6);
  int l = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  kanon::sock::Bind(l, d.p->ToSockaddr());
  kanon::sock::Listen(l);
  InetAddr la(kanon::sock::GetLocalAddr(l));
  int c = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (kanon::sock::Connect(c, la.ToSockaddr()) != 0) { close(l); close(c); count("no_connect"); return; }
  sockaddr_in6 pa;
  memset(&pa, 0xa5, sizeof pa);
  int s = kanon::sock::Accept(l, &pa);
  auto raw = [&](int fd, bool peer) {
    sockaddr_storage ss{};
    socklen_t n = sizeof ss;
    if (peer) getpeername(fd, (sockaddr *)&ss, &n); else getsockname(fd, (sockaddr *)&ss, &n);
    A a;
    a.fam = ss.ss_family;
    if (a.fam == AF_INET) memcpy(a.b, &((sockaddr_in *)&ss)->sin_addr, 4), a.port = ntohs(((sockaddr_in *)&ss)->sin_port);
    else memcpy(a.b, &((sockaddr_in6 *)&ss)->sin6_addr, 16), a.port = ntohs(((sockaddr_in6 *)&ss)->sin6_port);
    return a;
  };
  same(la, raw(l, false), "GetLocalAddr", "a listening socket");
  same(InetAddr(kanon::sock::GetLocalAddr(c)), raw(c, false), "GetLocalAddr", "a connected socket");
  same(InetAddr(kanon::sock::GetPeerAddr(c)), raw(l, false), "GetPeerAddr", "a connected socket");
  same(InetAddr(kanon::sock::GetPeerAddr(s)), raw(c, false), "GetPeerAddr", "an accepted socket");
  same(InetAddr(pa), raw(c, false), "Accept", "an accepted socket");
  if (kanon::sock::IsSelfConnect(c) || kanon::sock::IsSelfConnect(s)) viol("self-connect", "a connection between two sockets is called a self connection");
  close(s); close(c); close(l);
  count("sockets");
  seen(mix(la.GetPort(), v6));
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet_log();
  run_cases([&](long, Rng &r) {
    int k = (int)opt_int("kind", (long)r.below(40));
    if (k == 0) { sockets(r); return; }
    for (int j = 0; j < 10; ++j) {
      if (k < 12) from_parts(r);
      else from_text(r);
    }
    if (k < 12) seen(r.next());
  });
  finish();
  return 0;
}
