// K13: Buffer against a std::string model, under ASan/UBSan.
#include "vh.h"
#include "kanon/net/buffer.h"
#include <sys/socket.h>
#include <errno.h>
using namespace kanon;
using vh::Rng;

static size_t pick_size(Rng &r) {
  switch (r.below(10)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return r.below(9);
  case 3: case 4: return r.below(64);
  case 5: return r.below(1100);
  case 6: return 1024 + r.below(3) - 1;
  case 7: return r.below(5000);
  case 8: return r.chance(1, 8) ? 60000 + r.below(80000) : r.below(300);
  default: return r.below(300);
  }
}
// text biased towards delimiters, NULs and newlines
static std::string text(Rng &r, size_t n) {
  static const char al[] = {'\r', '\n', 0, 'a', 'b', '\xff', '\r', '\n'};
  std::string s(n, 0);
  if (r.chance(1, 2)) for (auto &c : s) c = al[r.below(sizeof al)];
  else for (auto &c : s) c = (char)r.next();
  return s;
}

struct M {
  Buffer b;
  std::string m;
  explicit M(size_t n) : b(n) {}
  M() {}
};

static bool check(const char *op, Buffer &b, const std::string &m) {
  const Buffer &cb = b;
  if (b.GetReadableSize() != m.size()) {
    vh::viol("buffer-size", "after %s: readable=%zu expected=%zu", op, (size_t)b.GetReadableSize(), m.size());
    return false;
  }
  if (b.HasReadable() != !m.empty()) { vh::viol("buffer-hasreadable", "after %s", op); return false; }
  if (b.GetPrependableSize() + b.GetReadableSize() + b.GetWritableSize() != b.GetCapacity()) {
    vh::viol("buffer-regions", "after %s: %zu+%zu+%zu != %zu", op, (size_t)b.GetPrependableSize(),
             (size_t)b.GetReadableSize(), (size_t)b.GetWritableSize(), (size_t)b.GetCapacity());
    return false;
  }
  if (!m.empty() && memcmp(cb.GetReadBegin(), m.data(), m.size()) != 0) {
    size_t i = 0;
    while (cb.GetReadBegin()[i] == m[i]) ++i;
    vh::viol("buffer-content", "after %s: first difference at %zu of %zu", op, i, m.size());
    return false;
  }
  auto sv = b.ToStringView();
  if (sv.size() != m.size() || (!m.empty() && memcmp(sv.data(), m.data(), m.size()))) {
    vh::viol("buffer-view", "after %s", op);
    return false;
  }
  if (!b.HasReadable() && b.GetPrependableSize() < 8) {
    vh::viol("buffer-prefix", "after %s: empty buffer has only %zu bytes of prefix", op, (size_t)b.GetPrependableSize());
    return false;
  }
  return true;
}

template <class U> static std::string be(U v) {
  std::string s;
  for (int i = sizeof(U) - 1; i >= 0; --i) s += (char)(v >> (8 * i));
  return s;
}
template <class U> static U unbe(const std::string &s) {
  U v = 0;
  for (size_t i = 0; i < sizeof(U); ++i) v = (U)((v << (sizeof(U) > 1 ? 8 : 0)) | (unsigned char)s[i]);
  return v;
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  int sp[2];
  vh::run_cases([&](long, Rng &r) {
    size_t init = r.chance(1, 3) ? 1024 : (r.chance(1, 2) ? r.below(40) : r.below(2000));
    M x(init), y;
    std::string trace;
    uint64_t sig = init;
    int n = 5 + (int)r.below(60);
    for (int i = 0; i < n; ++i) {
      int op = (int)r.below(34);
      size_t k = 0;
      char opn[48];
      snprintf(opn, sizeof opn, "op%d", op);
      switch (op) {
      case 0: case 1: case 2: case 3: {
        std::string t = text(r, k = pick_size(r));
        std::unique_ptr<char[]> ex(new char[t.size() ? t.size() : 1]);
        memcpy(ex.get(), t.data(), t.size());
        if (op == 0) x.b.Append(StringView(ex.get(), t.size()));
        else if (op == 1) x.b.Append(ex.get(), t.size());
        else x.b.Append((void const *)ex.get(), t.size());
        x.m += t;
        strcpy(opn, "Append");
        break;
      }
      case 4: { uint8_t v = r.next(); x.b.Append8(v); x.m += be(v); strcpy(opn, "Append8"); break; }
      case 5: { uint16_t v = r.next(); x.b.Append16(v); x.m += be(v); strcpy(opn, "Append16"); break; }
      case 6: { uint32_t v = r.next(); x.b.Append32(v); x.m += be(v); strcpy(opn, "Append32"); break; }
      case 7: { uint64_t v = r.next(); x.b.Append64(v); x.m += be(v); strcpy(opn, "Append64"); break; }
      case 8: case 9: {
        size_t p = x.b.GetPrependableSize();
        if (p < 8) break;
        std::string t = text(r, k = r.below(std::min<size_t>(p, 20) + 1));
        x.b.Prepend(t.data(), t.size());
        x.m = t + x.m;
        strcpy(opn, "Prepend");
        break;
      }
      case 10: if (x.b.GetPrependableSize() >= 8) { uint64_t v = r.next(); x.b.Prepend64(v); x.m = be(v) + x.m; strcpy(opn, "Prepend64"); } break;
      case 11: if (x.b.GetPrependableSize() >= 8) { uint32_t v = r.next(); x.b.Prepend32(v); x.m = be(v) + x.m; strcpy(opn, "Prepend32"); } break;
      case 12: if (x.b.GetPrependableSize() >= 8) { uint16_t v = r.next(); x.b.Prepend16(v); x.m = be(v) + x.m; strcpy(opn, "Prepend16"); } break;
      case 13: if (x.b.GetPrependableSize() >= 8) { uint8_t v = r.next(); x.b.Prepend8(v); x.m = be(v) + x.m; strcpy(opn, "Prepend8"); } break;
      case 14: case 15: {
        k = r.chance(1, 3) ? x.m.size() : r.below(x.m.size() + 1);
        x.b.AdvanceRead(k); x.m.erase(0, k); strcpy(opn, "AdvanceRead"); break;
      }
      case 16: x.b.AdvanceAll(); x.m.clear(); strcpy(opn, "AdvanceAll"); break;
#define RD(bits, c) case c: if (x.m.size() >= bits / 8) { \
        uint##bits##_t e = unbe<uint##bits##_t>(x.m); \
        if (x.b.GetReadBegin##bits() != e) { vh::viol("buffer-int", "GetReadBegin" #bits); return; } \
        if (r.chance(1, 2)) { if (x.b.Read##bits() != e) { vh::viol("buffer-int", "Read" #bits); return; } } \
        else x.b.AdvanceRead##bits(); \
        x.m.erase(0, bits / 8); strcpy(opn, "Read" #bits); } break;
      RD(8, 17) RD(16, 18) RD(32, 19) RD(64, 20)
      case 21: {
        k = r.below(x.m.size() + 1);
        std::string s = x.b.RetrieveAsString(k);
        if (s != x.m.substr(0, k)) { vh::viol("buffer-retrieve", "RetrieveAsString(%zu)", k); return; }
        x.m.erase(0, k); strcpy(opn, "RetrieveAsString"); break;
      }
      case 22: {
        k = r.below(x.m.size() + 1);
        auto v = x.b.RetrieveAsVector(k);
        if (std::string(v.begin(), v.end()) != x.m.substr(0, k)) { vh::viol("buffer-retrieve", "RetrieveAsVector(%zu)", k); return; }
        x.m.erase(0, k); strcpy(opn, "RetrieveAsVector"); break;
      }
      case 23: {
        if (r.chance(1, 2)) { std::string s = x.b.RetrieveAllAsString(); if (s != x.m) { vh::viol("buffer-retrieve", "All"); return; } }
        else { auto v = x.b.RetrieveAllAsVector(); if (std::string(v.begin(), v.end()) != x.m) { vh::viol("buffer-retrieve", "AllVec"); return; } }
        x.m.clear(); strcpy(opn, "RetrieveAll"); break;
      }
      case 24: case 25: {
        bool crlf = op == 24;
        size_t p = x.m.find(crlf ? "\r\n" : "\n");
        StringView sv;
        bool g = crlf ? x.b.FindCrLf(sv) : x.b.FindLf(sv);
        if (g != (p != std::string::npos) || (g && (sv.size() != p || memcmp(sv.data(), x.m.data(), p)))) {
          vh::viol("buffer-find", "%s(view) found=%d expected pos=%zd in %s", crlf ? "FindCrLf" : "FindLf", g, (ssize_t)p, vh::hex(x.m).c_str());
          return;
        }
        if (r.chance(1, 2)) {
          std::string s = "keep";
          bool g2 = crlf ? x.b.FindCrLf(s) : x.b.FindLf(s);
          if (g2 != g || (g && s != x.m.substr(0, p)) || (!g && s != "keep")) { vh::viol("buffer-find", "string form"); return; }
          if (g) x.m.erase(0, p);
        }
        strcpy(opn, crlf ? "FindCrLf" : "FindLf");
        break;
      }
      case 26: {
        k = pick_size(r);
        x.b.ReserveWriteSpace(k);
        if (x.b.GetWritableSize() < k) { vh::viol("buffer-reserve", "ReserveWriteSpace(%zu) left %zu", k, (size_t)x.b.GetWritableSize()); return; }
        strcpy(opn, "Reserve"); break;
      }
      case 27: {  // user-filled write region
        size_t w = x.b.GetWritableSize();
        k = r.below(std::min<size_t>(w, 3000) + 1);
        std::string t = text(r, k);
        if (k) memcpy(x.b.GetWriteBegin(), t.data(), k);
        x.b.AdvanceWrite(k); x.m += t; strcpy(opn, "AdvanceWrite"); break;
      }
      case 28: case 29: {
        k = r.chance(1, 2) ? 0 : pick_size(r);
        size_t cap = x.b.GetCapacity(), pre = x.b.GetPrependableSize();
        x.b.Shrink(k);
        if (x.b.GetCapacity() > cap) { vh::viol("buffer-shrink", "grew from %zu to %zu", cap, (size_t)x.b.GetCapacity()); return; }
        if (x.b.GetCapacity() > std::max(x.m.size() + 8 + k, (size_t)16)) {
          if (x.b.GetCapacity() > x.m.size() + 8 + k + 64) { vh::viol("buffer-shrink", "capacity %zu for %zu readable + %zu", (size_t)x.b.GetCapacity(), x.m.size(), k); return; }
        }
        if (pre >= 8 && x.b.GetPrependableSize() < 8) { vh::viol("buffer-shrink", "prefix %zu", (size_t)x.b.GetPrependableSize()); return; }
        strcpy(opn, "Shrink"); break;
      }
      case 30: { if (r.chance(1, 2)) x.b.swap(y.b); else std::swap(x.b, y.b); std::swap(x.m, y.m);
        if (!check("swap(other)", y.b, y.m)) return;
        strcpy(opn, "swap"); break; }
      case 31: { Buffer c(x.b); if (!check("copy-ctor", c, x.m)) return;
        if (r.chance(1, 2)) { y.b = x.b; y.m = x.m; if (!check("copy-assign", y.b, y.m)) return; }
        c.Append("zz", 2);
        strcpy(opn, "copy"); break; }
      case 32: { Buffer c(std::move(x.b)); if (!check("move-ctor", c, x.m)) return;
        x.b = std::move(c); strcpy(opn, "move"); break; }
      case 33: {  // read from a descriptor
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sp)) break;
        std::string t = text(r, k = (r.chance(1, 6) ? r.below(150000) : pick_size(r)));
        ssize_t w = t.empty() ? 0 : ::write(sp[0], t.data(), t.size());
        if (w < 0) w = 0;
        t.resize(w);
        bool shut = r.chance(1, 4);
        if (shut) close(sp[0]);
        size_t pos = 0;
        for (;;) {
          int se = 0;
          size_t before = x.b.GetReadableSize();
          ssize_t g = (ssize_t)BufferReadFromFd(x.b, sp[1], se);
          if (g < 0) {
            if (se != EAGAIN || pos != t.size() || shut) { vh::viol("buffer-readfd", "errno %d after %zu of %zu", se, pos, t.size()); return; }
            if (x.b.GetReadableSize() != before) { vh::viol("buffer-readfd", "failed read changed size"); return; }
            break;
          }
          if (g == 0) { if (!shut || pos != t.size()) { vh::viol("buffer-readfd", "eof after %zu of %zu", pos, t.size()); return; } break; }
          if (pos + g > t.size()) { vh::viol("buffer-readfd", "read %zd at %zu of %zu", g, pos, t.size()); return; }
          x.m += t.substr(pos, g);
          pos += g;
          if (!check("ReadFromFd", x.b, x.m)) return;
        }
        close(sp[1]);
        if (!shut) close(sp[0]);
        strcpy(opn, "ReadFromFd");
        vh::count("fd_reads");
        break;
      }
      }
      sig = vh::mix(sig, (uint64_t)op * 1000003 + k);
      if (trace.size() < 300) { trace += opn; trace += k ? "(" + std::to_string(k) + ") " : " "; }
      if (!check(opn, x.b, x.m)) { vh::viol("buffer-trace", "init=%zu %s", init, trace.c_str()); return; }
      vh::count("ops");
    }
    if (!check("end(other)", y.b, y.m)) return;
    vh::seen(sig);
    vh::sample("Buffer(" + std::to_string(init) + "): " + trace);
  });
  vh::finish();
}
