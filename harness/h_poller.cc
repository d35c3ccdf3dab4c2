// K12: what the pollers dispatch, against the real readiness and the interest in force.
#define VLOOP_WRAP_POLL
#include "vloop.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "kanon/net/channel.h"
using namespace kanon;
using namespace vh;

enum Kind { SOCK, PIPE_R, PIPE_W, EVFD, TCP, NKINDS };
static int g_listen = -1;
static void tcp_pair(int p[2]) {
  sockaddr_in a;
  socklen_t l = sizeof a;
  if (getsockname(g_listen, (sockaddr *)&a, &l)) abort();
  p[1] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (p[1] < 0 || connect(p[1], (sockaddr *)&a, sizeof a)) { printf("HARNESS-ERROR connect %d\n", errno); fflush(stdout); _exit(3); }
  p[0] = accept4(g_listen, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
  if (p[0] < 0) abort();
  fcntl(p[1], F_SETFL, O_NONBLOCK);
  int one = 1;
  setsockopt(p[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
static void rst_close(int fd) {
  struct linger li = {1, 0};
  setsockopt(fd, SOL_SOCKET, SO_LINGER, &li, sizeof li);
  ::close(fd);
}
struct Ch {
  int id;
  Kind kind;
  int fd = -1, peer = -1;
  std::unique_ptr<Channel> c;
  bool rd = false, wr = false, reg = false;   // interest in force (loop thread only)
  bool gone = false;                            // Channel destroyed
  std::atomic<uint64_t> got{0}, nread{0}, nwrite{0}, nhup{0}, nerr{0};
  uint64_t sent = 0, oob_sent = 0, oob_got = 0;  // urgent data goes beside the stream
  bool peer_closed = false, peer_rd_closed = false;
  std::atomic<bool> eof{false}, err{false};
  bool partial = false;                         // LT only: read a few bytes per event
  int wstyle = 0;                               // 0: disable at once; 1: fill until EAGAIN, then disable; 2: stay enabled
  std::function<void()> inject;                 // runs inside this channel's next callback
};

struct World {
  LoopHost *h = nullptr;
  bool et = false, poll = false;
  std::vector<std::unique_ptr<Ch>> ch;
  std::atomic<long> callbacks{0};
  bool in_cb = false;
  Ch *cur = nullptr;

  short real(Ch &c) {
    struct pollfd p = {c.fd, POLLIN | POLLPRI | POLLOUT | POLLRDHUP, 0};
    __real_poll(&p, 1, 0);
    return p.revents;
  }
  void enter(Ch &c, const char *what, bool interested) {
    ++callbacks;
    if (mytid() != h->tid.load()) viol("wrong-thread", "%s callback off the loop thread", what);
    if (c.gone) VFATAL("callback-after-destroy", "%s callback of a destroyed channel", what);
    if (!c.reg) viol("callback-after-remove", "%s callback of a removed or disabled channel (%s)", what, poll ? "poll" : "epoll");
    if (!interested) viol("callback-not-interested", "%s callback without interest (%s)", what, poll ? "poll" : et ? "epoll ET" : "epoll");
  }
  void fire_inject(Ch &c) {
    if (c.inject) {
      auto f = std::move(c.inject);
      c.inject = nullptr;
      cur = &c;
      f();
      cur = nullptr;
    }
  }
  void attach(Ch &c) {
    EventLoop *l = h->get();
    c.c.reset(new Channel(l, c.fd));
    c.gone = false;
    Ch *p = &c;
    c.c->SetReadCallback([this, p](TimeStamp) {
      enter(*p, "read", p->rd);
      short r = real(*p);
      if (!(r & (POLLIN | POLLPRI | POLLRDHUP | POLLHUP | POLLERR))) viol("read-not-ready", "read callback, descriptor has %x", r);
      ++p->nread;
      fire_inject(*p);
      if (!p->reg || !p->rd) return;
      char b[4096];
      if (p->kind == TCP && recv(p->fd, b, 1, MSG_OOB) == 1) ++p->oob_got;
      for (;;) {
        ssize_t n = ::read(p->fd, b, p->kind == EVFD ? 8 : p->partial ? 3 : sizeof b);
        if (n > 0) { p->got += p->kind == EVFD ? *(uint64_t *)b : n; if (p->partial) break; continue; }
        if (n == 0) { p->eof = true; off(*p); }
        if (n < 0 && errno != EAGAIN && errno != EINTR) { p->err = true; off(*p); }
        break;
      }
    });
    c.c->SetWriteCallback([this, p] {
      enter(*p, "write", p->wr);
      short r = real(*p);
      if (!(r & (POLLOUT | POLLERR | POLLHUP))) viol("write-not-ready", "write callback, descriptor has %x", r);
      ++p->nwrite;
      fire_inject(*p);
      if (!p->reg || !p->wr) return;
      if (p->wstyle == 1) {
        char b[8192] = {0};
        ssize_t n;
        while ((n = ::write(p->fd, b, sizeof b)) > 0) {}
        if (n < 0 && errno != EAGAIN) { p->err = true; off(*p); return; }
      }
      if (p->wstyle != 2) { p->wr = false; if (!p->rd) p->reg = false; p->c->DisableWriting(); }
    });
    c.c->SetCloseCallback([this, p] {
      enter(*p, "close", true);
      if (!(real(*p) & POLLHUP)) viol("hup-not-real", "close callback without hang-up");
      ++p->nhup;
      p->eof = true;
      off(*p);
    });
    c.c->SetErrorCallback([this, p] {
      enter(*p, "error", true);
      if (!(real(*p) & (POLLERR | POLLNVAL))) viol("err-not-real", "error callback without error");
      ++p->nerr;
      p->err = true;
      off(*p);
    });
  }
  void off(Ch &c) { c.rd = c.wr = c.reg = false; c.c->DisableAll(); }
  void set_rd(Ch &c, bool on) {
    c.rd = on;
    if (on) { c.reg = true; c.c->EnableReading(); }
    else { if (!c.wr) c.reg = false; c.c->DisableReading(); }
  }
  void set_wr(Ch &c, bool on) {
    c.wr = on;
    if (on) { c.reg = true; c.c->EnableWriting(); }
    else { if (!c.rd) c.reg = false; c.c->DisableWriting(); }
  }
  void remove(Ch &c) { c.rd = c.wr = c.reg = false; c.c->DisableAll(); c.c->Remove(); }
  void remove_raw(Ch &c) { c.rd = c.wr = c.reg = false; c.c->Remove(); c.c->SetEvents(0); }
  void destroy(Ch &c) { remove(c); c.gone = true; c.c.reset(); }
  void open(Ch &c, Rng &r) {
    int p[2];
    switch (c.kind) {
    case SOCK: if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p)) abort(); c.fd = p[0]; c.peer = p[1]; break;
    case PIPE_R: if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) abort(); c.fd = p[0]; c.peer = p[1]; break;
    case PIPE_W: if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) abort(); c.fd = p[1]; c.peer = p[0]; break;
    case TCP: tcp_pair(p); c.fd = p[0]; c.peer = p[1]; break;
    case NKINDS: abort();
    case EVFD: c.fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); c.peer = -1; break;
    }
    c.sent = 0; c.got = 0; c.oob_sent = c.oob_got = 0; c.nread = c.nwrite = c.nhup = c.nerr = 0;
    c.peer_closed = false; c.eof = false; c.err = false;
    c.partial = !et && r.chance(1, 3);
    c.wstyle = r.below(et ? 2 : 3);
    attach(c);
  }
  void closefds(Ch &c) {
    if (c.fd >= 0) { if (c.kind == TCP) rst_close(c.fd); else ::close(c.fd); }
    if (c.peer >= 0) ::close(c.peer);
    c.fd = c.peer = -1;
  }
};

static uint64_t scenario(Rng &r) {
  int fds = open_fds();
  uint64_t hs = 1;
  {
    World w;
    w.poll = r.chance(1, 2);
    w.et = !w.poll && r.chance(1, 2);
    g_eintr() = r.chance(1, 4) ? 5 : 0;
    g_delay() = r.chance(1, 4) ? 5 : 0;
    LoopHost h(w.poll, w.et);
    w.h = &h;
    int n = r.chance(1, 6) ? (int)r.range(18, r.chance(1, 3) ? 90 : 45) : (int)r.range(1, 6);
    hs = mix(w.poll + 2 * w.et, n);
    for (int i = 0; i < n; ++i) {
      w.ch.emplace_back(new Ch);
      Ch &c = *w.ch.back();
      c.id = i;
      c.kind = (Kind)r.below(NKINDS);
    }
    h.sync([&] { for (auto &c : w.ch) { w.open(*c, r); } });
    auto can_read = [](Ch &c) { return c.kind != PIPE_W; };
    auto can_write = [](Ch &c) { return c.kind != PIPE_R; };
    int steps = r.range(4, 24);
    for (int s = 0; s < steps && C().viols < 3; ++s) {
      int burst = n > 10 ? (int)r.range(1, 40) : 1;
      bool at_once = burst > 1 && r.chance(1, 2);
      auto one = [&] {
        Ch &c = *r.pick(w.ch);
        int op = r.below(13);
        hs = mix(hs, op * 8 + c.kind);
        switch (op) {
        case 0: case 1: case 2:  // data from the peer
          if (!c.peer_closed && c.kind != PIPE_W) {
            if (c.kind == EVFD) { uint64_t v = r.range(1, 3); if (::write(c.fd, &v, 8) == 8) c.sent += v; }
            else if (c.kind == TCP && c.oob_sent == c.oob_got && c.sent == c.got.load() && r.chance(1, 2)) { if (send(c.peer, "!", 1, MSG_OOB) == 1) { c.oob_sent++; count("urgent"); } }
            else { std::string d = r.bytes(r.range(1, 9)); ssize_t k = ::write(c.peer, d.data(), d.size()); if (k > 0) c.sent += k; }
          }
          break;
        case 3: case 4: if (!c.gone && can_read(c) && !c.eof && !c.err) w.set_rd(c, true); break;
        case 5: if (!c.gone && can_write(c) && c.kind != EVFD && !c.eof && !c.err) w.set_wr(c, true); break;
        case 6: if (!c.gone && c.rd) w.set_rd(c, false); break;
        case 7: if (!c.gone && c.wr) w.set_wr(c, false); break;
        case 8: if (!c.gone) w.off(c); break;
        case 9: if (!c.gone) { if (r.chance(1, 2)) w.remove(c); else w.remove_raw(c); } break;
        case 10:  // destroy; sometimes with the descriptor number reused at once
          if (!c.gone) w.destroy(c);
          w.closefds(c);
          if (r.chance(1, 2)) c.kind = (Kind)r.below(NKINDS);
          w.open(c, r);
          break;
        case 11:  // peer goes away
          if (c.peer >= 0 && !c.peer_closed) { c.peer_closed = true; ::close(c.peer); c.peer = -1; }
          break;
        case 12: {  // inside this channel's next callback: act on another (or this) channel
          Ch *o = w.ch[r.below(n)].get();
          int a = r.below(5);
          Ch *self = &c;
          World *pw = &w;
          c.inject = [pw, o, a, self] {
            if (o->gone) return;
            switch (a) {
            case 0: pw->off(*o); break;
            case 1: pw->remove(*o); break;
            case 2: if (o != self) { pw->destroy(*o); } else pw->remove_raw(*o); break;
            case 3: if (o->rd) pw->set_rd(*o, false); break;
            case 4: if (o->wr) pw->set_wr(*o, false); break;
            }
          };
          break;
        }
        }
      };
      if (n > 10 && r.chance(1, 3))  // all of them ready in the same wake-up
        h.sync([&] {
          for (auto &p : w.ch) {
            if (p->gone || p->eof || p->err || p->peer_closed) continue;
            if (can_read(*p)) {
              w.set_rd(*p, true);
              uint64_t v = 1;
              ssize_t k = ::write(p->kind == EVFD ? p->fd : p->peer, &v, 8);
              if (k > 0) p->sent += p->kind == EVFD ? 1 : k;
            } else w.set_wr(*p, true);
          }
        });
      // everything at once on the loop: one wake-up then sees many ready channels
      if (at_once || n <= 10) h.sync([&] { for (int b = 0; b < burst; ++b) one(); });
      else for (int b = 0; b < burst; ++b) h.sync(one);
      // every persistent event a channel is interested in must be dispatched
      std::vector<std::pair<uint64_t, uint64_t>> snap(n);
      bool ok = wait_for([&] {
        bool all = true;
        h.sync([&] {
          for (auto &p : w.ch) {
            Ch &c = *p;
            if (c.gone || !c.reg) continue;
            short re = w.real(c);
            if (c.rd && (re & (POLLIN | POLLPRI))) all = false;                               // unread data remains
            if (c.rd && c.kind == TCP && (c.got.load() != c.sent || c.oob_got != c.oob_sent)) all = false;  // on its way
            if (c.rd && (re & (POLLHUP | POLLRDHUP)) && !c.eof && !c.err) all = false;
            if (!c.rd && (re & (POLLHUP | POLLERR)) && !c.err && !c.eof) all = false;
            if (c.wr && (re & POLLOUT) && c.wstyle != 2) all = false;
          }
        }, "poller probe");
        return all;
      });
      if (!ok) {
        std::string d;
        h.sync([&] {
          for (auto &p : w.ch)
            if (!p->gone && p->reg) {
              char b[200];
              snprintf(b, sizeof b, "[kind %d rd %d wr %d ready %x reads %d writes %d bytes %d/%d urgent %d/%d%s]", p->kind, p->rd, p->wr, w.real(*p), (int)p->nread.load(), (int)p->nwrite.load(), (int)p->got.load(), (int)p->sent, (int)p->oob_got, (int)p->oob_sent, p->partial ? " partial" : "");
              d += b;
            }
        });
        VFATAL("event-not-dispatched", "%s: %s", w.poll ? "poll" : w.et ? "epoll ET" : "epoll", d.substr(0, 600).c_str());
      }
      // level-triggered writers that stay enabled are called again and again
      if (!w.et) {
        Ch *st = nullptr;
        h.sync([&] { for (auto &p : w.ch) if (!p->gone && p->wr && p->wstyle == 2 && (w.real(*p) & POLLOUT)) st = p.get(); });
        if (st) {
          uint64_t b = st->nwrite.load();
          bool adv = wait_for([&] { return st->nwrite.load() > b; });
          if (!adv) VFATAL("event-not-dispatched", "writable channel with interest is not called (%s)", w.poll ? "poll" : "epoll");
        }
      }
      // conservation: what was read is what was sent
      h.sync([&] {
        for (auto &p : w.ch)
          if (!p->gone && p->rd && p->oob_got != p->oob_sent) viol("bytes", "read %llu of %llu urgent bytes", (unsigned long long)p->oob_got, (unsigned long long)p->oob_sent);
      });
      h.sync([&] {
        for (auto &p : w.ch)
          if (!p->gone && p->rd && p->got.load() != p->sent) viol("bytes", "read %llu of %llu", (unsigned long long)p->got.load(), (unsigned long long)p->sent);
      });
    }
    // nothing enabled: the loop is idle, whatever state the descriptors are in
    h.sync([&] { for (auto &c : w.ch) if (!c->gone) { c->inject = nullptr; w.off(*c); } });
    h.sync([&] { for (auto &c : w.ch) if (c->peer >= 0 && r.chance(1, 2)) { ::close(c->peer); c->peer = -1; } });
    h.sync();
    g_eintr() = 0;
    g_delay() = 0;
    h.sync();
    long cb = w.callbacks, p0 = g_polls();
    sleep_us(1500);
    if (w.callbacks.load() != cb) viol("callback-after-disable", "%ld callbacks with nothing enabled", w.callbacks.load() - cb);
    if (g_polls() - p0 > 20) viol("busy-loop", "%ld polls in 1.5 ms with nothing enabled", g_polls() - p0);
    // and it works again after being enabled again
    h.sync([&] {
      for (auto &c : w.ch) if (!c->gone && c->kind == EVFD) { c->eof = c->err = false; uint64_t v = 1; ssize_t k = ::write(c->fd, &v, 8); (void)k; c->sent += 1; w.set_rd(*c, true); }
    });
    if (!wait_for([&] { for (auto &c : w.ch) if (!c->gone && c->kind == EVFD && c->got.load() != c->sent) return false; return true; }))
      VFATAL("not-reenabled", "channel enabled again is not called (%s)", w.poll ? "poll" : "epoll");
    h.sync([&] { for (auto &c : w.ch) { if (!c->gone) w.destroy(*c); w.closefds(*c); } });
    count("callbacks", w.callbacks.load());
    hs = mix(hs, w.callbacks.load());
    h.quit();
  }
  if (open_fds() != fds) viol("fd-leak", "%d descriptors, %d before", open_fds(), fds);
  count("steps", 1);
  return hs;
}

int main(int argc, char **argv) {
  init(argc, argv);
  quiet_log();
  g_listen = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(g_listen, (sockaddr *)&a, sizeof a) || listen(g_listen, 8)) { printf("HARNESS-ERROR listen\n"); fflush(stdout); _exit(3); }
  run_cases([&](long, Rng &r) {
    uint64_t h = scenario(r);
    seen(h);
    char b[80];
    snprintf(b, sizeof b, "operations %016llx", (unsigned long long)h);
    sample(b);
  });
  finish();
  return C().viols ? 95 : 0;
}
