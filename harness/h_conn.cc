// K05-K09: connections under hostile peers, kernels and applications.
// A session = one real connection (TcpServer / TcpClient / UnixConnection) with
// a peer driven through raw system calls; monitors watch the callbacks, the
// byte streams in both directions, and what the kernel accepted.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/channel.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/connection/unix_connection.h"
#include <mutex>
using namespace kanon;
using vh::Rng;

static std::string g_prop;  // the property being decided
// a monitor's finding, filed only under the property it refutes
#define V(prop, key, ...) do { if (g_prop == prop) vh::viol(key, __VA_ARGS__); else vh::count("other_property_findings"); } while (0)

enum End { E_SHUT, E_PEER, E_PEERFIN, E_FORCE, E_RST, E_LATE, E_OWNER };
static const char *end_name(int e) { static const char *n[] = {"shutdown", "peer-close", "peer-fin", "force", "rst", "late-data", "owner-gone"}; return n[e]; }
static const uint32_t MAGIC = 0xF00DF00Du;
struct Hdr { uint32_t magic; uint16_t sender, pad; uint32_t seq, len; };
static const int NS = 8, POISON = 200;

struct SenderStat { std::atomic<int> tried{0}, done{0}; int got = 0, need = 0; };

struct Cfg {
  int backend = 0, kind = 0, end = 0, nsess = 1, nloops = 0, nsend = 0, frames = 0, big = 0;
  bool k09 = false;
};

static std::string make_frame(int sender, int seq, size_t len, uint32_t key) {
  std::string f(sizeof(Hdr) + len, 0);
  Hdr h = {MAGIC, (uint16_t)sender, 0, (uint32_t)seq, (uint32_t)len};
  memcpy(&f[0], &h, sizeof h);
  vh::pat_fill(&f[sizeof h], len, key + sender * 7919 + seq * 104729, 0);
  return f;
}

template <class Conn> struct Sess : std::enable_shared_from_this<Sess<Conn>> {
  using Ptr = std::shared_ptr<Conn>;
  using Self = Sess<Conn>;
  Cfg cfg;
  int id = 0;
  uint64_t seed = 0;
  uint32_t okey = 0, ikey = 0;  // patterns of the two directions
  // --- callbacks' view (loop thread), published through atomics
  std::atomic<int> ups{0}, downs{0}, tid{0}, fd{-1};
  std::mutex mu;
  Ptr ref;
  std::weak_ptr<Conn> weak;
  std::atomic<bool> have_ref{false};
  Rng lr{1};           // loop thread's randomness
  // input
  long consumed = 0;
  std::atomic<long> got{0};      // bytes presented so far
  std::atomic<long> got_at_down{-1};
  std::atomic<long> msgs{0};
  // output
  SenderStat snd[NS];
  std::atomic<bool> stop{false}, loop_stop{false};
  std::atomic<int> up_budget{0}, msg_budget{0}, wc_budget{0};
  // loop-thread accounting for K09
  long S = 0;
  std::atomic<long> Sa{0}, wc_S{-1}, wcs{0};
  size_t mark = 0;
  bool k09_off = false;
  std::vector<size_t> hwm_expect;
  std::atomic<size_t> hwm_seen{0}, hwm_want{0};
  // triggers executed inside callbacks
  std::atomic<int> shut_in{0}, force_in{0};  // 1 up, 2 message, 3 write complete
  std::atomic<bool> shut_done{false};
  std::atomic<bool> toggles{false};
  std::atomic<long> reads_off{0};
  std::atomic<bool> down_ref_drop{false};
  uint64_t trace = 0;

  int sfd() { return fd.load(); }

  // ---------------------------------------------------------------- sending
  size_t pick_len(Rng &r) {
    if (cfg.big > 1 << 20 && r.chance(1, 3)) return (4 << 20) + r.below((uint64_t)cfg.big - (4 << 20));
    switch (r.below(12)) {
    case 0: return 0;
    case 1: case 2: return r.below(8);
    case 3: return 4080 + r.below(40) - sizeof(Hdr);
    case 4: return r.below(9000);
    case 5: return cfg.big ? r.below(cfg.big) : r.below(3000);
    default: return r.below(300);
    }
  }
  void raw_send_variant(Ptr const &c, std::string &f, Rng &r) {
    switch (r.below(5)) {
    case 0: c->Send(f.data(), f.size()); break;
    case 1: c->Send(StringView(f.data(), f.size())); break;
    case 2: {
      InputBuffer b;
      if (r.chance(1, 2)) { b.Append("junk", 4); b.AdvanceRead(4); }
      b.Append(f.data(), f.size());
      c->Send(b);
      break;
    }
    case 3: {
      OutputBuffer b;
      b.Append(f.data(), f.size());
      c->Send(b);
      break;
    }
    default: {
      OutputBuffer b;  // header in front of the payload, as codecs do
      Hdr h;
      memcpy(&h, f.data(), sizeof h);
      size_t n = f.size() - 8;
      if (n) b.Append(f.data() + 8, n);
      b.Prepend(f.data(), 8);
      c->Send(b);
    }
    }
  }
  void send_frame(Ptr const &c, int sender, Rng &r, size_t len) {
    int seq = snd[sender].tried++;
    std::string f = make_frame(sender, seq, len, okey);
    if (cfg.k09) {
      bool up = c->IsConnected();
      long B0 = S - vh::acc(sfd()).out.load();
      raw_send_variant(c, f, r);
      if (!c->IsConnected()) k09_off = true;  // somebody closes: the message may have been dropped
      if (up) {
        S += (long)f.size();
        Sa = S;
        long B1 = S - vh::acc(sfd()).out.load();
        if (B0 < (long)mark && B1 >= (long)mark) {
          hwm_expect.push_back((size_t)B1);
          hwm_want = hwm_expect.size();
          vh::count("hwm_crossings");
        }
      }
    } else {
      raw_send_variant(c, f, r);
    }
    snd[sender].done++;
  }
  void poison(Ptr const &c, Rng &r) {
    std::string f = make_frame(POISON, 0, r.below(50), okey);
    raw_send_variant(c, f, r);
    vh::count("sends_after_shutdown");
  }
  void do_shutdown(Ptr const &c, Rng &r) {
    for (int i = 0; i < NS; ++i) snd[i].need = snd[i].done.load();
    c->ShutdownWrite();
    int n = (int)r.below(3);
    for (int i = 0; i < n; ++i) poison(c, r);
    if (r.chance(1, 3)) c->ShutdownWrite();
    shut_done = true;
  }
  void do_force(Ptr const &c, Rng &r) {
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      if (r.chance(1, 4)) c->ShutdownWrite();
      c->ForceClose();
      if (r.chance(1, 4)) { std::string f = make_frame(POISON, 0, 5, okey); raw_send_variant(c, f, r); }
    }
    vh::count("forced_closes");
  }

  // -------------------------------------------------------------- callbacks
  void thread_check(const char *what) {
    int t = vh::mytid(), e = 0;
    if (!tid.compare_exchange_strong(e, t) && e != t) V("K08", "callback-thread", "%s ran on thread %d, earlier callbacks on %d", what, t, e);
  }
  void on_conn(Ptr const &c) {
    thread_check("connection callback");
    if (c->IsConnected() && ups.load() == 0) on_up(c);
    else if (c->IsConnected()) { V("K08", "second-up", "session %d reported up %d times", id, ups.load() + 1); ups++; }
    else on_down(c);
  }
  void on_up(Ptr const &c) {
    int f = c->channel()->GetFd();
    fd = f;
    lr = Rng(seed ^ 0x1001);
    if (!c->GetLoop()->IsLoopInThread()) V("K08", "callback-wrong-loop", "up notification outside the connection's loop");
    bool et = c->GetLoop()->IsEdgeTriggerMode();
    vh::acc_start(f, et, cfg.k09 && lr.chance(1, 2) ? 0 : (lr.chance(1, 4) ? 0 : 2 + (int)lr.below(12)));
    if (cfg.big <= 1 << 20 && lr.chance(2, 3)) {
      int v = 1 << (12 + lr.below(5));
      setsockopt(f, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
    }
    auto self = this->shared_from_this();
    if (cfg.kind == 3 || lr.chance(1, 2)) {
      c->SetMessageCallback([self](Ptr const &p, Buffer &b, TimeStamp) { self->on_msg(p, b); });
      c->SetWriteCompleteCallback([self](Ptr const &p) { return self->on_wc(p); });
    }
    if (cfg.k09 || lr.chance(1, 2)) set_mark(c);
    {
      std::lock_guard<std::mutex> g(mu);
      ref = c;
      weak = c;
    }
    have_ref = true;
    ups++;
    int n = up_budget.load();
    for (int i = 0; i < n; ++i) send_frame(c, 0, lr, pick_len(lr));
    if (shut_in == 1) do_shutdown(c, lr);
    if (force_in == 1) do_force(c, lr);
  }
  void set_mark(Ptr const &c) {
    static const size_t marks[] = {1, 100, 4096, 10000, 65536, 200000, 1000000};
    mark = marks[lr.below(7)];
    auto self = this->shared_from_this();
    c->SetHighWaterMarkCallback([self](Ptr const &, size_t n) { self->on_hwm(n); }, mark);
  }
  void on_down(Ptr const &c) {
    if (ups.load() != 1) V("K08", "down-without-up", "session %d down after %d ups", id, ups.load());
    if (downs.load() == 0) got_at_down = got.load();
    if (downs.fetch_add(1) > 0) { if (g_prop == "K07") vh::viol("second-down", "session %d (%s)", id, end_name(cfg.end)); V("K08", "second-down", "session %d (%s)", id, end_name(cfg.end)); }
    if (fd.load() >= 0) vh::acc_stop(fd);
    // everything is harmless now
    std::string f = make_frame(POISON, 1, 3, okey);
    for (int i = 0; i < 4; ++i)
      switch (lr.below(6)) {
      case 0: raw_send_variant(c, f, lr); f = make_frame(POISON, 1, 3, okey); break;
      case 1: c->ShutdownWrite(); break;
      case 2: c->ForceClose(); break;
      case 3: c->EnableRead(); break;
      case 4: c->DisbaleRead(); break;
      }
    if (!c->IsDisconnected()) V("K08", "down-state", "connection reported down is not in the disconnected state");
    if (down_ref_drop) {
      std::lock_guard<std::mutex> g(mu);
      ref.reset();
    }
  }
  void on_msg(Ptr const &c, Buffer &b) {
    thread_check("message callback");
    if (ups.load() != 1 || downs.load() != 0) V("K08", "message-outside", "message with %d ups and %d downs", ups.load(), downs.load());
    msgs++;
    size_t n = b.GetReadableSize();
    long total = consumed + (long)n;
    if (total < got.load()) V("K06", "input-shrunk", "%ld bytes presented before, now %ld", got.load(), total);
    size_t d = vh::pat_diff(b.GetReadBegin(), n, ikey, (uint64_t)consumed);
    if (d != n) V("K06", "input-bytes", "session %d: byte %ld is %02x, peer sent %02x (of %zu readable)", id, consumed + (long)d, (unsigned char)b.GetReadBegin()[d], (unsigned char)vh::pat(ikey, consumed + d), n);
    if (total == got.load() && n) vh::count("message_without_new_bytes");
    got = total;
    size_t take = 0;
    switch (lr.below(5)) {
    case 0: take = lr.below(n + 1); break;
    case 1: take = n > 0 ? lr.below(std::min<size_t>(n, 5)) : 0; break;
    default: take = n;
    }
    b.AdvanceRead(take);
    consumed += (long)take;
    if (toggles && lr.chance(1, 6)) {
      c->DisbaleRead();
      reads_off++;
      std::weak_ptr<Conn> w = c;
      c->GetLoop()->RunAfter([w] { if (auto p = w.lock()) p->EnableRead(); }, lr.below(3) * 0.001);
    }
    while (!loop_stop && msg_budget > 0 && lr.chance(2, 3)) {
      --msg_budget;
      send_frame(c, 1, lr, pick_len(lr));
    }
    if (shut_in == 2) { shut_in = 0; do_shutdown(c, lr); }
    if (force_in == 2) { force_in = 0; do_force(c, lr); }
  }
  bool on_wc(Ptr const &c) {
    thread_check("write-complete callback");
    if (ups.load() != 1 || downs.load() != 0) V("K08", "writecomplete-outside", "write-complete with %d ups and %d downs", ups.load(), downs.load());
    wcs++;
    if (cfg.k09) {
      long K = vh::acc(sfd()).out.load();
      if (K < S && !k09_off && !vh::acc(sfd()).fatal) V("K09", "writecomplete-early", "%ld bytes sent, kernel has %ld", S, K);
      wc_S = S;
    }
    bool more = false;
    while (!loop_stop && wc_budget > 0 && lr.chance(1, 2)) {
      --wc_budget;
      more = true;
      send_frame(c, 2, lr, pick_len(lr));
    }
    if (force_in == 3) { force_in = 0; do_force(c, lr); }
    if (shut_in == 3) { shut_in = 0; do_shutdown(c, lr); }
    return more ? lr.chance(1, 2) : lr.chance(5, 6);
  }
  void on_hwm(size_t n) {
    thread_check("high-water-mark callback");
    if (ups.load() != 1 || downs.load() != 0) V("K08", "hwm-outside", "high water mark with %d ups and %d downs", ups.load(), downs.load());
    if (!cfg.k09 || k09_off || vh::acc(sfd()).fatal) return;
    size_t k = hwm_seen++;
    if (k >= hwm_expect.size()) V("K09", "hwm-unexpected", "call %zu with %zu (mark %zu) but only %zu crossings", k + 1, n, mark, hwm_expect.size());
    else if (hwm_expect[k] != n) V("K09", "hwm-size", "crossing %zu: reported %zu, backlog was %zu (mark %zu)", k, n, hwm_expect[k], mark);
  }
  Ptr get() {
    std::lock_guard<std::mutex> g(mu);
    return ref;
  }

  // ------------------------------------------------------------------- peer
  int pfd = -1;
  bool eof = false, rst = false, wr_dead = false;
  long sent = 0, M = 0, rcvd = 0;
  bool read_on = true;
  std::string acc_in;
  Rng pr{1};
  std::atomic<bool> senders_done{false};
  long progress = 0;
  long slow = 0;  // 1/slow pumps skip reading
  std::function<void()> destroy;                // E_OWNER: destroys the server/client/owner
  std::shared_ptr<std::atomic<int>> ready;      // E_OWNER: sessions which may lose their owner now

  void parse() {
    size_t o = 0;
    while (acc_in.size() - o >= sizeof(Hdr)) {
      Hdr h;
      memcpy(&h, acc_in.data() + o, sizeof h);
      if (h.magic != MAGIC) { V("K05", "stream-corrupt", "session %d: no frame at stream offset %ld (%s)", id, rcvd - (long)(acc_in.size() - o), vh::hex(acc_in.substr(o), 16).c_str()); throw 1; }
      if (h.sender == POISON) { V("K07", "sent-after-shutdown", "a message sent after the shutdown/close arrived"); throw 1; }
      if (h.sender >= NS) { V("K05", "stream-corrupt", "bad sender %u", h.sender); throw 1; }
      if (acc_in.size() - o < sizeof h + h.len) break;
      SenderStat &s = snd[h.sender];
      if ((int)h.seq != s.got) { V("K05", "stream-order", "session %d sender %u: message %u arrived, %d expected", id, h.sender, h.seq, s.got); throw 1; }
      size_t d = vh::pat_diff(acc_in.data() + o + sizeof h, h.len, okey + h.sender * 7919 + h.seq * 104729, 0);
      if (d != h.len) { V("K05", "stream-bytes", "session %d sender %u message %u (%u bytes): wrong byte at %zu", id, h.sender, h.seq, h.len, d); throw 1; }
      s.got++;
      trace = vh::mix(trace, h.sender);
      o += sizeof h + h.len;
    }
    acc_in.erase(0, o);
  }
  // one round of peer I/O
  void pump() {
    int want = 0;
    bool rd = read_on && !eof && !rst && !(slow && pr.chance(1, slow));
    if (rd) want |= POLLIN;
    if (sent < M && !wr_dead) want |= POLLOUT;
    if (!want) { vh::sleep_us(300); return; }
    int ev = vh::raw_poll(pfd, want, 1);
    if (ev & (POLLIN | POLLHUP | POLLERR)) {
      if (rd) {
        static thread_local char buf[65536];
        size_t cap = pr.chance(1, 3) ? 1 + pr.below(2000) : sizeof buf;
        ssize_t n = vh::raw_recv(pfd, buf, cap);
        if (n > 0) { acc_in.append(buf, n); rcvd += n; ++progress; parse(); }
        else if (n == 0) eof = true;
        else if (errno != EAGAIN && errno != EINTR) rst = true;
      }
    }
    if ((ev & POLLOUT) && sent < M && !wr_dead) {
      size_t n = pr.chance(1, 2) ? 1 + pr.below(20) : pr.chance(1, 6) ? 65535 + pr.below(3) : 1 + pr.below(140000);
      if ((long)n > M - sent) n = M - sent;
      static thread_local char ob[140000];
      if (n > sizeof ob) n = sizeof ob;
      vh::pat_fill(ob, n, ikey, sent);
      ssize_t w = vh::raw_send(pfd, ob, n);
      if (w > 0) { sent += w; ++progress; }
      else if (w < 0 && errno != EAGAIN && errno != EINTR) wr_dead = true;
      if (pr.chance(1, 10)) vh::sleep_us(pr.below(200));
    }
  }
  template <class P> void until(P p, const char *prop, const char *key) {
    int64_t t0 = vh::C().ticks.load();
    long last = progress;
    while (!p()) {
      pump();
      if (progress != last) { last = progress; t0 = vh::C().ticks.load(); }
      if (vh::C().ticks.load() - t0 > 1500)
        VFATAL((std::string("hang:") + key).c_str(), "[%s] session %d kind %d backend %d end %s: ups %d downs %d sent %ld/%ld presented %ld read %ld (kernel took %ld) eof %d rst %d messages arrived/sent %s (sent %ld, wc at %ld)", prop, id, cfg.kind, cfg.backend,
               end_name(cfg.end), ups.load(), downs.load(), sent, M, got.load(), rcvd, vh::acc(sfd()).out.load(), eof, rst, stats().c_str(), Sa.load(), wc_S.load());
    }
  }
  std::string stats() {
    std::string t;
    for (auto &x : snd) if (x.tried.load()) t += std::to_string(x.got) + "/" + std::to_string(x.done.load()) + " ";
    return t + "partial " + std::to_string(acc_in.size());
  }
  void close_peer() { if (pfd >= 0) { close(pfd); pfd = -1; } }
  void on_loop(std::function<void()> f) {  // runs f on the connection's loop, keeps the peer going meanwhile
    Ptr c = get();
    if (!c) return;
    auto done = std::make_shared<std::atomic<bool>>(false);
    c->GetLoop()->QueueToLoop([f, done] { f(); *done = true; });
    c.reset();
    until([&] { return done->load(); }, "K01", "lost-task");
  }
  bool drained() { for (auto &s : snd) if (s.got != s.done.load()) return false; return true; }
  void drop_ref() { std::lock_guard<std::mutex> g(mu); ref.reset(); }

  // waits until everything sent is reported complete and no callback is under way
  void settle() {
    for (;;) {
      until([&] { return wc_S.load() == Sa.load() || Sa.load() == 0; }, "K09", "no-write-complete");
      long s0 = Sa.load();
      on_loop([] {});
      on_loop([] {});
      if (Sa.load() == s0 && (wc_S.load() == s0 || s0 == 0)) return;
    }
  }
  void burst() {  // K09: a burst of sends on the loop, then it must drain and be reported
    auto self = this->shared_from_this();
    uint64_t bs = pr.next();
    if (pr.chance(1, 2)) { read_on = false; }
    on_loop([self, bs] {
      Rng r(bs);
      Ptr c = self->get();
      if (!c) return;
      if (r.chance(1, 4) && self->hwm_seen == self->hwm_expect.size()) self->set_mark(c);
      int n = 1 + (int)r.below(5);
      for (int i = 0; i < n; ++i) {
        size_t len;
        switch (r.below(4)) {
        case 0: len = r.below(100); break;
        case 1: len = r.below(20000); break;
        case 2: len = self->mark < 300000 && self->mark > 40 ? self->mark + r.below(40) - 20 : 100; break;
        default: len = r.below(150000);
        }
        self->send_frame(c, 4, r, len);
      }
    });
    if (!read_on) { vh::sleep_us(pr.below(2000)); read_on = true; }
    settle();
    until([&] { return drained(); }, "K05", "lost-bytes");
    on_loop([] {});
    if (hwm_seen.load() != hwm_want.load()) V("K09", "hwm-missing", "%zu crossings, %zu notifications", hwm_want.load(), hwm_seen.load());
    vh::count("bursts");
  }

  void run() try {
    pr = Rng(seed ^ 0x2002);
    until([&] { return ups.load() > 0 && have_ref.load(); }, "K08", "no-up");
    long trig_r = pr.chance(1, 2) ? 0 : (long)pr.below(20000), trig_s = pr.chance(1, 2) ? 0 : (long)pr.below((uint64_t)M + 1);
    int64_t pumps = pr.below(40);
    auto random_point = [&] {
      int64_t k = 0;
      until([&] { return (++k > pumps && (rcvd >= trig_r || sent >= trig_s)) || eof || rst || k > 400 || downs.load(); }, "K05", "traffic");
    };
    switch (cfg.end) {
    case E_SHUT: {
      if (!shut_in) {
        random_point();
        auto self = this->shared_from_this();
        Ptr c = get();
        switch (c ? pr.below(5) : 0) {
        case 0: if (c) do_shutdown(c, pr); break;
        case 1: c->GetLoop()->QueueToLoop([self, c] { self->do_shutdown(c, self->lr); }); break;
        case 2: if (M > sent) { M = std::max(M, sent + 100); shut_in = 2; } else do_shutdown(c, pr); break;
        case 3: c->GetLoop()->RunAfter([self, c] { self->do_shutdown(c, self->lr); }, 0.001 * pr.below(4)); break;
        case 4: { std::thread t([&] { Rng tr(seed ^ 0x3003); do_shutdown(c, tr); }); t.join(); break; }
        }
      }
      until([&] { return (eof || rst) && (shut_done.load() || downs.load()); }, "K07", "no-eof-after-shutdown");
      if (rst) V("K07", "reset-instead-of-eof", "peer saw a reset after a graceful shutdown");
      if (eof && !acc_in.empty()) V("K07", "truncated-before-eof", "stream ends inside a message (%zu bytes of it)", acc_in.size());
      for (int i = 0; i < NS; ++i)
        if (snd[i].got < snd[i].need || snd[i].got > snd[i].tried.load()) { V("K07", "lost-before-shutdown", "sender %d: %d messages sent before the shutdown, %d arrived, %d tried", i, snd[i].need, snd[i].got, snd[i].tried.load()); V("K05", "lost-before-shutdown", "sender %d: %d sent before the shutdown, %d arrived", i, snd[i].need, snd[i].got); }
      until([&] { return (sent == M && got.load() == M) || wr_dead || downs.load(); }, "K07", "input-after-shutdown");
      if (wr_dead || downs.load()) V("K07", "closed-after-shutdown", "after a shutdown of the write side, input is no longer accepted (%ld of %ld presented)", got.load(), M);
      drop_at_random();
      if (pr.chance(1, 2)) ::shutdown(pfd, SHUT_WR); else close_peer();
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-peer-close");
      break;
    }
    case E_PEER: {
      until([&] { return (sent == M && senders_done.load() && got.load() == M) || eof || rst || downs.load(); }, "K06", "lost-input");
      if (eof || rst || downs.load()) { V("K08", "spontaneous-close", "connection closed by itself: eof %d reset %d downs %d", eof, rst, downs.load()); break; }
      if (cfg.k09) { int n = 1 + (int)pr.below(4); for (int i = 0; i < n; ++i) burst(); }
      loop_stop = true;
      on_loop([] {});
      on_loop([] {});
      until([&] { return drained(); }, "K05", "lost-bytes");
      if (cfg.k09) {
        settle();
        on_loop([] {});
        if (hwm_seen.load() != hwm_want.load()) V("K09", "hwm-missing", "%zu crossings, %zu notifications", hwm_want.load(), hwm_seen.load());
      }
      if (!acc_in.empty()) V("K05", "stream-excess", "%zu bytes that are no message", acc_in.size());
      if (got.load() != M) V("K06", "input-total", "%ld of %ld bytes presented", got.load(), M);
      drop_at_random();
      if (pr.chance(1, 3)) ::shutdown(pfd, SHUT_WR); else close_peer();
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-peer-close");
      break;
    }
    case E_LATE: {
      // both directions end while the loop is busy: the data, the peer's end and the hang-up are seen in one wake-up
      until([&] { return senders_done.load() || eof || rst; }, "K28", "senders");
      auto self = this->shared_from_this();
      Ptr c = get();
      if (!c) break;
      c->GetLoop()->QueueToLoop([self, c] { self->loop_stop = true; self->toggles = false; c->EnableRead(); self->do_shutdown(c, self->lr); });
      until([&] { return (eof || rst) && (shut_done.load() || downs.load()); }, "K07", "no-eof-after-shutdown");
      if (rst || downs.load()) break;
      auto in = std::make_shared<std::atomic<bool>>(false), out = std::make_shared<std::atomic<bool>>(false);
      c->GetLoop()->RunAfter([in, out] { *in = true; vh::wait_for([&] { return out->load(); }); }, 0.005);  // after any pending EnableRead
      c.reset();
      until([&] { return in->load(); }, "K01", "lost-task");
      for (int i = 0; i < 200 && sent < M && !wr_dead; ++i) pump();
      long last = sent;
      drop_at_random();
      if (pr.chance(1, 2)) ::shutdown(pfd, SHUT_WR); else close_peer();
      if (pr.chance(1, 2)) vh::sleep_us(300);
      *out = true;
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-peer-close");
      if (!wr_dead && got_at_down.load() != last) V("K06", "input-lost-at-close", "after a shutdown the peer sent %ld bytes and closed while the loop was busy; %ld presented before the down notification", last, got_at_down.load());
      vh::count("late_data");
      break;
    }
    case E_PEERFIN:
      until([&] { return sent == M || eof || rst; }, "K06", "traffic");
      drop_at_random();
      ::shutdown(pfd, SHUT_WR);
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-peer-close");
      if (!rst && sent == M && got_at_down.load() != M) V("K06", "input-lost-at-close", "peer sent %ld bytes and closed; %ld presented before the down notification", M, got_at_down.load());
      break;
    case E_FORCE: {
      if (!force_in) {
        random_point();
        int nth = 1 + (int)pr.below(3);
        auto self = this->shared_from_this();
        std::vector<std::thread> ts;
        for (int i = 0; i < nth; ++i) {
          Ptr c = get();
          if (!c) break;
          switch (pr.below(5)) {
          case 0: do_force(c, pr); break;
          case 1: c->GetLoop()->QueueToLoop([self, c] { self->do_force(c, self->lr); }); break;
          case 2: M = std::max(M, sent + 200); force_in = 2; c->GetLoop()->RunAfter([self, c] { self->do_force(c, self->lr); }, 0.02); break;
          case 3: { uint64_t ts_seed = pr.next(); ts.emplace_back([self, c, ts_seed] { Rng tr(ts_seed); self->do_force(c, tr); }); break; }
          case 4: c->GetLoop()->RunAfter([self, c] { self->do_force(c, self->lr); }, 0.001 * pr.below(4)); break;
          }
        }
        for (auto &t : ts) t.join();
      }
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-forceclose");
      stop = true;
      until([&] { return senders_done.load(); }, "K28", "senders");
      drop_ref();
      until([&] { return eof || rst; }, "K07", "no-end-after-forceclose");
      break;
    }
    case E_OWNER: {
      random_point();
      // the connections of an I/O loop must not be used while that loop goes away
      bool idle = cfg.kind == 1 || pr.chance(1, 2);
      if (idle) {
        stop = true;
        until([&] { return senders_done.load(); }, "K28", "senders");
        drop_ref();
      }
      ++*ready;
      if (id == 0) {
        until([&] { return ready->load() == cfg.nsess; }, "K08", "no-up");
        destroy();
        vh::count("owners_destroyed");
      }
      if (cfg.kind == 2 && !idle && !eof && !rst && !downs.load()) {  // a client's connection which is in use lives on until it is closed
        for (int i = 0; i < 20; ++i) pump();
        stop = true;
        until([&] { return senders_done.load(); }, "K28", "senders");
        close_peer();
      }
      until([&] { return downs.load() > 0; }, "K08", "no-down-after-owner-gone");
      stop = true;
      until([&] { return senders_done.load(); }, "K28", "senders");
      drop_ref();
      if (pfd >= 0) until([&] { return eof || rst; }, "K08", "no-end-after-owner-gone");
      break;
    }
    case E_RST:
      random_point();
      drop_at_random();
      if (cfg.kind == 3) close_peer(); else { vh::raw_rst(pfd); pfd = -1; }
      until([&] { return downs.load() > 0; }, "K07", "no-down-after-reset");
      break;
    }
    stop = true;
    loop_stop = true;
    until([&] { return senders_done.load(); }, "K28", "senders");
    drop_ref();
    if (pfd >= 0 && (cfg.end == E_PEERFIN || cfg.end == E_SHUT || cfg.end == E_PEER || cfg.end == E_LATE)) until([&] { return eof || rst; }, "K07", "no-end-after-down");
    close_peer();
    // released after the last user reference is dropped
    std::weak_ptr<Conn> w;
    { std::lock_guard<std::mutex> g(mu); w = weak; }
    until([&] { return w.expired(); }, "K08", "connection-not-released");
  } catch (int) {
    stop = true; loop_stop = true;
    fflush(stdout);
    _exit(95);
  }
  void drop_at_random() {
    switch (pr.below(3)) {
    case 0: if (senders_done.load()) drop_ref(); break;
    case 1: down_ref_drop = true; break;
    default: break;
    }
  }
  void sender(int k) {
    Rng r(seed ^ (0x5000 + k));
    vh::wait_for([&] { return have_ref.load() || stop.load(); });
    for (int i = 0; i < cfg.frames && !stop; ++i) {
      Ptr c = get();
      if (!c) break;
      send_frame(c, k, r, pick_len(r));
      c.reset();
      vh::nap(r);
      if (r.chance(1, 30)) vh::sleep_us(r.below(400));
    }
  }
};

static void configure(Cfg &c, Rng &r) {
  auto pick = [&](std::vector<std::pair<int, int>> w) { int t = 0; for (auto &x : w) t += x.second; int k = (int)r.below(t); for (auto &x : w) { if (k < x.second) return x.first; k -= x.second; } return w[0].first; };
  c.backend = (int)r.below(3);
  c.kind = (int)r.below(4);
  c.nsess = c.kind == 3 || c.kind == 2 ? 1 : 1 + (int)r.below(4);
  c.nloops = c.kind == 1 ? 1 + (int)r.below(2) : 0;
  c.nsend = (int)r.below(3);
  c.frames = (int)r.below(40);
  c.big = r.chance(1, 4) ? 300000 : 0;
  if (c.big) c.frames = std::min(c.frames, 8);
  if (g_prop == "K05" && r.chance(1, 60)) { c.big = 5 << 20; c.frames = std::min(c.frames, 3); c.nsess = 1; }  // more chunks than one writev takes
  if (g_prop == "K05") c.end = pick({{E_PEER, 60}, {E_SHUT, 20}, {E_FORCE, 8}, {E_RST, 6}, {E_PEERFIN, 6}});
  else if (g_prop == "K06") c.end = pick({{E_PEER, 35}, {E_SHUT, 15}, {E_FORCE, 5}, {E_RST, 5}, {E_PEERFIN, 30}, {E_LATE, 15}});
  else if (g_prop == "K07") c.end = pick({{E_PEER, 8}, {E_SHUT, 40}, {E_FORCE, 35}, {E_RST, 9}, {E_PEERFIN, 8}, {E_LATE, 5}});
  else if (g_prop == "K08") c.end = pick({{E_PEER, 20}, {E_SHUT, 20}, {E_FORCE, 25}, {E_RST, 20}, {E_PEERFIN, 15}, {E_LATE, 8}});
  if (g_prop == "K08" && r.chance(1, 8)) c.end = E_OWNER;
  if (g_prop == "K09") { c.end = pick({{E_PEER, 80}, {E_SHUT, 6}, {E_FORCE, 8}, {E_RST, 6}}); c.k09 = true; c.nsend = 0; }
}

template <class Conn> static void setup_session(Sess<Conn> &s, Rng &r, const Cfg &c, int id) {
  s.cfg = c;
  s.id = id;
  s.seed = r.next();
  s.okey = (uint32_t)r.next();
  s.ikey = (uint32_t)r.next();
  s.M = r.chance(1, 5) ? 0 : (long)(g_prop == "K06" ? r.below(r.chance(1, 4) ? 600000 : 60000) : r.below(20000));
  s.up_budget = (int)r.below(4);
  s.msg_budget = (int)r.below(10);
  s.wc_budget = (int)r.below(10);
  if (c.big > 1 << 20) { s.up_budget = (int)r.below(2); s.msg_budget = s.wc_budget = 1; }
  s.toggles = r.chance(1, 3);
  s.slow = r.chance(1, 3) ? 2 + r.below(3) : 0;
  if (c.end == E_SHUT && r.chance(1, 5)) s.shut_in = 1;
  if (c.end == E_FORCE && r.chance(1, 5)) s.force_in = 1;
  if (c.end == E_FORCE && r.chance(1, 8)) { s.force_in = 3; s.up_budget = 1; }
}

template <class Conn> static uint64_t sess_sig(Sess<Conn> &s) {
  uint64_t h = vh::mix(vh::mix(s.cfg.backend * 1000 + s.cfg.kind * 100 + s.cfg.end * 10 + s.cfg.nsend, s.trace), s.msgs.load() > 3);
  return vh::mix(h, (uint64_t)s.reads_off.load() > 0);
}
template <class Conn> static void tally(Sess<Conn> &s) {
  vh::count("connections");
  vh::count("bytes_to_peer", s.rcvd);
  vh::count("bytes_to_app", s.got.load());
  vh::count("messages", s.msgs.load());
  vh::count("write_completes", s.wcs.load());
  long f = 0;
  for (auto &x : s.snd) f += x.got;
  vh::count("frames", f);
  vh::count((std::string("end_") + end_name(s.cfg.end)).c_str());
  vh::seen(sess_sig(s));
}

template <class Conn> struct Runner {
  std::vector<std::shared_ptr<Sess<Conn>>> ss;
  void go() {
    std::vector<std::thread> ts;
    for (auto &s : ss) {
      auto left = std::make_shared<std::atomic<int>>(s->cfg.nsend);
      if (s->cfg.nsend == 0) s->senders_done = true;
      for (int k = 0; k < s->cfg.nsend; ++k)
        ts.emplace_back([s, k, left] { s->sender(5 + k); if (--*left == 0) s->senders_done = true; });
      ts.emplace_back([s] { s->run(); });
    }
    for (auto &t : ts) t.join();
  }
};

static void peer_opts(int fd, Rng &r, const Cfg &c) {
  if (c.big <= 1 << 20 && r.chance(1, 3)) {
    int v = 1 << (13 + r.below(4));
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
  }
  int one = 1;
  if (r.chance(1, 2)) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}

static void run_server(const Cfg &cfg, Rng &r) {
  using S = Sess<TcpConnection>;
  vh::LoopHost L(cfg.backend == 0, cfg.backend == 2);
  int port = vh::free_port();
  sockaddr_in sa = vh::my_addr(port);
  static std::mutex mm;
  static std::map<int, std::shared_ptr<S>> by_port;
  auto find = [](TcpConnectionPtr const &c) -> std::shared_ptr<S> {
    std::lock_guard<std::mutex> g(mm);
    auto it = by_port.find(c->GetPeerAddr().GetPort());
    return it == by_port.end() ? nullptr : it->second;
  };
  auto all = std::make_shared<std::vector<std::shared_ptr<S>>>();
  TcpServer *srv = nullptr;
  bool et = cfg.backend == 2;
  L.sync([&] {
    srv = new TcpServer(L.get(), InetAddr(sa), "srv", r.chance(1, 3));
    srv->SetLoopNum(cfg.nloops);
    srv->SetThreadInitCallback([et](EventLoop *l) { if (et) l->SetEdgeTriggerMode(); });
    srv->SetConnectionCallback([find](TcpConnectionPtr const &c) {
      auto s = c->GetContext().empty() ? find(c) : AnyCast<S>(c->GetContext())->shared_from_this();
      if (!s) { V("K08", "unknown-connection", "connection from a peer that does not exist"); return; }
      if (c->GetContext().empty()) c->SetContext(*s);
      s->on_conn(c);
    });
    srv->SetMessageCallback([](TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
      if (c->GetContext().empty()) { V("K08", "message-before-up", "message callback before the connection callback"); return; }
      AnyCast<S>(c->GetContext())->on_msg(c, b);
    });
    srv->SetWriteCompleteCallback([](TcpConnectionPtr const &c) { return AnyCast<S>(c->GetContext())->on_wc(c); });
    if (r.chance(1, 3)) srv->EnablePool(true);
    srv->StartRun();
  });
  Runner<TcpConnection> R;
  for (int i = 0; i < cfg.nsess; ++i) {
    auto s = std::make_shared<S>();
    setup_session(*s, r, cfg, i);
    int fd = vh::raw_socket();
    peer_opts(fd, r, cfg);
    sockaddr_in me = vh::my_addr(0);
    if (bind(fd, (sockaddr *)&me, sizeof me)) { printf("HARNESS-ERROR bind %s\n", strerror(errno)); fflush(stdout); _exit(3); }
    {
      std::lock_guard<std::mutex> g(mm);
      by_port[vh::local_port(fd)] = s;
    }
    if (connect(fd, (sockaddr *)&sa, sizeof sa) && errno != EINPROGRESS) { printf("HARNESS-ERROR connect %s\n", strerror(errno)); fflush(stdout); _exit(3); }
    s->pfd = fd;
    R.ss.push_back(s);
  }
  auto ready = std::make_shared<std::atomic<int>>(0);
  for (auto &s : R.ss) {
    s->ready = ready;
    s->destroy = [&] { L.sync([&] { delete srv; srv = nullptr; }); };
  }
  R.go();
  L.sync();
  L.sync();
  L.sync([&] { delete srv; });
  for (auto &s : R.ss) tally(*s);
  {
    std::lock_guard<std::mutex> g(mm);
    by_port.clear();
  }
}

static void run_client(const Cfg &cfg, Rng &r) {
  using S = Sess<TcpConnection>;
  vh::LoopHost L(cfg.backend == 0, cfg.backend == 2);
  int port, lfd;
  do { port = vh::free_port(); lfd = vh::raw_listen(port); } while (lfd < 0);
  Runner<TcpConnection> R;
  auto s = std::make_shared<S>();
  setup_session(*s, r, cfg, 0);
  R.ss.push_back(s);
  {
    auto cli = NewTcpClient(L.get(), InetAddr(vh::my_addr(port)), "cli", r.chance(1, 2));
    cli->SetConnectionCallback([s](TcpConnectionPtr const &c) { s->on_conn(c); });
    cli->SetMessageCallback([s](TcpConnectionPtr const &c, Buffer &b, TimeStamp) { s->on_msg(c, b); });
    cli->SetWriteCompleteCallback([s](TcpConnectionPtr const &c) { return s->on_wc(c); });
    cli->Connect();
    int fd = -1;
    if (!vh::wait_for([&] { fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); return fd >= 0; })) VFATAL("hang:no-connect", "client never connected");
    peer_opts(fd, r, cfg);
    s->pfd = fd;
    s->ready = std::make_shared<std::atomic<int>>(0);
    s->destroy = [&] { if (r.chance(1, 2)) L.sync([&] { cli.reset(); }); else cli.reset(); };
    R.go();
    L.sync();
    if (r.chance(1, 2)) L.sync([&] { cli.reset(); });
  }
  L.sync();
  L.sync();
  close(lfd);
  tally(*s);
}

static void run_unix(const Cfg &cfg, Rng &r) {
  using S = Sess<UnixConnection>;
  vh::LoopHost L(cfg.backend == 0, cfg.backend == 2);
  Runner<UnixConnection> R;
  auto s = std::make_shared<S>();
  setup_session(*s, r, cfg, 0);
  int sp[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sp)) { printf("HARNESS-ERROR socketpair\n"); fflush(stdout); _exit(3); }
  s->pfd = sp[1];
  R.ss.push_back(s);
  {
    auto c = std::make_shared<UnixConnection>(L.get(), "unix", sp[0]);
    c->SetConnectionCallback([s](std::shared_ptr<UnixConnection> const &p) { s->on_conn(p); });
    c->SetMessageCallback([s](std::shared_ptr<UnixConnection> const &p, Buffer &b, TimeStamp) { s->on_msg(p, b); });
    auto owner = std::make_shared<std::shared_ptr<UnixConnection>>(c);  // a server would own it until it is closed
    c->SetCloseCallback([owner](std::shared_ptr<UnixConnection> const &p) {
      owner->reset();
      p->GetLoop()->QueueToLoop([p] { p->ConnectionDestroyed(); });
    });
    L->RunInLoop([c] { c->ConnectionEstablished(); });
    s->ready = std::make_shared<std::atomic<int>>(0);
    s->destroy = [&L, owner] {
      L.sync([owner] {
        auto p = *owner;
        owner->reset();
        if (!p) return;
        p->SetCloseCallback({});
        p->ConnectionDestroyed();
        p->GetLoop()->QueueToLoop([p] {});
      });
    };
  }
  R.go();
  L.sync();
  L.sync();
  tally(*s);
}

static void one(long, Rng &r) {
  Cfg c;
  configure(c, r);
  vh::g_eintr() = r.chance(1, 4) ? 5 : 0;
  vh::g_delay() = r.chance(1, 4) ? 6 : 0;
  if (vh::opt_int("backend", -1) >= 0) c.backend = (int)vh::opt_int("backend", 0);
  if (vh::opt_int("kind", -1) >= 0) { c.kind = (int)vh::opt_int("kind", 0); c.nsess = 1; c.nloops = c.kind == 1; }
  if (vh::opt_int("end", -1) >= 0) c.end = (int)vh::opt_int("end", 0);
  int fds = vh::open_fds();
  switch (c.kind) {
  case 0: case 1: run_server(c, r); break;
  case 2: run_client(c, r); break;
  default: run_unix(c, r);
  }
  if (!vh::wait_for([&] { return vh::open_fds() <= fds; }, 300)) V("K08", "descriptor-leak", "%d descriptors before, %d after everything was destroyed", fds, vh::open_fds());
  vh::sample(std::string("backend ") + std::to_string(c.backend) + " kind " + std::to_string(c.kind) + " end " + end_name(c.end) + " sessions " + std::to_string(c.nsess) + " sender threads " + std::to_string(c.nsend));
}

int main(int argc, char **argv) {
  vh::quiet_log();
  vh::init(argc, argv);
  g_prop = vh::C().mode;
  for (auto &ch : g_prop) ch = (char)toupper(ch);
  vh::run_cases([](long i, Rng &r) { one(i, r); });
  vh::count("injected_faults", vh::g_faults().load());
  vh::finish();
}
