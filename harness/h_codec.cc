// K29: protobuf frames. Streams of frames, whole and damaged, cut anywhere,
// through the decoder against an independent one; the encoder's bytes on real
// connections; the zero copy stream against a string.
#define VLOOP_WRAP_POLL
#include "vnet.h"
#include "vpb.h"
#include "kanon/protobuf/protobuf_codec.h"
#include "kanon/protobuf/chunk_stream.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/protobuf/logger.h"
#include "msg.pb.h"
#include <mutex>
using namespace kanon;
using vh::Rng;
using vh::count;

extern char const tag_a[] = "v";
extern char const tag_b[] = "krpc";
extern char const tag_c[] = "a tag that is as long as the sixteen-byte stripes of the checksum, and longer";
extern char const tag_d[] = "";
extern char const tag_e[] = "0123456789abcde";

static vt::Inner inner(Rng &r, int depth) {
  vt::Inner i;
  if (r.chance(1, 2)) i.set_a((int)r.next());
  if (r.chance(1, 2)) i.set_s(std::string(r.below(40), 'a' + (char)r.below(26)));
  if (depth) for (uint64_t k = r.below(3); k; --k) *i.add_kids() = inner(r, depth - 1);
  return i;
}
static size_t some_size(Rng &r) {
  switch (r.below(12)) {
    case 0: return 0;
    case 1: case 2: case 3: return r.below(20);
    case 4: case 5: return r.below(300);
    case 6: return 4096 - 40 + r.below(60);   // around the size of a chunk
    case 7: return 4096 * r.below(4) + r.below(40);
    case 8: return r.below(5000);
    case 9: return r.chance(1, 6) ? r.below(200000) : r.below(9000);
    default: return r.below(60);
  }
}
static vt::Msg rand_msg(Rng &r, int64_t seq) {
  vt::Msg m;
  if (r.chance(1, 12)) return m;  // empty payload
  m.set_seq(seq);
  if (r.chance(2, 3)) m.set_body(r.bytes(some_size(r)));
  if (r.chance(1, 3)) for (uint64_t k = r.below(6); k; --k) m.add_names(std::string(r.below(50), 'x'));
  if (r.chance(1, 3)) *m.mutable_inner() = inner(r, 3);
  if (r.chance(1, 4)) for (uint64_t k = r.chance(1, 5) ? r.below(4000) : r.below(20); k; --k) m.add_nums((uint32_t)r.next());
  if (r.chance(1, 4)) m.set_d((double)r.next());
  if (r.chance(1, 4)) for (uint64_t k = r.below(5); k; --k) m.add_blobs(r.bytes(some_size(r)));
  return m;
}

// A run of the decoder under test.
template <class M, char const *T> struct Run {
  kanon::protobuf::ProtobufCodec<M, T> codec;
  Buffer buf;
  std::vector<std::string> msgs;
  std::vector<int> errs;
  TimeStamp at{777};
  bool own_buffer_ok = true;
  Run() {
    codec.SetMessageCallback([this](TcpConnectionPtr const &c, M *m, TimeStamp t) {
      if (c || t != at) vh::viol("arguments", "message callback got another connection or time");
      msgs.push_back(m->SerializeAsString());
    });
    codec.SetErrorCallback([this](TcpConnectionPtr const &, auto e) { errs.push_back((int)e); });
  }
  void feed(const char *p, size_t n) {
    buf.Append(p, n);
    codec.OnMessage(TcpConnectionPtr(), buf, at);
  }
};

template <class M, char const *T, class Gen> static void decode_case(Rng &r, Gen gen) {
  std::string stream;
  int n = (int)r.range(1, r.chance(1, 3) ? 40 : 6);
  std::vector<size_t> starts;
  std::vector<std::string> sent;
  for (int i = 0; i < n; ++i) {
    std::string p;
    gen(r, i, p);
    starts.push_back(stream.size());
    sent.push_back(p);
    stream += vh::pb_frame(T, p);
  }
  const char *what = "intact";
  std::string tag = T;
  size_t f = starts[r.below(starts.size())];      // the damaged frame
  uint32_t fs = vh::rd32(stream, f);
  std::string pay = stream.substr(f + 4 + tag.size(), fs - 4 - tag.size());
  auto subst = [&](const std::string &nf) { stream = stream.substr(0, f) + nf + stream.substr(f + 4 + fs); };
  switch (r.below(16)) {
    case 0: what = "bit"; { size_t i = f + r.below(4 + fs); stream[i] = (char)(stream[i] ^ (1 << r.below(8))); } break;
    case 1: what = "size bit"; { size_t i = f + r.below(4); stream[i] = (char)(stream[i] ^ (1 << r.below(8))); } break;
    case 2: what = "checksum bit"; { size_t i = f + fs + r.below(4); stream[i] = (char)(stream[i] ^ (1 << r.below(8))); } break;
    case 3: what = "tag"; { std::string t = tag; if (t.empty()) t = "z"; else t[r.below(t.size())] ^= (char)(1 << r.below(7)); subst(vh::pb_frame(t, pay)); } break;
    case 4: what = "other tag"; { std::string t = r.chance(1, 2) ? tag.substr(0, r.below(tag.size() + 1)) : tag + "x"; subst(vh::pb_frame(t, pay)); } break;
    case 5: what = "payload"; subst(vh::pb_frame(tag, r.bytes(r.below(40)))); break;
    case 6: what = "cut payload"; subst(vh::pb_frame(tag, pay.substr(0, r.below(pay.size() + 1)))); break;
    case 7: what = "no message"; subst(vh::be32((uint32_t)r.below(5 + tag.size())) + r.bytes(r.below(40))); break;
    case 8: what = "exact minimum"; { std::string b = r.chance(1, 2) ? tag : r.bytes(tag.size()); subst(vh::be32(4 + (uint32_t)tag.size()) + b + vh::be32(r.chance(1, 2) ? vh::xxh32(b) : (uint32_t)r.next())); } break;
    case 9: what = "huge size"; { static const uint32_t hs[] = {vh::PB_MAX, vh::PB_MAX + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffcu, vh::PB_MAX - 1, 0xfffffff8u};
                     stream.replace(f, 4, vh::be32(hs[r.below(8)])); } break;
    case 10: what = "truncated"; stream.resize(r.below(stream.size() + 1)); break;
    case 11: what = "inserted"; stream.insert(f + r.below(4 + fs + 1), r.bytes(1 + r.below(5))); break;
    case 12: what = "deleted"; stream.erase(f + r.below(4 + fs), 1 + r.below(5)); break;
    case 13: what = "noise"; stream = r.bytes(r.below(200)); break;
    default: break;
  }
  std::string kind = what;
  { std::string n = std::string("streams_") + what; std::replace(n.begin(), n.end(), ' ', '_'); count(n.c_str()); }
  Run<M, T> run;
  vh::PbRef ref;
  ref.tag = tag;
  ref.proto = &M::default_instance();
  size_t off = 0;
  int style = (int)r.below(5);
  long segs = 0;
  size_t agreed = 0;
  uint64_t h = vh::hash_str(stream);
  while (off < stream.size()) {
    size_t k = style == 0 ? stream.size() : style == 1 && stream.size() < 600 ? 1 : style == 2 && stream.size() < 20000 ? 1 + r.below(12) : style == 3 ? 1 + r.below(3000) : 1 + r.below(stream.size());
    k = std::min(k, stream.size() - off);
    std::unique_ptr<char[]> copy(new char[k]);
    memcpy(copy.get(), stream.data() + off, k);
    run.feed(copy.get(), k);
    ref.feed(stream.data() + off, k);
    off += k;
    ++segs;
    h = vh::mix(h, k);
    size_t i = agreed;
    while (i < run.msgs.size() && i < ref.msgs.size() && run.msgs[i] == ref.msgs[i]) ++i;
    agreed = i;
    if (i < run.msgs.size() || i < ref.msgs.size())
      return vh::viol("messages", "%s, frame tag '%s', after %zu of %zu bytes: %zu messages delivered, expected %zu; the first difference is message %zu", what, T, off, stream.size(), run.msgs.size(), ref.msgs.size(), i);
    if (ref.early) { if (!run.errs.empty() && run.errs[0] != vh::PB_LENGTH) return vh::viol("error-kind", "%s: error %d for an invalid length", what, run.errs[0]); }
    else if (ref.err && run.errs.empty()) return vh::viol("unreported", "%s, tag '%s': error %d was not reported after %zu of %zu bytes", what, T, ref.err, off, stream.size());
    else if (!ref.err && !run.errs.empty()) return vh::viol("false-error", "%s, tag '%s': error %d reported for a good stream after %zu of %zu bytes", what, T, run.errs[0], off, stream.size());
    else if (ref.err && run.errs[0] != ref.err) return vh::viol("error-kind", "%s, tag '%s': error %d reported, expected %d", what, T, run.errs[0], ref.err);
    if (ref.err) break;
  }
  count("segments", segs);
  count("messages", (long)run.msgs.size());
  if (ref.err) count((std::string("error_") + std::to_string(ref.err)).c_str());
  if (ref.err && off < stream.size()) {  // more bytes after an error: nothing damaged may come out
    size_t before = run.msgs.size();
    size_t k = std::min(stream.size() - off, (size_t)1 + (size_t)r.below(300));
    run.feed(stream.data() + off, k);
    for (size_t i = before; i < run.msgs.size(); ++i) {
      bool known = false;
      for (auto &s : sent) { std::unique_ptr<google::protobuf::Message> m(M::default_instance().New()); if (m->ParseFromString(s) && m->SerializeAsString() == run.msgs[i]) known = true; }
      if (!known) vh::viol("messages", "%s: a message which nobody sent was delivered after an error", what);
    }
  }
  if (!ref.err && !ref.early && run.buf.GetReadableSize() != ref.buf.size() - ref.pos)
    vh::viol("left-over", "%s: %zu bytes wait for more, expected %zu", what, run.buf.GetReadableSize(), ref.buf.size() - ref.pos);
  vh::seen(h);
  if (vh::C().cur_case < 3) vh::sample(std::string(what) + ", " + std::to_string(n) + " frames, " + std::to_string(segs) + " segments, " + std::to_string(run.msgs.size()) + " delivered, error " + std::to_string(ref.err));
}

static void gen_msg(Rng &r, int i, std::string &p) { p = rand_msg(r, i).SerializeAsString(); }
static void gen_need(Rng &r, int i, std::string &p) {
  vt::Need m;
  m.set_must(i);
  if (r.chance(1, 2)) m.set_body(r.bytes(some_size(r)));
  p = r.chance(1, 10) ? std::string() : m.SerializeAsString();  // the required field missing
}

// sizes up to the limit
static void big_case(long i, Rng &r) {
  Run<vt::Msg, tag_b> run;
  vh::PbRef ref;
  ref.tag = tag_b;
  ref.proto = &vt::Msg::default_instance();
  static const long d[] = {-1, 0, -20, -65536, 1, -70000, 12345, -100};
  size_t limit = vh::PB_MAX;
  size_t frame_size = i % 8 < 6 ? limit + (size_t)d[i % 8] : (size_t)r.range(1 << 22, 1 << 26);
  // size = tag + payload + 4; payload = header + body
  vt::Msg m;
  size_t body = frame_size - 4 - 4 - 12;
  m.set_body(std::string(body, 'b'));
  while (m.ByteSizeLong() + 8 > frame_size) { --body; m.mutable_body()->resize(body); }
  while (m.ByteSizeLong() + 8 < frame_size) { m.mutable_body()->push_back('c'); }
  std::string stream = vh::pb_frame(tag_b, m.SerializeAsString());
  vt::Msg tail;
  tail.set_seq(5);
  for (int k = 0; k < 3; ++k) stream += vh::pb_frame(tag_b, tail.SerializeAsString());
  size_t off = 0;
  while (off < stream.size() && run.errs.empty() && !ref.err) {
    size_t k = std::min(stream.size() - off, (size_t)r.range(60000, 3 << 20));
    run.feed(stream.data() + off, k);
    off += k;
  }
  ref.feed(stream.data(), off);
  if (run.msgs != ref.msgs) vh::viol("big", "size field %zu, limit %zu: %zu messages delivered, expected %zu", frame_size, limit, run.msgs.size(), ref.msgs.size());
  if (ref.err ? (run.errs.empty() || run.errs[0] != ref.err) : !run.errs.empty())
    vh::viol("big", "size field %zu, limit %zu: error %d, expected %d", frame_size, limit, run.errs.empty() ? 0 : run.errs[0], ref.err);
  count("big_messages");
  vh::seen(frame_size);
}

// the output stream
static void stream_case(Rng &r) {
  kanon::protobuf::ChunkStream s;
  std::string m, tr;
  char *last = nullptr;
  int avail = 0;
  for (int i = 0, n = (int)r.range(1, 40); i < n; ++i) {
    switch (r.below(6)) {
      case 0: case 1: {
        void *p = nullptr; int sz = -1;
        if (!s.Next(&p, &sz) || sz <= 0 || !p) return vh::viol("stream", "Next() gave no space:%s", tr.c_str());
        std::string t = r.bytes((size_t)sz);
        memcpy(p, t.data(), t.size());
        m += t; last = (char *)p; avail = sz; tr += " next"; break;
      }
      case 2: if (last) {
        int k = r.chance(1, 3) ? avail : r.chance(1, 3) ? 0 : (int)r.below((uint64_t)avail + 1);
        s.BackUp(k); m.resize(m.size() - (size_t)k); last = nullptr; tr += " back " + std::to_string(k);
      } break;
      case 3: { std::string t = r.bytes(some_size(r)); if (!s.WriteAliasedRaw(t.data(), (int)t.size())) vh::viol("stream", "WriteAliasedRaw failed"); m += t; last = nullptr; tr += " raw " + std::to_string(t.size()); break; }
      case 4: { std::string t = r.bytes(some_size(r)); s.chunk_list.Append(t.data(), t.size()); m += t; last = nullptr; tr += " append " + std::to_string(t.size()); break; }
      case 5: { vt::Msg x = rand_msg(r, i); 
                bool ok = x.SerializeToZeroCopyStream(&s);
                if (!ok) vh::viol("stream", "serialization failed:%s", tr.c_str());
                m += x.SerializeAsString(); last = nullptr; tr += " message"; break; }
    }
    count("stream_ops");
    if ((size_t)s.ByteCount() != m.size() || s.chunk_list.GetReadableSize() != m.size())
      return vh::viol("stream", "ByteCount %ld, expected %zu:%s", (long)s.ByteCount(), m.size(), tr.c_str());
  }
  std::string got;
  for (auto it = s.chunk_list.begin(); it != s.chunk_list.end(); ++it) got.append(it->GetReadBegin(), it->GetReadableSize());
  if (got != m) vh::viol("stream", "other bytes than written:%s", tr.c_str());
  vh::seen(vh::hash_str(tr));
}

// Frames over real connections, both directions.
template <char const *T> struct Wire {
  kanon::protobuf::ProtobufCodec<vt::Msg, T> codec;
  std::mutex mu;
  TcpConnectionPtr conn;
  std::vector<std::string> got;
  std::vector<int> errs;
  std::atomic<int> n_got{0}, n_err{0}, up{0}, down{0};
  bool echo = false, own_err = true;
};
template <char const *T> static void wire_case(Rng &r) {
  auto w = std::make_shared<Wire<T>>();
  w->echo = r.chance(1, 2);
  w->own_err = r.chance(2, 3);
  bool et = r.chance(1, 3);
  vh::g_delay() = r.chance(1, 3) ? 8 : 0;
  int port = vh::free_port();
  TcpServer *srv = nullptr;
  vh::LoopHost lh(false, et, [&](EventLoop *l) {
    InetAddr a(inet_ntoa(vh::my_addr(0).sin_addr), (uint16_t)port);
    srv = new TcpServer(l, a, "codec", false);
    srv->SetConnectionCallback([w](TcpConnectionPtr const &c) {
      if (c->IsConnected()) { { std::lock_guard<std::mutex> g(w->mu); w->conn = c; } w->up++; }
      else { w->down++; }
    });
    Wire<T> *p = w.get();
    srv->SetMessageCallback([p](TcpConnectionPtr const &c, Buffer &b, TimeStamp t) { p->codec.OnMessage(c, b, t); });
    w->codec.SetMessageCallback([p](TcpConnectionPtr const &c, vt::Msg *m, TimeStamp) {
      { std::lock_guard<std::mutex> g(p->mu); p->got.push_back(m->SerializeAsString()); }
      if (p->echo) p->codec.Send(c, m);
      p->n_got++;
    });
    if (w->own_err) w->codec.SetErrorCallback([p](TcpConnectionPtr const &c, auto e) {
      { std::lock_guard<std::mutex> g(p->mu); p->errs.push_back((int)e); }
      p->n_err++;
      c->ShutdownWrite();
    });
    srv->StartRun();
  });
  int fd = -1;
  for (int t = 0; t < 50; ++t) {
    fd = vh::raw_socket();
    sockaddr_in me = vh::my_addr(0), a = vh::my_addr(port);
    if (bind(fd, (sockaddr *)&me, sizeof me)) {}
    if (connect(fd, (sockaddr *)&a, sizeof a) == 0 || errno == EINPROGRESS) break;
    close(fd);
  }
  if (!vh::wait_for([&] { return w->up.load() == 1; })) VFATAL("hang:connect", "no connection");
  // what the peer sends, possibly damaged at the end
  std::vector<std::string> to;
  std::string out;
  for (int i = 0, n = (int)r.range(0, 12); i < n; ++i) { to.push_back(rand_msg(r, i).SerializeAsString()); out += vh::pb_frame(T, to.back()); }
  int bad = r.chance(1, 3) ? (int)r.range(1, 4) : 0;
  if (bad == vh::PB_LENGTH) out += vh::be32((uint32_t)r.below(4)) + "abcd";
  else if (bad == vh::PB_TAG) { std::string t = T; t += "x"; t[0] ^= 1; out += vh::pb_frame(t, "abcdef"); }
  else if (bad == vh::PB_SUM) { std::string f = vh::pb_frame(T, to.empty() ? "" : to[0]); f.back() = (char)(f.back() ^ 1); out += f; }
  else if (bad == vh::PB_PARSE) out += vh::pb_frame(T, "\xff\xff");
  // what the server sends from several threads
  int nth = (int)r.range(0, 3);
  std::vector<std::vector<std::string>> from((size_t)nth);
  vh::Group g("senders");
  for (int t = 0; t < nth; ++t) {
    uint64_t seed = r.next();
    int n = (int)r.range(1, 10);
    TcpConnectionPtr c; { std::lock_guard<std::mutex> l(w->mu); c = w->conn; }
    bool direct = t || r.chance(1, 2);
    g.go([=, &from, &lh] {
      Rng q(seed);
      for (int i = 0; i < n; ++i) {
        vt::Msg m = rand_msg(q, (t + 1) * 1000 + i);
        m.set_seq((t + 1) * 1000 + i);
        from[(size_t)t].push_back(m.SerializeAsString());
        if (direct) w->codec.Send(c, &m);
        else lh->RunInLoop([w, c, m] { w->codec.Send(c, &m); });
        vh::nap(q);
      }
    });
  }
  size_t expect_back = (w->echo ? to.size() : 0);
  vh::PbRef in;
  in.tag = T;
  in.proto = &vt::Msg::default_instance();
  size_t off = 0;
  bool eof = false;
  char b[65536];
  int64_t t0 = vh::C().ticks, lastp = t0;
  bool joined = false;
  size_t want = SIZE_MAX;
  while (true) {
    bool moved = false;
    if (off < out.size()) {
      size_t k = std::min(out.size() - off, r.chance(1, 3) ? 1 + r.below(9) : 1 + r.below(20000));
      ssize_t n = vh::raw_send(fd, out.data() + off, k);
      if (n > 0) { off += (size_t)n; moved = true; }
    }
    if (!joined && g.done.load() == nth) { g.join(); joined = true; want = expect_back; for (auto &v : from) want += v.size(); }
    ssize_t n = vh::raw_recv(fd, b, 1 + r.below(sizeof b));
    if (n > 0) { in.feed(b, (size_t)n); moved = true; }
    if (n == 0) eof = true;
    if (in.err) { vh::viol("wire", "the sent bytes are no good frame: error %d after %zu messages", in.err, in.msgs.size()); break; }
    if (in.msgs.size() > want) { vh::viol("wire", "%zu messages arrived, %zu were sent", in.msgs.size(), want); break; }
    bool got_all = w->n_got.load() == (int)to.size();
    bool rep = !bad || !w->own_err || w->n_err.load() > 0;
    if (eof) { if (!bad && (in.msgs.size() < want || !got_all)) vh::viol("wire", "the connection ended early"); break; }
    // after an error the server shuts down its side; what it sent before arrives
    if (off == out.size() && joined && got_all && rep && in.msgs.size() == want && (!bad || eof)) break;
    if (bad && off == out.size() && joined && eof) break;
    if (moved) lastp = vh::C().ticks;
    else { if (vh::C().ticks - lastp > 1500) VFATAL("hang:wire", "stalled: sent %zu/%zu, received %zu messages of %zu, delivered %d of %zu, bad %d, errors %d", off, out.size(), in.msgs.size(), want, w->n_got.load(), to.size(), bad, w->n_err.load()); vh::sleep_us(50); }
  }
  if (!joined) g.join();
  close(fd);
  if (!vh::wait_for([&] { return w->down.load() == 1; })) VFATAL("hang:down", "connection did not go down");
  { std::lock_guard<std::mutex> l(w->mu); w->conn.reset(); }
  lh.sync([&] { delete srv; });
  lh.quit();
  if (w->got != to) vh::viol("wire", "%zu messages delivered, %zu sent, or they differ", w->got.size(), to.size());
  if (bad && w->own_err && (w->errs.empty() || w->errs[0] != bad)) vh::viol("error-kind", "error %d reported, expected %d", w->errs.empty() ? 0 : w->errs[0], bad);
  if (!bad && !w->errs.empty()) vh::viol("false-error", "error %d on a good stream", w->errs[0]);
  // per sender: in order, complete unless the connection was shut down by an error
  std::vector<size_t> at((size_t)nth, 0);
  size_t echoed = 0;
  for (auto &s : in.msgs) {
    vt::Msg m;
    m.ParseFromString(s);
    long t = (long)(m.seq() / 1000) - 1;
    if (m.seq() >= 1000 && t < nth) {
      auto &v = from[(size_t)t];
      // after an error some may be missing, but never in the middle of a frame
      while (bad && at[(size_t)t] < v.size() && v[at[(size_t)t]] != s) ++at[(size_t)t];
      if (at[(size_t)t] >= v.size() || v[at[(size_t)t]] != s) { vh::viol("wire", "sender %ld: message %lld out of order, repeated or changed", t, (long long)m.seq()); break; }
      ++at[(size_t)t];
    } else {
      if (echoed >= to.size() || to[echoed] != s) { vh::viol("wire", "echo %zu differs from what was sent", echoed); break; }
      ++echoed;
    }
  }
  count("wire_messages", (long)in.msgs.size() + (long)w->got.size());
  count("wire_bytes", (long)out.size() + (long)in.buf.size());
  if (bad) count("wire_errors");
  vh::g_delay() = 0;
  vh::seen(vh::mix(vh::hash_str(out), in.msgs.size() * 31 + (size_t)nth));
}

// the serialization helpers
template <char const *T> static void helper_case(Rng &r) {
  kanon::protobuf::internal::GenericPbCodec c(&vt::Msg::default_instance(), T);
  vt::Msg m = rand_msg(r, 3);
  Buffer b;
  std::string pre = r.bytes(r.below(30));
  b.Append(pre);
  uint32_t n = c.SerializeToBuffer(m, b);
  std::string s = m.SerializeAsString();
  if (n != s.size() || b.RetrieveAllAsString() != pre + s) vh::viol("helper", "SerializeToBuffer wrote other bytes");
  ChunkList cl;
  uint32_t sum = 0;
  n = c.SerializeToBuffer(m, cl, sum);
  std::string got;
  for (auto it = cl.begin(); it != cl.end(); ++it) got.append(it->GetReadBegin(), it->GetReadableSize());
  if (n != s.size() || got != s || sum != vh::xxh32(s)) vh::viol("helper", "SerializeToBuffer into a chunk list wrote other bytes or another checksum");
  vt::Msg q;
  if (!c.ParseFromBuffer(s.data(), (int)s.size(), q) || q.SerializeAsString() != s) vh::viol("helper", "ParseFromBuffer does not give the message back");
  count("helpers");
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  vh::quiet_log();
  kanon::SetProtobufLog(false);
  google::protobuf::SetLogHandler(nullptr);
  const std::string &m = vh::C().mode;
  if (m == "decode")
    vh::run_cases([](long i, Rng &r) {
      switch (i % 6) {
        case 0: decode_case<vt::Msg, tag_a>(r, gen_msg); break;
        case 1: decode_case<vt::Msg, tag_b>(r, gen_msg); break;
        case 2: decode_case<vt::Msg, tag_c>(r, gen_msg); break;
        case 3: decode_case<vt::Need, tag_b>(r, gen_need); break;
        case 4: decode_case<vt::Msg, tag_d>(r, gen_msg); break;
        case 5: stream_case(r); helper_case<tag_b>(r); break;
      }
    });
  else if (m == "big") vh::run_cases(big_case);
  else if (m == "wire")
    vh::run_cases([](long i, Rng &r) {
      switch (i % 4) {
        case 0: wire_case<tag_a>(r); break;
        case 1: wire_case<tag_b>(r); break;
        case 2: wire_case<tag_c>(r); break;
        case 3: wire_case<tag_e>(r); break;
      }
    });
  else return 2;
  vh::finish();
  return 0;
}
