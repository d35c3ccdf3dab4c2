// Socket plumbing for the network harnesses: link-time interception of the
// library's socket I/O (accounting and fault injection on registered
// descriptors only), raw peer sockets, loopback addresses private to this
// process, and the two byte patterns the oracles know.
#pragma once
#include "vloop.h"
#include "vsched.h"
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>

namespace vh {

struct FdAcc {
  std::atomic<int> on{0};       // 0: not ours, 1: level triggered, 2: edge triggered
  std::atomic<int> rate{0};     // 1/rate calls are faulted; 0 = never
  std::atomic<long> out{0}, in{0};
  std::atomic<bool> fatal{false};  // the kernel refused a write for good
};
inline FdAcc *accs() { static FdAcc *a = new FdAcc[8192]; return a; }
inline FdAcc &acc(int fd) { return accs()[fd & 8191]; }
inline std::atomic<long> &g_faults() { static std::atomic<long> f{0}; return f; }

inline void acc_start(int fd, bool et, int rate) {
  FdAcc &a = acc(fd);
  a.out = 0; a.in = 0; a.fatal = false; a.rate = rate; a.on = et ? 2 : 1;
}
inline void acc_stop(int fd) { acc(fd).on = 0; }

// Decides what happens to an I/O call on fd: returns true when the call must
// fail with errno set, else may shorten *len.
inline bool fault(int fd, size_t *len) {
  if (fd < 0) return false;
  FdAcc &a = acc(fd);
  int on = a.on.load(std::memory_order_relaxed), rate = a.rate.load(std::memory_order_relaxed);
  if (!on || !rate || !t_rng().chance(1, rate)) return false;
  g_faults()++;
  switch (t_rng().below(3)) {
  case 0: errno = EINTR; return true;
  case 1:
    if (on == 1) { errno = EAGAIN; return true; }
    errno = EINTR;
    return true;
  default:
    if (on == 1 && *len > 1) *len = 1 + t_rng().below(*len - 1);
    return false;
  }
}
inline void done_out(int fd, ssize_t n) {
  if (fd < 0 || !acc(fd).on.load(std::memory_order_relaxed)) return;
  if (n > 0) acc(fd).out += n;
  else if (n < 0 && errno != EAGAIN && errno != EINTR) acc(fd).fatal = true;
}
inline void done_in(int fd, ssize_t n) { if (n > 0 && fd >= 0 && acc(fd).on.load(std::memory_order_relaxed)) acc(fd).in += n; }

// shortens an iovec array to at most len bytes
inline int cut_iov(const struct iovec *v, int cnt, size_t len, struct iovec *out) {
  int n = 0;
  for (int i = 0; i < cnt && len > 0; ++i) {
    out[n] = v[i];
    if (out[n].iov_len > len) out[n].iov_len = len;
    len -= out[n].iov_len;
    ++n;
  }
  return n;
}
inline size_t iov_len(const struct iovec *v, int cnt) { size_t s = 0; for (int i = 0; i < cnt; ++i) s += v[i].iov_len; return s; }

// ---- peers
inline uint32_t my_ip() {
  static uint32_t ip = 0;
  if (!ip) {
    uint32_t p = (uint32_t)getpid();
    ip = (127u << 24) | ((1 + ((p >> 16) & 0x3f)) << 16) | (((p >> 8) & 255) << 8) | (p & 255);
    if ((ip & 255) == 0 || (ip & 255) == 255) ip ^= 64;
  }
  return ip;
}
inline sockaddr_in my_addr(int port) {
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  a.sin_addr.s_addr = htonl(my_ip());
  return a;
}
inline int raw_socket() {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
  if (fd < 0) { printf("HARNESS-ERROR socket: %s\n", strerror(errno)); fflush(stdout); _exit(3); }
  return fd;
}
// a port nobody uses (on this process's private address)
inline int free_port() {
  static std::atomic<int> next{0};
  if (!next) next = 20000 + (int)(Rng((uint64_t)getpid() * 7 + C().seed).below(12000));  // below the ephemeral ports
  for (int i = 0; i < 200; ++i) {
    int p = next++;
    if (p > 32700) { next = 20000; continue; }
    int fd = raw_socket();
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = my_addr(p);
    int ok = bind(fd, (sockaddr *)&a, sizeof a) == 0 && listen(fd, 1) == 0;
    close(fd);
    if (ok) return p;
  }
  printf("HARNESS-ERROR no free port\n"); fflush(stdout); _exit(3);
}
inline int raw_listen(int port, int backlog = 128) {
  int fd = raw_socket();
  int one = 1;
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a = my_addr(port);
  if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, backlog)) {
    close(fd);
    return -1;
  }
  return fd;
}
inline int local_port(int fd) {
  sockaddr_in a;
  socklen_t l = sizeof a;
  getsockname(fd, (sockaddr *)&a, &l);
  return ntohs(a.sin_port);
}
inline ssize_t raw_recv(int fd, void *p, size_t n) { return syscall(SYS_recvfrom, fd, p, n, MSG_DONTWAIT, nullptr, nullptr); }
inline ssize_t raw_send(int fd, const void *p, size_t n) { return syscall(SYS_sendto, fd, p, n, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0); }
inline int raw_poll(int fd, int ev, int ms) {
  struct pollfd p = {fd, (short)ev, 0};
  struct timespec ts = {ms / 1000, (ms % 1000) * 1000000l};
  int r = (int)syscall(SYS_ppoll, &p, 1, &ts, nullptr, 8);
  return r > 0 ? p.revents : 0;
}
inline void raw_rst(int fd) {
  struct linger l = {1, 0};
  setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  close(fd);
}

// ---- patterns
inline char pat(uint32_t key, uint64_t o) { return (char)(key ^ (uint32_t)(o * 131 + (o >> 8) * 29 + (o >> 16) * 101)); }
inline void pat_fill(char *p, size_t n, uint32_t key, uint64_t off) { for (size_t i = 0; i < n; ++i) p[i] = pat(key, off + i); }
inline size_t pat_diff(const char *p, size_t n, uint32_t key, uint64_t off) {  // n when equal
  for (size_t i = 0; i < n; ++i) if (p[i] != pat(key, off + i)) return i;
  return n;
}
} // namespace vh

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_recvmsg(int, struct msghdr *, int);
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (vh::fault(fd, &n)) return -1;
  ssize_t r = __real_read(fd, p, n);
  int e = errno; vh::done_in(fd, r); errno = e;
  return r;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int fl) {
  if (vh::fault(fd, &n)) return -1;
  ssize_t r = __real_recv(fd, p, n, fl);
  int e = errno; vh::done_in(fd, r); errno = e;
  return r;
}
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (vh::fault(fd, &n)) return -1;
  vh::sched_point();
  ssize_t r = __real_write(fd, p, n);
  int e = errno; vh::done_out(fd, r); vh::sched_point(); errno = e;
  return r;
}
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) {
  if (vh::fault(fd, &n)) return -1;
  ssize_t r = __real_send(fd, p, n, fl);
  int e = errno; vh::done_out(fd, r); errno = e;
  return r;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) {
  size_t n = vh::iov_len(v, c), m = n;
  if (vh::fault(fd, &m)) return -1;
  struct iovec w[64];
  if (m < n && c <= 64) { c = vh::cut_iov(v, c, m, w); v = w; }
  ssize_t r = __real_readv(fd, v, c);
  int e = errno; vh::done_in(fd, r); errno = e;
  return r;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
  size_t n = vh::iov_len(v, c), m = n;
  if (vh::fault(fd, &m)) return -1;
  static thread_local struct iovec w[1024];
  if (m < n && c <= 1024) { c = vh::cut_iov(v, c, m, w); v = w; }
  ssize_t r = __real_writev(fd, v, c);
  int e = errno; vh::done_out(fd, r); vh::sched_point(); errno = e;
  return r;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
  size_t n = 2;
  if (vh::fault(fd, &n)) return -1;
  ssize_t r = __real_sendmsg(fd, m, fl);
  int e = errno; vh::done_out(fd, r); errno = e;
  return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl) {
  size_t n = 2;
  if (vh::fault(fd, &n)) return -1;
  ssize_t r = __real_recvmsg(fd, m, fl);
  int e = errno; vh::done_in(fd, r); errno = e;
  return r;
}
}
