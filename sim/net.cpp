// Network, epoll, eventfd, timerfd and file seams.
#include "sim.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <list>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

extern void *real_sym(const char *name);
#define REAL(name) ([]() { static decltype(&::name) f; if (!f) f = (decltype(&::name))real_sym(#name); return f; }())

namespace sim {
extern __thread int in_kernel;
std::function<ConnectDecision(int)> outgoing_connect;
std::function<int(const char *, const char *)> resolve_hook;
std::function<void()> on_listen;
Disk disk;
const char *DISK_ROOT = "/simdisk/";

static const int FD0 = 100000;

struct Epoll; struct File;
struct EpItem { Epoll *ep; File *f; int fd; u32 events; u64 data; bool pending = false; };
struct File : std::enable_shared_from_this<File> {
  enum Kind { SOCK, EPOLL, EVENT, TIMER } kind;
  bool nonblock = false;
  std::list<EpItem *> watch;
  WaitQ waiters;                       // blocking readers / writers / connectors
  explicit File(Kind k) : kind(k) {}
  virtual ~File() {}
  virtual u32 ready() = 0;
};
struct Epoll : File {
  std::list<std::unique_ptr<EpItem>> items; std::deque<EpItem *> q;
  Epoll() : File(EPOLL) {}
  u32 ready() override { return q.empty() ? 0 : EPOLLIN; }
};
struct Event : File { u64 v = 0; Event() : File(EVENT) {} u32 ready() override { return (v ? EPOLLIN : 0) | EPOLLOUT; } };
struct Timer : File { u64 exp = 0; u64 gen = 0; i64 deadline = -1; i64 interval = 0; Timer() : File(TIMER) {} u32 ready() override { return exp ? EPOLLIN : 0; } };
struct Sock : File {
  enum St { FRESH, LISTEN, CONNECTING, OPEN, FAILED } st = FRESH;
  int port = 0, peer_port = 0; int family = AF_INET;
  std::deque<SockP> backlog;
  std::string rx; bool rx_eof = false; int err = 0; bool reset = false;
  std::string tx; bool tx_fin = false, tx_fin_sent = false, shut_rd = false, pump = false;
  u32 sndbuf = 65536;
  PeerP peer;
  bool closed = false;
  Sock() : File(SOCK) {}
  u32 ready() override {
    u32 m = 0;
    if (st == LISTEN) return backlog.empty() ? 0 : EPOLLIN;
    if (st == FAILED) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
    if (st == FRESH) return EPOLLOUT | EPOLLHUP;
    if (st == CONNECTING) return 0;
    if (!rx.empty() || rx_eof || shut_rd) m |= EPOLLIN;
    if (rx_eof) m |= EPOLLRDHUP;
    if (reset) m |= EPOLLIN | EPOLLOUT | EPOLLHUP | (err ? EPOLLERR : 0);
    if (tx.size() < sndbuf) m |= EPOLLOUT;
    if (rx_eof && tx_fin) m |= EPOLLHUP;
    return m;
  }
};

static std::vector<std::shared_ptr<File>> fds;
static std::map<int, SockP> listeners;
static int next_port = 40000;

static int new_fd(std::shared_ptr<File> f) {
  for (size_t i = 0; i < fds.size(); i++) if (!fds[i]) { fds[i] = f; return FD0 + (int)i; }
  fds.push_back(f); return FD0 + (int)fds.size() - 1;
}
static File *get(int fd) { if (fd < FD0 || fd - FD0 >= (int)fds.size()) return nullptr; return fds[fd - FD0].get(); }
static bool is_sim(int fd) { return S.active && fd >= FD0; }
int open_sim_fds() { int n = 0; for (auto &f : fds) n += !!f; return n; }

static void notify(File *f) {
  for (EpItem *it : f->watch) {
    if ((f->ready() & (it->events | EPOLLERR | EPOLLHUP)) && !it->pending) { it->pending = true; it->ep->q.push_back(it); }
    if (!it->ep->q.empty()) { hb_release(it->ep); wake_one(it->ep->waiters); }
  }
  wake_all(f->waiters);
}

static i64 net_delay(double p) {
  u32 k = choose(S_NET, 64, p);
  if (k) S.st.delays++;
  return 20000 + (i64)k * 50000; // 20 us .. 3.2 ms
}

// process -> peer
static void pump(SockP s) {
  if (s->pump) return;
  s->pump = true;
  after(net_delay(S.pol.p_delay), [s] {
    s->pump = false;
    if (!s->tx.empty()) {
      size_t n = s->tx.size();
      if (n > 1) { u32 k = choose(S_NET, 8, S.pol.p_frag); if (k) { S.st.frag++; n = std::max<size_t>(1, n * k / 8); } }
      std::string part = s->tx.substr(0, n); s->tx.erase(0, n);
      if (s->peer) s->peer->on_data(part);
      if (!s->closed) notify(s.get());
      if (!s->tx.empty() || s->tx_fin) pump(s);
    } else if (s->tx_fin && !s->tx_fin_sent) { s->tx_fin_sent = true; if (s->peer) s->peer->on_fin(); }
  });
}

// peer -> process
void Peer::send(const std::string &bytes, double p_frag, double p_delay) {
  size_t pos = 0;
  while (pos < bytes.size()) {
    size_t n = bytes.size() - pos;
    u32 k = n > 1 ? choose(S_NET, 16, p_frag) : 0;
    if (k) { S.st.frag++; static const int cut[16] = {0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 32, 64, 100, 128, 200, 256}; n = std::min<size_t>(n, cut[k]); }
    std::string part = bytes.substr(pos, n); pos += n;
    i64 t = std::max(S.now, last_tx) + net_delay(p_delay); last_tx = t;
    SockP s = sock;
    at(t, [s, part] {
      if (s->closed) { if (s->peer) { auto p = s->peer; p->on_rst(); } return; }
      if (s->reset || s->rx_eof) return;
      s->rx += part; trace(20, hash_str(part)); notify(s.get());
    });
  }
}
void Peer::fin() {
  i64 t = std::max(S.now, last_tx) + net_delay(0); last_tx = t; SockP s = sock;
  at(t, [s] { if (!s->closed && !s->reset) { s->rx_eof = true; notify(s.get()); } });
}
void Peer::rst() {
  gone = true;
  i64 t = std::max(S.now, last_tx) + net_delay(0); last_tx = t; SockP s = sock;
  at(t, [s] { if (!s->closed && !s->reset) { s->reset = true; s->err = ECONNRESET; s->rx.clear(); s->tx.clear(); s->peer = nullptr; notify(s.get()); } });
}
bool listening(int port) { return listeners.count(port) > 0; }
bool client_connect(int port, PeerP p) {
  auto it = listeners.find(port);
  if (it == listeners.end()) return false;
  SockP l = it->second;
  auto s = std::make_shared<Sock>(); s->st = Sock::OPEN; s->port = port; s->peer_port = next_port++; s->peer = p; s->sndbuf = S.pol.sndbuf; s->family = l->family;
  p->sock = s;
  l->backlog.push_back(s);
  notify(l.get());
  return true;
}

static void drop(std::shared_ptr<File> f) {
  for (EpItem *it : f->watch) {
    auto &q = it->ep->q; q.erase(std::remove(q.begin(), q.end(), it), q.end());
    it->ep->items.remove_if([&](std::unique_ptr<EpItem> &p) { return p.get() == it; });
  }
  f->watch.clear();
  if (f->kind == File::EPOLL) { for (auto &it : static_cast<Epoll *>(f.get())->items) it->f->watch.remove(it.get()); static_cast<Epoll *>(f.get())->items.clear(); }
  if (f->kind == File::TIMER) static_cast<Timer *>(f.get())->gen++;
  if (f->kind == File::SOCK) {
    auto s = std::static_pointer_cast<Sock>(f);
    s->closed = true;
    if (s->st == Sock::LISTEN) { for (auto i = listeners.begin(); i != listeners.end();) i = i->second == s ? listeners.erase(i) : std::next(i); }
    if (s->st == Sock::OPEN && !s->reset && s->peer) {
      if (!s->rx.empty()) { auto p = s->peer; after(net_delay(0), [p] { p->on_rst(); }); }
      else if (!s->tx_fin) { s->tx_fin = true; pump(s); }
    }
  }
}

static ssize_t sock_recv(int fd, const iovec *iov, int cnt, int flags) {
  Kernel k; S.st.syscalls++;
  auto f = fds[fd - FD0];
  if (!f || f->kind != File::SOCK) { errno = EBADF; return -1; }
  auto s = std::static_pointer_cast<Sock>(f);
  for (;;) {
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (s->st != Sock::OPEN) { errno = ENOTCONN; return -1; }
    if (!s->rx.empty()) {
      ssize_t n = 0;
      for (int i = 0; i < cnt && !s->rx.empty(); i++) { size_t m = std::min(iov[i].iov_len, s->rx.size()); if (!m) continue; memcpy(iov[i].iov_base, s->rx.data(), m); s->rx.erase(0, m); n += m; }
      if (n) trace(21, fd, n);
      return n;
    }
    if (s->rx_eof || s->shut_rd || s->reset) return 0;
    if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    block_on(s->waiters, -1);
  }
}
static ssize_t sock_send(int fd, const iovec *iov, int cnt, int flags) {
  Kernel k; S.st.syscalls++;
  auto f = fds[fd - FD0];
  if (!f || f->kind != File::SOCK) { errno = EBADF; return -1; }
  auto s = std::static_pointer_cast<Sock>(f);
  for (;;) {
    if (s->err) { errno = s->err; s->err = 0; return -1; }
    if (s->st != Sock::OPEN) { errno = s->st == Sock::CONNECTING ? EAGAIN : ENOTCONN; return -1; }
    if (s->tx_fin || s->reset) { errno = EPIPE; return -1; }
    size_t room = s->tx.size() < s->sndbuf ? s->sndbuf - s->tx.size() : 0, want = 0;
    for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    if (!want) return 0;
    if (!room) { if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } block_on(s->waiters, -1); continue; }
    ssize_t n = 0;
    for (int i = 0; i < cnt && room; i++) { size_t m = std::min(iov[i].iov_len, room); s->tx.append((const char *)iov[i].iov_base, m); room -= m; n += m; }
    if ((size_t)n < want) S.st.partial_writes++;
    trace(22, fd, n);
    pump(s);
    return n;
  }
}
static void fill_addr(int family, int port, sockaddr *a, socklen_t *l) {
  if (!a || !l) return;
  if (family == AF_INET6) { sockaddr_in6 x{}; x.sin6_family = AF_INET6; x.sin6_port = htons(port); x.sin6_addr = in6addr_loopback; memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; }
  else { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; }
}
static int addr_port(const sockaddr *a) { return a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6 *)a)->sin6_port) : ntohs(((const sockaddr_in *)a)->sin_port); }
static void arm(std::shared_ptr<Timer> t) {
  u64 g = t->gen;
  if (t->deadline < 0) return;
  at(t->deadline, [t, g] { if (t->gen != g) return; t->exp++; if (t->interval > 0) { t->deadline += t->interval; arm(t); } else t->deadline = -1; notify(t.get()); });
}
static bool sim_path(const char *p) { return S.active && p && strncmp(p, DISK_ROOT, strlen(DISK_ROOT)) == 0; }
static std::string norm(const char *p) { // collapse double slashes
  std::string o; for (const char *c = p; *c; c++) if (!(*c == '/' && !o.empty() && o.back() == '/')) o += *c; return o;
}
struct DiskFd { std::string path; };
static std::map<int, DiskFd> disk_fds;
static int disk_open(const char *cpath, int flags) {
  Kernel k; S.st.syscalls++; S.st.disk_opens++; S.now += 5000;
  std::string path = norm(cpath);
  trace(23, hash_str(path));
  disk.opened[path]++;
  auto e = disk.open_err.find(path);
  if (e != disk.open_err.end()) { S.st.disk_eio++; errno = e->second; return -1; }
  auto it = disk.files.find(path);
  if (it == disk.files.end()) {
    if (!(flags & O_CREAT)) { S.st.disk_enoent++; errno = ENOENT; return -1; }
    it = disk.files.emplace(path, "").first;
  }
  int fd = (int)rawsys(SYS_memfd_create, (long)"simdisk", 0);
  if (fd < 0) return -1;
  const std::string &c = it->second;
  size_t o = 0; while (o < c.size()) { ssize_t n = rawsys(SYS_write, fd, (long)(c.data() + o), c.size() - o); if (n <= 0) break; o += n; }
  rawsys(SYS_lseek, fd, 0, SEEK_SET);
  disk_fds[fd] = DiskFd{path};
  return fd;
}
// -1: no injected error; otherwise clamps len
static int disk_read_fault(int fd, size_t &len) {
  auto it = disk_fds.find(fd);
  if (it == disk_fds.end()) return 0;
  S.st.syscalls++; S.now += 3000;
  off_t pos = rawsys(SYS_lseek, fd, 0, SEEK_CUR);
  auto e = disk.read_err.find(it->second.path);
  if (e != disk.read_err.end()) {
    if ((u64)pos >= e->second.first) { S.st.disk_eio++; trace(24, pos, e->second.second); return e->second.second; }
    len = std::min<size_t>(len, e->second.first - pos);
  }
  if (choose(S_DISK, 2, S.pol.p_eintr)) { S.st.eintrs++; return EINTR; }
  if (len > 1) { u32 k = choose(S_DISK, 8, S.pol.p_short); if (k) { static const size_t cut[8] = {0, 1, 2, 3, 7, 8, 13, 64}; if (cut[k] < len) { S.st.short_reads++; len = cut[k]; } } }
  return 0;
}
static bool is_disk_fd(int fd) { return S.active && !disk_fds.empty() && disk_fds.count(fd); }
static int disk_stat(const char *cpath, struct stat *st) {
  Kernel k; std::string p = norm(cpath); while (p.size() > 1 && p.back() == '/') p.pop_back();
  memset(st, 0, sizeof *st);
  auto it = disk.files.find(p);
  if (it != disk.files.end()) { st->st_mode = S_IFREG | 0644; st->st_size = it->second.size(); st->st_nlink = 1; st->st_blksize = 4096; return 0; }
  auto lo = disk.files.lower_bound(p + "/");
  if (lo != disk.files.end() && lo->first.compare(0, p.size() + 1, p + "/") == 0) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; }
  errno = ENOENT; return -1;
}
} // namespace sim
using namespace sim;

extern "C" {
int socket(int domain, int type, int proto) noexcept {
  if (!managed()) return REAL(socket)(domain, type, proto);
  Kernel k; S.st.syscalls++;
  auto s = std::make_shared<Sock>(); s->family = domain; s->nonblock = type & SOCK_NONBLOCK; s->sndbuf = S.pol.sndbuf;
  return new_fd(s);
}
int bind(int fd, const sockaddr *a, socklen_t l) noexcept {
  if (!is_sim(fd)) return REAL(bind)(fd, a, l);
  Kernel k; auto s = static_cast<Sock *>(get(fd)); s->port = addr_port(a); return 0;
}
int listen(int fd, int b) noexcept {
  if (!is_sim(fd)) return REAL(listen)(fd, b);
  Kernel k; auto s = std::static_pointer_cast<Sock>(fds[fd - FD0]); s->st = Sock::LISTEN; listeners[s->port] = s; trace(30, s->port); if (on_listen) on_listen(); return 0;
}
static int do_accept(int fd, sockaddr *a, socklen_t *l, int flags) {
  yield_point(20, nullptr);
  Kernel k; S.st.syscalls++;
  auto s = std::static_pointer_cast<Sock>(fds[fd - FD0]);
  for (;;) {
    if (!s->backlog.empty()) {
      if (choose(S_NET, 2, S.pol.p_accept_err)) { S.st.accept_errs++; errno = ECONNABORTED; return -1; }
      SockP c = s->backlog.front(); s->backlog.pop_front(); c->nonblock = flags & SOCK_NONBLOCK;
      int n = new_fd(c); fill_addr(c->family, c->peer_port, a, l);
      trace(31, n); logf("accept fd=%d", n);
      if (c->peer) c->peer->on_accepted();
      return n;
    }
    if (s->nonblock) { errno = EAGAIN; return -1; }
    block_on(s->waiters, -1);
  }
}
int accept(int fd, sockaddr *a, socklen_t *l) { if (!is_sim(fd)) return REAL(accept)(fd, a, l); return do_accept(fd, a, l, 0); }
int accept4(int fd, sockaddr *a, socklen_t *l, int fl) { if (!is_sim(fd)) return REAL(accept4)(fd, a, l, fl); return do_accept(fd, a, l, fl); }
int connect(int fd, const sockaddr *a, socklen_t l) {
  if (!is_sim(fd)) return REAL(connect)(fd, a, l);
  yield_point(21, nullptr);
  Kernel k; S.st.syscalls++;
  auto s = std::static_pointer_cast<Sock>(fds[fd - FD0]);
  int port = addr_port(a);
  if (s->st == Sock::OPEN) { errno = EISCONN; return -1; }
  if (s->st == Sock::CONNECTING) { errno = EALREADY; return -1; }
  ConnectDecision d; if (outgoing_connect) d = outgoing_connect(port); else d.err = ECONNREFUSED;
  s->peer_port = port; s->port = next_port++; s->sndbuf = S.pol.sndbuf;
  trace(32, port, d.err); logf("connect port=%d err=%d", port, d.err);
  if (d.immediate && d.err) { errno = d.err; return -1; }
  s->st = Sock::CONNECTING;
  SockP sp = s; ConnectDecision dd = d;
  after(net_delay(S.pol.p_delay), [sp, dd] {
    if (sp->closed) return;
    if (dd.err) { sp->st = Sock::FAILED; sp->err = dd.err; }
    else { sp->st = Sock::OPEN; sp->peer = dd.peer; dd.peer->sock = sp; dd.peer->on_accepted(); }
    notify(sp.get());
  });
  if (s->nonblock) { errno = EINPROGRESS; return -1; }
  while (s->st == Sock::CONNECTING) block_on(s->waiters, -1);
  if (s->err) { errno = s->err; s->err = 0; return -1; }
  return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!is_sim(fd)) return REAL(recv)(fd, b, n, fl); yield_point(22, nullptr); iovec v{b, n}; return sock_recv(fd, &v, 1, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *l) { if (!is_sim(fd)) return REAL(recvfrom)(fd, b, n, fl, a, l); yield_point(22, nullptr); iovec v{b, n}; return sock_recv(fd, &v, 1, fl); }
ssize_t recvmsg(int fd, msghdr *m, int fl) { if (!is_sim(fd)) return REAL(recvmsg)(fd, m, fl); yield_point(22, nullptr); m->msg_flags = 0; return sock_recv(fd, m->msg_iov, (int)m->msg_iovlen, fl); }
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!is_sim(fd)) return REAL(send)(fd, b, n, fl); yield_point(23, nullptr); iovec v{(void *)b, n}; return sock_send(fd, &v, 1, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t l) { if (!is_sim(fd)) return REAL(sendto)(fd, b, n, fl, a, l); yield_point(23, nullptr); iovec v{(void *)b, n}; return sock_send(fd, &v, 1, fl); }
ssize_t sendmsg(int fd, const msghdr *m, int fl) { if (!is_sim(fd)) return REAL(sendmsg)(fd, m, fl); yield_point(23, nullptr); return sock_send(fd, m->msg_iov, (int)m->msg_iovlen, fl); }

static ssize_t ctl_read(int fd, void *b, size_t n) {
  Kernel k; S.st.syscalls++;
  auto f = fds[fd - FD0]; if (!f) { errno = EBADF; return -1; }
  if (n < 8) { errno = EINVAL; return -1; }
  for (;;) {
    if (f->kind == File::EVENT) { auto e = static_cast<Event *>(f.get()); if (e->v) { memcpy(b, &e->v, 8); e->v = 0; hb_acquire(e); return 8; } }
    else if (f->kind == File::TIMER) { auto e = static_cast<Timer *>(f.get()); if (e->exp) { memcpy(b, &e->exp, 8); e->exp = 0; return 8; } }
    else { errno = EINVAL; return -1; }
    if (f->nonblock) { errno = EAGAIN; return -1; }
    block_on(f->waiters, -1);
  }
}
static ssize_t ctl_write(int fd, const void *b, size_t n) {
  Kernel k; S.st.syscalls++;
  auto f = fds[fd - FD0]; if (!f || f->kind != File::EVENT || n < 8) { errno = EINVAL; return -1; }
  u64 v; memcpy(&v, b, 8); static_cast<Event *>(f.get())->v += v; hb_release(f.get()); notify(f.get()); return 8;
}
ssize_t read(int fd, void *b, size_t n) {
  if (is_sim(fd)) { yield_point(24, nullptr); File *f = get(fd); if (f && f->kind == File::SOCK) { iovec v{b, n}; return sock_recv(fd, &v, 1, 0); } return ctl_read(fd, b, n); }
  if (is_disk_fd(fd) && managed()) { { Kernel k; int e = disk_read_fault(fd, n); if (e) { errno = e; return -1; } } yield_point(25, nullptr); return rawsys(SYS_read, fd, (long)b, n); }
  return REAL(read)(fd, b, n);
}
ssize_t readv(int fd, const iovec *v, int c) {
  if (is_sim(fd)) { yield_point(24, nullptr); return sock_recv(fd, v, c, 0); }
  if (is_disk_fd(fd) && managed() && c > 0) { return read(fd, v[0].iov_base, v[0].iov_len); }
  return REAL(readv)(fd, v, c);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (is_disk_fd(fd) && managed()) { Kernel k; int e = disk_read_fault(fd, n); if (e) { errno = e; return -1; } return rawsys(SYS_pread64, fd, (long)b, n, o); }
  return REAL(pread)(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (is_sim(fd)) { yield_point(26, nullptr); File *f = get(fd); if (f && f->kind == File::SOCK) { iovec v{(void *)b, n}; return sock_send(fd, &v, 1, 0); } return ctl_write(fd, b, n); }
  return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const iovec *v, int c) { if (is_sim(fd)) { yield_point(26, nullptr); return sock_send(fd, v, c, 0); } return REAL(writev)(fd, v, c); }
int close(int fd) {
  if (is_sim(fd)) {
    yield_point(27, nullptr);
    Kernel k; if (!get(fd)) { errno = EBADF; return -1; }
    auto f = fds[fd - FD0]; fds[fd - FD0] = nullptr; trace(33, fd); drop(f); return 0;
  }
  if (S.active && !disk_fds.empty()) { Kernel k; disk_fds.erase(fd); }
  return REAL(close)(fd);
}
int shutdown(int fd, int how) noexcept {
  if (!is_sim(fd)) return REAL(shutdown)(fd, how);
  Kernel k; auto s = std::static_pointer_cast<Sock>(fds[fd - FD0]);
  if (s->st != Sock::OPEN || s->reset) { errno = ENOTCONN; return -1; }
  if (how != SHUT_WR) s->shut_rd = true;
  if (how != SHUT_RD && !s->tx_fin) { s->tx_fin = true; pump(s); }
  notify(s.get());
  return 0;
}
int setsockopt(int fd, int a, int b, const void *v, socklen_t l) noexcept { if (!is_sim(fd)) return REAL(setsockopt)(fd, a, b, v, l); return 0; }
int getsockopt(int fd, int level, int name, void *v, socklen_t *l) noexcept {
  if (!is_sim(fd)) return REAL(getsockopt)(fd, level, name, v, l);
  Kernel k; int r = 0; if (level == SOL_SOCKET && name == SO_ERROR) { auto s = static_cast<Sock *>(get(fd)); r = s->err; s->err = 0; }
  if (*l >= sizeof r) { memcpy(v, &r, sizeof r); *l = sizeof r; } return 0;
}
int getsockname(int fd, sockaddr *a, socklen_t *l) noexcept { if (!is_sim(fd)) return REAL(getsockname)(fd, a, l); Kernel k; auto s = static_cast<Sock *>(get(fd)); fill_addr(s->family, s->port, a, l); return 0; }
int getpeername(int fd, sockaddr *a, socklen_t *l) noexcept {
  if (!is_sim(fd)) return REAL(getpeername)(fd, a, l);
  Kernel k; auto s = static_cast<Sock *>(get(fd)); if (s->st != Sock::OPEN || s->reset) { errno = ENOTCONN; return -1; } fill_addr(s->family, s->peer_port, a, l); return 0;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
  if (!is_sim(fd)) return REAL(ioctl)(fd, req, p);
  Kernel k; File *f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (req == FIONBIO) f->nonblock = *(int *)p;
  else if (req == FIONREAD) *(int *)p = f->kind == File::SOCK ? (int)static_cast<Sock *>(f)->rx.size() : 0;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *p = va_arg(ap, void *); va_end(ap);
  if (!is_sim(fd)) return REAL(fcntl)(fd, cmd, p);
  Kernel k; File *f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f->nonblock = ((long)p & O_NONBLOCK) != 0; return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *p = va_arg(ap, void *); va_end(ap); return fcntl(fd, cmd, p); }
int poll(pollfd *p, nfds_t n, int timeout) {
  bool any = false; for (nfds_t i = 0; i < n; i++) any |= is_sim(p[i].fd);
  if (!any) return REAL(poll)(p, n, timeout);
  yield_point(28, nullptr);
  Kernel k; S.st.syscalls++;
  i64 dl = timeout < 0 ? -1 : S.now + timeout * 1000000ll;
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; File *f = get(p[i].fd); if (f) { p[i].revents = f->ready() & (p[i].events | POLLERR | POLLHUP); c += p[i].revents != 0; } }
    if (c || timeout == 0 || (dl >= 0 && S.now >= dl)) return c;
    File *f = get(p[0].fd);
    if (!f) return 0;
    block_on(f->waiters, dl);
  }
}
int epoll_create1(int) noexcept { if (!managed()) return REAL(epoll_create1)(0); Kernel k; return new_fd(std::make_shared<Epoll>()); }
int epoll_create(int n) noexcept { if (!managed()) return REAL(epoll_create)(n); Kernel k; return new_fd(std::make_shared<Epoll>()); }
int epoll_ctl(int ep, int op, int fd, epoll_event *ev) noexcept {
  if (!is_sim(ep)) return REAL(epoll_ctl)(ep, op, fd, ev);
  yield_point(29, nullptr);
  Kernel k; S.st.syscalls++;
  auto e = static_cast<Epoll *>(get(ep)); File *f = get(fd);
  if (!e || !f) { errno = EBADF; return -1; }
  hb_release(e);
  EpItem *it = nullptr; for (auto &x : e->items) if (x->f == f && x->fd == fd) it = x.get();
  if (op == EPOLL_CTL_DEL) {
    if (!it) { errno = ENOENT; return -1; }
    e->q.erase(std::remove(e->q.begin(), e->q.end(), it), e->q.end()); f->watch.remove(it);
    e->items.remove_if([&](std::unique_ptr<EpItem> &p) { return p.get() == it; });
    return 0;
  }
  if (op == EPOLL_CTL_ADD) { if (it) { errno = EEXIST; return -1; } e->items.push_back(std::make_unique<EpItem>()); it = e->items.back().get(); it->ep = e; it->f = f; it->fd = fd; f->watch.push_back(it); }
  else if (!it) { errno = ENOENT; return -1; }
  it->events = ev->events; it->data = ev->data.u64;
  if ((f->ready() & (it->events | EPOLLERR | EPOLLHUP)) && !it->pending) { it->pending = true; e->q.push_back(it); wake_one(e->waiters); }
  return 0;
}
int epoll_wait(int ep, epoll_event *out, int max, int timeout) {
  if (!is_sim(ep)) return REAL(epoll_wait)(ep, out, max, timeout);
  yield_point(30, nullptr);
  Kernel k; S.st.syscalls++;
  auto keep = fds[ep - FD0]; auto e = static_cast<Epoll *>(keep.get());
  if (!e) { errno = EBADF; return -1; }
  i64 dl = timeout < 0 ? -1 : S.now + timeout * 1000000ll;
  for (;;) {
    int n = 0; std::deque<EpItem *> again;
    while (!e->q.empty() && n < max) {
      EpItem *it = e->q.front(); e->q.pop_front(); it->pending = false;
      u32 m = it->f->ready() & (it->events | EPOLLERR | EPOLLHUP);
      if (!m) continue;
      out[n].events = m; out[n].data.u64 = it->data; n++;
      if (!(it->events & EPOLLET)) again.push_back(it);
    }
    for (EpItem *it : again) { it->pending = true; e->q.push_back(it); }
    if (n) { hb_acquire(e); trace(34, n); if (!e->q.empty()) wake_one(e->waiters); return n; }
    if (timeout == 0 || (dl >= 0 && S.now >= dl)) return 0;
    block_on(e->waiters, dl);
  }
}
int epoll_pwait(int ep, epoll_event *out, int max, int timeout, const sigset_t *s) { if (!is_sim(ep)) return REAL(epoll_pwait)(ep, out, max, timeout, s); return epoll_wait(ep, out, max, timeout); }
int eventfd(unsigned v, int flags) noexcept { if (!managed()) return REAL(eventfd)(v, flags); Kernel k; auto e = std::make_shared<Event>(); e->v = v; e->nonblock = flags & EFD_NONBLOCK; return new_fd(e); }
int timerfd_create(int c, int flags) noexcept { if (!managed()) return REAL(timerfd_create)(c, flags); Kernel k; auto t = std::make_shared<Timer>(); t->nonblock = flags & TFD_NONBLOCK; return new_fd(t); }
int timerfd_settime(int fd, int flags, const itimerspec *n, itimerspec *o) noexcept {
  if (!is_sim(fd)) return REAL(timerfd_settime)(fd, flags, n, o);
  Kernel k; S.st.syscalls++;
  auto t = std::static_pointer_cast<Timer>(fds[fd - FD0]);
  if (o) { memset(o, 0, sizeof *o); if (t->deadline >= 0) { i64 d = std::max<i64>(1, t->deadline - S.now); o->it_value.tv_sec = d / 1000000000; o->it_value.tv_nsec = d % 1000000000; } }
  i64 v = (i64)n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
  t->gen++; t->exp = 0; t->interval = (i64)n->it_interval.tv_sec * 1000000000ll + n->it_interval.tv_nsec;
  if (v == 0) t->deadline = -1; else t->deadline = (flags & TFD_TIMER_ABSTIME) ? std::max(v, S.now) : S.now + v;
  arm(t);
  return 0;
}
int timerfd_gettime(int fd, itimerspec *o) noexcept { if (!is_sim(fd)) return REAL(timerfd_gettime)(fd, o); memset(o, 0, sizeof *o); return 0; }

int getaddrinfo(const char *host, const char *service, const addrinfo *hints, addrinfo **res) {
  if (!managed()) return REAL(getaddrinfo)(host, service, hints, res);
  yield_point(31, nullptr);
  Kernel k; S.st.syscalls++;
  { WaitQ w; block_on(w, S.now + net_delay(S.pol.p_delay)); }
  int e = resolve_hook ? resolve_hook(host, service) : 0;
  trace(35, e);
  if (e) return e;
  struct A { addrinfo a; sockaddr_in s; };
  A *x = (A *)calloc(1, sizeof(A));
  x->s.sin_family = AF_INET; x->s.sin_port = htons(service ? atoi(service) : 0); x->s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  x->a.ai_family = AF_INET; x->a.ai_socktype = SOCK_STREAM; x->a.ai_protocol = IPPROTO_TCP; x->a.ai_addrlen = sizeof x->s; x->a.ai_addr = (sockaddr *)&x->s;
  *res = &x->a;
  return 0;
}
void freeaddrinfo(addrinfo *a) noexcept { if (!S.active) return REAL(freeaddrinfo)(a); free(a); }

// ---------------------------------------------------------------- files
int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (sim_path(p) && managed()) { yield_point(32, nullptr); return disk_open(p, flags); }
  return REAL(open)(p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (sim_path(p) && managed()) { yield_point(32, nullptr); return disk_open(p, flags); }
  return REAL(open64)(p, flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (sim_path(p) && managed()) { yield_point(32, nullptr); return disk_open(p, flags); }
  return REAL(openat)(d, p, flags, mode);
}
static FILE *disk_fopen(const char *p, const char *mode) {
  int fl = strchr(mode, 'w') || strchr(mode, 'a') ? O_CREAT : 0;
  int fd = disk_open(p, fl); if (fd < 0) return nullptr;
  return fdopen(fd, mode);
}
FILE *fopen(const char *p, const char *m) { if (sim_path(p) && managed()) return disk_fopen(p, m); return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (sim_path(p) && managed()) return disk_fopen(p, m); return REAL(fopen64)(p, m); }
int fclose(FILE *f) { if (S.active && f && !disk_fds.empty()) { Kernel k; disk_fds.erase(fileno(f)); } return REAL(fclose)(f); }
int access(const char *p, int m) noexcept { if (sim_path(p) && managed()) { struct stat st; return disk_stat(p, &st); } return REAL(access)(p, m); }
int stat(const char *__restrict p, struct stat *__restrict st) noexcept { if (sim_path(p) && managed()) return disk_stat(p, st); return REAL(stat)(p, st); }
int lstat(const char *__restrict p, struct stat *__restrict st) noexcept { if (sim_path(p) && managed()) return disk_stat(p, st); return REAL(lstat)(p, st); }
} // extern "C"
