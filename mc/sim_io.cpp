// Interposed descriptors: an in-process TCP (listen, accept, connect, send, recv, shutdown, close, timeouts,
// poll) and a file layer over a scratch directory (locks per process and per open file, process death).
#include "sim_io.h"
#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <stdio_ext.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>
using namespace sim;

#define REAL(name) static auto rf = (decltype(&name))sim::real(#name)

namespace {
struct File {
  enum Kind { Fresh, Listener, Stream, Event } kind = Fresh;
  int proc = 0;
  bool nonblock = false;
  uint64_t rcvto = 0, sndto = 0;
  int port = 0;
  bool bound = false;
  // listener
  bool listening = false, lshut = false;
  size_t backlog = 128;
  std::deque<std::shared_ptr<File>> pending;
  // stream
  std::weak_ptr<File> peerW;
  File* peer = nullptr;      // valid while peerAlive
  bool peerAlive = false;    // the peer end is still open
  std::deque<unsigned char> rx;
  size_t cap = 1 << 16;
  bool fin = false;          // the peer will send no more
  bool reset = false, resetTold = false;
  bool rdShut = false, wrShut = false;
  bool connected = false, refused = false, initiator = false;
  bool open = true;          // the descriptor has not been closed
  int ops = 0;
  uint64_t count = 0;        // eventfd
  VC clock;
  ~File();
  void dead();
};
constexpr int kBase = 500;
struct Fd { std::shared_ptr<File> f; };
struct Net {
  std::map<int, std::shared_ptr<File>> fds;
  std::map<int, std::weak_ptr<File>> ports;
  std::set<std::string> holes;
  uint64_t bytes = 0;
  std::set<int> hit;
};
Net* N;
std::shared_ptr<File> get(int fd) { if (!N || fd < kBase) return nullptr; auto it = N->fds.find(fd); return it == N->fds.end() ? nullptr : it->second; }
int newFd(std::shared_ptr<File> f) { int fd = kBase; while (N->fds.count(fd)) fd++; N->fds[fd] = std::move(f); return fd; }

// the last reference to an endpoint goes away: the connection ends
void File::dead() {
  if (kind == Stream && peerAlive) {
    File* p = peer;
    peerAlive = false; p->peerAlive = false;
    if (!rx.empty()) { p->reset = true; }
    p->fin = true;
  }
  if (kind == Listener) {
    for (auto& e : pending) if (e->peerAlive) { e->peer->reset = true; e->peer->fin = true; e->peer->peerAlive = false; e->peerAlive = false; }
    pending.clear();
    if (N) { auto it = N->ports.find(port); if (it != N->ports.end() && it->second.expired()) N->ports.erase(it); }
  }
}
File::~File() { dead(); }

std::shared_ptr<File> mkFile(int proc) { auto f = std::make_shared<File>(); f->proc = proc; vcZero(f->clock); return f; }
uint64_t tmo(uint64_t t) { return t ? S->now + t : kForever; }
int err(int e) { errno = e; return -1; }

// faults offered at a network call: returns 0 none, 1 short, 2 EINTR, 3 reset, 4 process dies, 5 process silent
int fault(const char* what, bool canShort, bool canReset, bool canIntr = true) {
  int kinds[6], n = 0;
  kinds[n++] = 0;
  if (S->faultsLeft <= 0 || !S->exploring) return 0;
  if (canShort && S->cfg.shorts) kinds[n++] = 1;
  if (canIntr && S->cfg.interrupts) kinds[n++] = 2;
  if (canReset && S->cfg.resets) kinds[n++] = 3;
  if (S->cfg.kills && cur->proc != 0) kinds[n++] = 4;
  if (S->cfg.freezes && cur->proc != 0) kinds[n++] = 5;
  int k = kinds[ask(n, what, true)];
  if (k == 4) { S->reqKillProc = cur->proc; dieHere(); }
  if (k == 5) { S->reqFreezeProc = cur->proc; dieHere(); }
  return k;
}
void doReset(File* f) {
  if (f->initiator) N->hit.insert(f->proc); else if (f->peerAlive) N->hit.insert(f->peer->proc);
  f->reset = true; f->fin = true;
  if (f->peerAlive) { f->peer->reset = true; f->peer->fin = true; f->peer->peerAlive = false; f->peerAlive = false; }
}

bool readable(File* f) {
  switch (f->kind) {
    case File::Listener: return !f->pending.empty() || f->lshut;
    case File::Stream: return !f->rx.empty() || f->fin || f->reset || f->rdShut;
    case File::Event: return f->count > 0;
    default: return f->refused;
  }
}
bool writable(File* f) {
  switch (f->kind) {
    case File::Stream: return f->reset || f->wrShut || !f->peerAlive || f->peer->rx.size() < f->peer->cap;
    case File::Event: return true;
    default: return f->refused;
  }
}

ssize_t netRecv(int fd, void* buf, size_t n, int flags) {
  point("recv");
  Internal in;
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (f->kind == File::Event) {
    if (n < 8) return err(EINVAL);
    File* p = f.get();
    if (!p->count) { if (p->nonblock) return err(EAGAIN); g_internal--; block("eventfd read", [p] { return p->count > 0; }); g_internal++; }
    memcpy(buf, &p->count, 8); p->count = 0; acquire(p->clock);
    return 8;
  }
  if (f->kind != File::Stream) return err(ENOTCONN);
  if (n == 0) return 0;
  g_internal--; int k = fault("recv", n > 1, true, !(f->nonblock || (flags & MSG_DONTWAIT))); g_internal++;
  if (k == 2) return err(EINTR);
  if (k == 3) doReset(f.get());
  File* p = f.get();
  if (!readable(p)) {
    if (p->nonblock || (flags & MSG_DONTWAIT)) return err(EAGAIN);
    g_internal--; bool ok = block("recv", [p] { return readable(p); }, tmo(p->rcvto)); g_internal++;
    if (!ok) return err(EAGAIN);
  }
  acquire(p->clock);
  if (!p->rx.empty()) {
    size_t m = std::min(n, p->rx.size());
    if (k == 1) m = 1;
    if ((flags & MSG_WAITALL) && m < n && k != 1) { // wait for all of it
      size_t want = std::min(n, p->cap);
      g_internal--; block("recv", [p, want] { return p->rx.size() >= want || p->fin || p->reset || p->rdShut; }, tmo(p->rcvto)); g_internal++;
      m = std::min(n, p->rx.size());
    }
    unsigned char* o = (unsigned char*)buf;
    for (size_t i = 0; i < m; i++) o[i] = p->rx[i];
    if (!(flags & MSG_PEEK)) p->rx.erase(p->rx.begin(), p->rx.begin() + m);
    return (ssize_t)m;
  }
  if (p->reset && !p->resetTold) { p->resetTold = true; return err(ECONNRESET); }
  return 0;
}
ssize_t netSend(int fd, const void* buf, size_t n, int flags) {
  point("send");
  Internal in;
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (f->kind == File::Event) { uint64_t v; memcpy(&v, buf, 8); f->count += v; release(f->clock); return 8; }
  if (f->kind != File::Stream) return err(f->kind == File::Fresh ? ENOTCONN : EPIPE);
  if (n == 0) {
    if (f->wrShut || f->resetTold) return err(EPIPE);
    if (f->reset) { f->resetTold = true; return err(ECONNRESET); }
    return 0;
  }
  g_internal--; int k = fault("send", n > 1, true, !(f->nonblock || (flags & MSG_DONTWAIT))); g_internal++;
  if (k == 2) return err(EINTR);
  if (k == 3) doReset(f.get());
  File* p = f.get();
  auto bad = [&]() -> int {
    if (p->wrShut) return EPIPE;
    if (p->reset) { if (!p->resetTold) { p->resetTold = true; return ECONNRESET; } return EPIPE; }
    return 0;
  };
  if (int e = bad()) { if (e == EPIPE && !(flags & MSG_NOSIGNAL)) {} return err(e); }
  if (!p->peerAlive) { p->reset = true; return (ssize_t)n; }  // goes out, the answer is a reset
  if (p->peer->rdShut) { p->reset = true; return (ssize_t)n; }
  if (!writable(p)) {
    if (p->nonblock || (flags & MSG_DONTWAIT)) return err(EAGAIN);
    g_internal--; bool ok = block("send", [p] { return writable(p); }, tmo(p->sndto)); g_internal++;
    if (!ok) return err(EAGAIN);
    if (int e = bad()) return err(e);
    if (!p->peerAlive) { p->reset = true; return (ssize_t)n; }
  }
  size_t m = std::min(n, p->peer->cap - p->peer->rx.size());
  if (k == 1) m = 1;
  const unsigned char* s = (const unsigned char*)buf;
  p->peer->rx.insert(p->peer->rx.end(), s, s + m);
  release(p->peer->clock);
  N->bytes += m;
  return (ssize_t)m;
}

// ------------------------------------------------------------------ files
struct FFd { int proc; std::string path; uint64_t ino; FILE* fp; int fl = 0; };  // fl: flock 0 none 1 shared 2 exclusive
struct Rec { int type; };  // fcntl record locks, whole file: per process
struct Fs {
  std::map<int, FFd> fds;
  std::map<uint64_t, std::map<int, int>> plocks;  // inode -> proc -> 1 read 2 write
  std::map<DIR*, int> dirs;
  std::map<uint64_t, VC> clocks;
  std::string root;
};
Fs* F;
uint64_t inoOf(int fd) { struct stat st; static auto rf = (int (*)(int, struct stat*))sim::real("fstat"); return rf(fd, &st) == 0 ? (uint64_t)st.st_ino : 0; }
void checkRoot(const char* path) {
  if (F->root.empty() || !path) return;
  const char* r = path + F->root.size();
  bool in = strncmp(path, F->root.c_str(), F->root.size()) == 0 && (*r == 0 || *r == '/');
  if (in) for (const char* q = r; (q = strstr(q, "/..")); q += 3) if (q[3] == 0 || q[3] == '/') in = false;
  if (!in) { Internal in; problem(std::string("file outside the store's directory is touched: ") + path); }
}
int (*rclose)(int);
void rawClose(int fd) { if (!rclose) rclose = (int (*)(int))sim::real("close"); rclose(fd); }

// every call on files is a scheduling point and a point where the process may die
void fsPoint(const char* what) {
  point(what);
  if (S->cfg.kills && S->faultsLeft > 0 && S->exploring && cur->proc != 0 && ask(2, what, true) == 1) { S->reqKillProc = cur->proc; dieHere(); }
}
// 0: normal, 1: interrupted system call
bool fsIntr(const char* what) { return S->cfg.interrupts && S->faultsLeft > 0 && S->exploring && ask(2, what, true) == 1; }
// death in the middle of a write: how much gets written before (n: all, no death)
size_t fsTorn(const char* what, size_t n) {
  if (!(S->cfg.kills && S->faultsLeft > 0 && S->exploring && cur->proc != 0) || n < 2) return n;
  int k = ask(2, what, true);
  if (k == 0) return n;
  return n / 2;
}
void dropPLocks(uint64_t ino, int proc) { auto it = F->plocks.find(ino); if (it != F->plocks.end()) it->second.erase(proc); }
void forget(int fd) {
  auto it = F->fds.find(fd);
  if (it == F->fds.end()) return;
  dropPLocks(it->second.ino, it->second.proc);
  F->fds.erase(it);
}
FFd* ffd(int fd) { if (!F) return nullptr; auto it = F->fds.find(fd); return it == F->fds.end() ? nullptr : &it->second; }
int trackFd(int fd, const char* path, FILE* fp = nullptr) {
  if (fd >= 0) { Internal in; F->fds[fd] = FFd{cur->proc, path, inoOf(fd), fp, 0}; }
  return fd;
}

void reset() {
  Internal in;
  delete N; N = nullptr;
  N = new Net;
  delete F; F = new Fs;
}
void end(bool) {
  Internal in;
  if (F) {
    auto m = F->fds;
    for (auto& k : m) { if (k.second.fp) { __fpurge(k.second.fp); static auto rc = (int (*)(FILE*))sim::real("fclose"); rc(k.second.fp); } else rawClose(k.first); }
    F->fds.clear();
    for (auto& d : F->dirs) { static auto rc = (int (*)(DIR*))sim::real("closedir"); rc(d.first); }
    F->dirs.clear();
  }
  if (N) { for (auto& p : N->fds) p.second->kind = File::Fresh; delete N; N = nullptr; }
}
void procDeath(int proc) {
  Internal in;
  std::vector<int> mine;
  for (auto& p : N->fds) if (p.second->proc == proc) mine.push_back(p.first);
  for (int fd : mine) { auto f = N->fds[fd]; N->fds.erase(fd); f->open = false; f->dead(); f->kind = File::Fresh; }
  std::vector<int> ff;
  for (auto& p : F->fds) if (p.second.proc == proc) ff.push_back(p.first);
  for (int fd : ff) {
    FFd x = F->fds[fd];
    forget(fd);
    if (x.fp) { __fpurge(x.fp); static auto rc = (int (*)(FILE*))sim::real("fclose"); rc(x.fp); } else rawClose(fd);
  }
}
struct Reg { Reg() { onReset.push_back(reset); onEnd.push_back(end); onProcDeath.push_back(procDeath); } } reg;
}  // namespace

namespace sim {
int openSockets() { int n = 0; for (auto& p : N->fds) n += !S->procDead(p.second->proc); return n; }
std::string openSocketList() {
  std::string s;
  for (auto& p : N->fds) s += std::to_string(p.first) + (p.second->kind == File::Listener ? "(listening) " : p.second->kind == File::Stream ? "(connection) " : "(other) ");
  return s;
}
void blackhole(const char* a) { N->holes.insert(a); }
bool connectionHit(int proc) { return N->hit.count(proc) != 0; }
uint64_t netBytes() { return N->bytes; }
int openFiles() { return (int)F->fds.size(); }
void fileRoot(const std::string& d) { F->root = d; }
}

extern "C" {
int socket(int domain, int type, int proto) {
  if (!cur) { REAL(socket); return rf(domain, type, proto); }
  point("socket");
  Internal in;
  auto f = mkFile(cur->proc);
  if (type & SOCK_NONBLOCK) f->nonblock = true;
  return newFd(f);
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
  if (!cur) { REAL(setsockopt); return rf(fd, level, opt, v, n); }
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    if (n < sizeof(timeval)) return err(EINVAL);
    const timeval* t = (const timeval*)v;
    if (t->tv_usec < 0 || t->tv_usec >= 1000000) return err(EDOM);
    if (t->tv_sec < 0) return err(EDOM);
    uint64_t ns = (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_usec * 1000;
    (opt == SO_RCVTIMEO ? f->rcvto : f->sndto) = ns;
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
  if (!cur) { REAL(getsockopt); return rf(fd, level, opt, v, n); }
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (level == SOL_SOCKET && opt == SO_ERROR) {
    int e = f->refused ? ECONNREFUSED : (f->reset && !f->resetTold) ? ECONNRESET : 0;
    f->refused = false;
    if (e == ECONNRESET) f->resetTold = true;
    *(int*)v = e; *n = 4;
    return 0;
  }
  memset(v, 0, *n);
  return 0;
}
int bind(int fd, const sockaddr* a, socklen_t n) {
  if (!cur) { REAL(bind); return rf(fd, a, n); }
  point("bind");
  Internal in;
  auto f = get(fd);
  if (!f) return err(EBADF);
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (port == 0) { port = 40000; while (N->ports.count(port)) port++; }
  auto it = N->ports.find(port);
  if (it != N->ports.end()) { auto q = it->second.lock(); if (q && (q->open || q->ops)) return err(EADDRINUSE); }
  N->ports[port] = f;
  f->port = port; f->bound = true;
  return 0;
}
int listen(int fd, int backlog) {
  if (!cur) { REAL(listen); return rf(fd, backlog); }
  auto f = get(fd);
  if (!f) return err(EBADF);
  f->kind = File::Listener; f->listening = true; f->backlog = backlog;
  return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* n) {
  if (!cur) { REAL(getsockname); return rf(fd, a, n); }
  auto f = get(fd);
  if (!f) return err(EBADF);
  sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(f->port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s;
  return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* n) {
  if (!cur) { REAL(getpeername); return rf(fd, a, n); }
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (f->kind != File::Stream) return err(ENOTCONN);
  sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s;
  return 0;
}
static int acceptIt(int fd, sockaddr* a, socklen_t* n, int flags) {
  point("accept");
  std::shared_ptr<File> f;
  { Internal in; f = get(fd); }
  if (!f) return err(EBADF);
  if (f->kind != File::Listener) return err(EINVAL);
  int k = fault("accept", false, false, !f->nonblock);
  if (k == 2) { Internal in; f.reset(); return err(EINTR); }
  File* p = f.get();
  p->ops++;
  int e = 0;
  if (!readable(p)) {
    if (p->nonblock) e = EAGAIN;
    else if (!block("accept", [p] { return readable(p); }, tmo(p->rcvto))) e = EAGAIN;
  }
  p->ops--;
  if (!e && p->pending.empty()) e = EINVAL;
  int nfd = -1;
  {
    Internal in;
    if (!e) {
      auto c = p->pending.front();
      p->pending.pop_front();
      acquire(p->clock);
      c->proc = cur->proc;
      if (flags & SOCK_NONBLOCK) c->nonblock = true;
      c->rcvto = p->rcvto; c->sndto = p->sndto;
      nfd = newFd(c);
      if (a && n) { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s.sin_port = htons(50000 + nfd); memcpy(a, &s, std::min<size_t>(*n, sizeof s)); *n = sizeof s; }
    }
    f.reset();
  }
  if (e) return err(e);
  return nfd;
}
int accept(int fd, sockaddr* a, socklen_t* n) {
  if (!cur) { REAL(accept); return rf(fd, a, n); }
  return acceptIt(fd, a, n, 0);
}
int accept4(int fd, sockaddr* a, socklen_t* n, int flags) {
  if (!cur) { REAL(accept4); return rf(fd, a, n, flags); }
  return acceptIt(fd, a, n, flags);
}
int connect(int fd, const sockaddr* a, socklen_t n) {
  if (!cur) { REAL(connect); return rf(fd, a, n); }
  point("connect");
  Internal in;
  auto f = get(fd);
  if (!f) return err(EBADF);
  if (f->kind == File::Stream) return err(EISCONN);
  g_internal--; int k = fault("connect", false, true, !f->nonblock); g_internal++;
  bool intr = k == 2;  // an interrupted connection attempt goes on in the background
  const sockaddr_in* s = (const sockaddr_in*)a;
  char ip[64]; inet_ntop(AF_INET, &s->sin_addr, ip, sizeof ip);
  if (N->holes.count(ip)) {
    if (f->nonblock) return err(EINPROGRESS);
    uint64_t dl = f->sndto ? S->now + f->sndto : S->now + 130ull * 1000000000ull;
    g_internal--; block("connect", [dl] { return S->now >= dl; }, dl); g_internal++;
    return err(f->sndto ? EINPROGRESS : ETIMEDOUT);
  }
  auto it = N->ports.find(ntohs(s->sin_port));
  std::shared_ptr<File> l = it == N->ports.end() ? nullptr : it->second.lock();
  if (k == 3) N->hit.insert(cur->proc);
  if (k == 3 || !l || !l->listening || l->lshut || (!l->open && !l->ops)) {
    if (f->nonblock || intr) { f->refused = true; return err(intr ? EINTR : EINPROGRESS); }
    return err(ECONNREFUSED);
  }
  if (l->pending.size() > l->backlog) return err(ETIMEDOUT);
  auto p = mkFile(l->proc);
  f->kind = p->kind = File::Stream;
  f->connected = p->connected = true;
  f->initiator = true;
  f->peer = p.get(); p->peer = f.get();
  f->peerAlive = p->peerAlive = true;
  p->port = l->port;
  l->pending.push_back(p);
  release(l->clock);
  if (f->nonblock || intr) return err(intr ? EINTR : EINPROGRESS);
  return 0;
}
int shutdown(int fd, int how) {
  if (!cur) { REAL(shutdown); return rf(fd, how); }
  point("shutdown");
  Internal in;
  auto f = get(fd);
  if (!f) { problem("shutdown of a descriptor that is not open"); return err(EBADF); }
  if (f->kind == File::Listener) {
    f->lshut = true;
    for (auto& e : f->pending) if (e->peerAlive) { e->peer->reset = true; e->peer->fin = true; e->peer->peerAlive = false; e->peerAlive = false; }
    f->pending.clear();
    return 0;
  }
  if (f->kind != File::Stream) return err(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) f->rdShut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { f->wrShut = true; if (f->peerAlive) f->peer->fin = true; }
  return 0;
}
hostent* gethostbyname(const char* h) {
  if (!cur) { REAL(gethostbyname); return rf(h); }
  static hostent he; static in_addr ad; static char* lst[2]; static char nm[64];
  if (inet_pton(AF_INET, h, &ad) != 1) { if (strcmp(h, "localhost")) return nullptr; ad.s_addr = htonl(INADDR_LOOPBACK); }
  snprintf(nm, sizeof nm, "%s", h);
  lst[0] = (char*)&ad; lst[1] = nullptr;
  he = hostent{nm, nullptr, AF_INET, 4, lst};
  return &he;
}
int getaddrinfo(const char* h, const char* svc, const addrinfo* hints, addrinfo** out) {
  if (!cur) { REAL(getaddrinfo); return rf(h, svc, hints, out); }
  in_addr ad{};
  if (!h) ad.s_addr = htonl(hints && (hints->ai_flags & AI_PASSIVE) ? INADDR_ANY : INADDR_LOOPBACK);
  else if (inet_pton(AF_INET, h, &ad) != 1) { if (strcmp(h, "localhost")) return EAI_NONAME; ad.s_addr = htonl(INADDR_LOOPBACK); }
  Internal in;
  char* mem = (char*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  addrinfo* ai = (addrinfo*)mem;
  sockaddr_in* sa = (sockaddr_in*)(mem + sizeof(addrinfo));
  sa->sin_family = AF_INET; sa->sin_addr = ad; sa->sin_port = htons(svc ? atoi(svc) : 0);
  ai->ai_family = AF_INET; ai->ai_socktype = SOCK_STREAM; ai->ai_addrlen = sizeof *sa; ai->ai_addr = (sockaddr*)sa;
  *out = ai;
  return 0;
}
void freeaddrinfo(addrinfo* a) {
  if (!cur) { REAL(freeaddrinfo); return rf(a); }
  Internal in;
  free(a);
}
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!cur) { REAL(send); return rf(fd, b, n, fl); } return netSend(fd, b, n, fl); }
ssize_t recv(int fd, void* b, size_t n, int fl) { if (!cur) { REAL(recv); return rf(fd, b, n, fl); } return netRecv(fd, b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { if (!cur) { REAL(sendto); return rf(fd, b, n, fl, a, l); } return netSend(fd, b, n, fl); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { if (!cur) { REAL(recvfrom); return rf(fd, b, n, fl, a, l); } return netRecv(fd, b, n, fl); }
static ssize_t vec(int fd, const iovec* v, int n, int fl, bool w) {
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = w ? netSend(fd, v[i].iov_base, v[i].iov_len, fl) : netRecv(fd, v[i].iov_base, v[i].iov_len, fl);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
    if (!w && t > 0) { auto f = get(fd); if (!f || f->rx.empty()) break; }
  }
  return t;
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (!cur) { REAL(sendmsg); return rf(fd, m, fl); } return vec(fd, m->msg_iov, m->msg_iovlen, fl, true); }
ssize_t recvmsg(int fd, msghdr* m, int fl) { if (!cur) { REAL(recvmsg); return rf(fd, m, fl); } return vec(fd, m->msg_iov, m->msg_iovlen, fl, false); }
ssize_t writev(int fd, const iovec* v, int n) { if (!cur || fd < kBase) { REAL(writev); return rf(fd, v, n); } return vec(fd, v, n, 0, true); }
ssize_t readv(int fd, const iovec* v, int n) { if (!cur || fd < kBase) { REAL(readv); return rf(fd, v, n); } return vec(fd, v, n, 0, false); }

int pipe2(int fd[2], int flags) noexcept;
int pipe(int fd[2]) noexcept { return pipe2(fd, 0); }
int pipe2(int fd[2], int flags) noexcept {
  if (!cur) { REAL(pipe2); return rf(fd, flags); }
  Internal in;
  auto a = mkFile(cur->proc), b = mkFile(cur->proc);
  a->kind = b->kind = File::Stream;
  a->peer = b.get(); b->peer = a.get(); a->peerAlive = b->peerAlive = true;
  if (flags & O_NONBLOCK) a->nonblock = b->nonblock = true;
  fd[0] = newFd(a); fd[1] = newFd(b);
  return 0;
}
int socketpair(int d, int t, int p, int fd[2]) { if (!cur) { REAL(socketpair); return rf(d, t, p, fd); } return pipe2(fd, 0); }
int eventfd(unsigned v, int flags) {
  if (!cur) { REAL(eventfd); return rf(v, flags); }
  Internal in;
  auto a = mkFile(cur->proc);
  a->kind = File::Event; a->count = v; a->nonblock = flags & EFD_NONBLOCK;
  return newFd(a);
}

static int pollIt(pollfd* p, nfds_t n, uint64_t deadline) {
  point("poll");
  if (fault("poll", false, false) == 2) return err(EINTR);
  std::vector<std::shared_ptr<File>>* held;
  { Internal in; held = new std::vector<std::shared_ptr<File>>; for (nfds_t i = 0; i < n; i++) held->push_back(p[i].fd < 0 ? nullptr : get(p[i].fd)); }
  auto scan = [&]() {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      File* f = (*held)[i].get();
      if (!f) { p[i].revents = POLLNVAL; c++; continue; }
      if ((p[i].events & (POLLIN | POLLRDNORM)) && readable(f)) p[i].revents |= POLLIN;
      if ((p[i].events & POLLOUT) && writable(f)) p[i].revents |= POLLOUT;
      if (f->reset || f->refused) p[i].revents |= POLLERR | POLLHUP;
      if (f->kind == File::Stream && f->fin && f->wrShut) p[i].revents |= POLLHUP;
      if ((p[i].events & POLLRDHUP) && f->kind == File::Stream && f->fin) p[i].revents |= POLLRDHUP;
      if (f->lshut) p[i].revents |= POLLHUP;
      if (p[i].revents) c++;
    }
    return c;
  };
  int c;
  { Internal in; c = scan(); }
  if (!c && deadline > S->now) { block("poll", [&] { return scan() > 0; }, deadline); Internal in; c = scan(); }
  { Internal in; for (nfds_t i = 0; i < n; i++) if ((*held)[i]) acquire((*held)[i]->clock); delete held; }
  return c;
}
int poll(pollfd* p, nfds_t n, int ms) {
  if (!cur) { REAL(poll); return rf(p, n, ms); }
  return pollIt(p, n, ms < 0 ? kForever : S->now + (uint64_t)ms * 1000000ull);
}
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* m) {
  if (!cur) { REAL(ppoll); return rf(p, n, t, m); }
  return pollIt(p, n, t ? S->now + (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec : kForever);
}
int select(int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
  if (!cur) { REAL(select); return rf(nfds, r, w, e, t); }
  pollfd p[64]; int n = 0;
  for (int i = 0; i < nfds && n < 64; i++) {
    short ev = 0;
    if (r && FD_ISSET(i, r)) ev |= POLLIN;
    if (w && FD_ISSET(i, w)) ev |= POLLOUT;
    if (e && FD_ISSET(i, e)) ev |= POLLPRI;
    if (ev) p[n++] = {i, ev, 0};
  }
  int c = pollIt(p, n, t ? S->now + (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_usec * 1000 : kForever);
  if (c < 0) return c;
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
  int cnt = 0;
  for (int i = 0; i < n; i++) {
    if (p[i].revents & POLLNVAL) return err(EBADF);
    if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); cnt++; }
    if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); cnt++; }
  }
  return cnt;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  auto f = cur ? get(fd) : nullptr;
  if (!f) { static auto rf = (int (*)(int, unsigned long, ...))sim::real("ioctl"); return rf(fd, req, a); }
  if (req == FIONREAD) *(int*)a = (int)f->rx.size();
  if (req == FIONBIO) f->nonblock = *(int*)a;
  return 0;
}

int close(int fd) {
  if (!rclose) rclose = (int (*)(int))sim::real("close");
  if (!cur) return rclose(fd);
  if (fd >= kBase || fd < 0) {
    point("close");
    Internal in;
    auto it = N->fds.find(fd);
    if (it == N->fds.end()) { problem("close of a descriptor that is not open (closed twice?): " + std::to_string(fd) + " in thread " + cur->name); return err(EBADF); }
    it->second->open = false;
    N->fds.erase(it);
    return 0;
  }
  if (ffd(fd)) { fsPoint("close"); Internal in; forget(fd); return rclose(fd); }
  problem("close of a descriptor that is not open (closed twice?): " + std::to_string(fd) + " in thread " + cur->name);
  return err(EBADF);
}
ssize_t read(int fd, void* b, size_t n) {
  static auto rf = (ssize_t(*)(int, void*, size_t))sim::real("read");
  if (!cur) return rf(fd, b, n);
  if (fd >= kBase) return netRecv(fd, b, n, 0);
  if (ffd(fd)) fsPoint("read");
  return rf(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  static auto rf = (ssize_t(*)(int, const void*, size_t))sim::real("write");
  if (!cur) return rf(fd, b, n);
  if (fd >= kBase) return netSend(fd, b, n, 0);
  if (!ffd(fd)) return rf(fd, b, n);
  fsPoint("write");
  size_t m = fsTorn("write (torn)", n);
  if (m != n) { rf(fd, b, m); S->reqKillProc = cur->proc; dieHere(); }
  return rf(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { REAL(pread); if (cur && ffd(fd)) fsPoint("pread"); return rf(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  REAL(pwrite);
  if (!cur || !ffd(fd)) return rf(fd, b, n, o);
  fsPoint("pwrite");
  size_t m = fsTorn("pwrite (torn)", n);
  if (m != n) { rf(fd, b, m, o); S->reqKillProc = cur->proc; dieHere(); }
  return rf(fd, b, n, o);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  static auto rf = (int (*)(int, int, ...))sim::real("fcntl");
  if (!cur) return rf(fd, cmd, a);
  if (auto f = get(fd)) {
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = ((long)a & O_NONBLOCK) != 0; return 0; }
    return 0;
  }
  FFd* x = ffd(fd);
  if (!x) return fd >= kBase ? err(EBADF) : rf(fd, cmd, a);
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    struct flock* l = (struct flock*)a;
    fsPoint("file lock");
    uint64_t ino = x->ino; int me = cur->proc;
    if (l->l_type == F_UNLCK) { Internal in; dropPLocks(ino, me); release(F->clocks[ino]); return 0; }
    int want = l->l_type == F_WRLCK ? 2 : 1;
    auto freeNow = [ino, me, want] { auto it = F->plocks.find(ino); if (it == F->plocks.end()) return true; for (auto& k : it->second) if (k.first != me && (want == 2 || k.second == 2)) return false; return true; };
    if (cmd == F_SETLKW && fsIntr("file lock (interrupted)")) return err(EINTR);
    if (!freeNow()) { if (cmd == F_SETLK) return err(EAGAIN); block("file lock", freeNow); }
    Internal in;
    F->plocks[ino][me] = want;
    acquire(F->clocks[ino]);
    return 0;
  }
  if (cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    struct flock* l = (struct flock*)a;
    int op = l->l_type == F_UNLCK ? LOCK_UN : l->l_type == F_WRLCK ? LOCK_EX : LOCK_SH;
    return flock(fd, op | (cmd == F_OFD_SETLK ? LOCK_NB : 0));
  }
  return rf(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return fcntl(fd, cmd, a); }
int flock(int fd, int op) {
  REAL(flock);
  if (!cur) return rf(fd, op);
  FFd* x = ffd(fd);
  if (!x) return err(EBADF);
  fsPoint("flock");
  uint64_t ino = x->ino;
  int want = (op & LOCK_EX) ? 2 : (op & LOCK_SH) ? 1 : 0;
  if (op & LOCK_UN) { Internal in; x->fl = 0; release(F->clocks[ino]); return 0; }
  auto freeNow = [ino, fd, want] { for (auto& k : F->fds) if (k.first != fd && k.second.ino == ino && k.second.fl && (want == 2 || k.second.fl == 2)) return false; return true; };
  if (!(op & LOCK_NB) && fsIntr("flock (interrupted)")) return err(EINTR);
  if (!freeNow()) { if (op & LOCK_NB) return err(EWOULDBLOCK); block("flock", freeNow); }
  Internal in;
  x = ffd(fd);
  if (!x) return err(EBADF);
  x->fl = want;
  acquire(F->clocks[ino]);
  return 0;
}
int lockf(int fd, int cmd, off_t) {
  struct flock l {};
  l.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return fcntl(fd, cmd == F_TLOCK ? F_SETLK : F_SETLKW, &l);
}
static int openIt(const char* p, int flags, mode_t m) {
  static auto rf = (int (*)(const char*, int, ...))sim::real("open");
  if (!cur) return rf(p, flags, m);
  fsPoint("open");
  checkRoot(p);
  return trackFd(rf(p, flags, m), p);
}
int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return openIt(p, flags, m); }
int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return openIt(p, flags, m); }
int creat(const char* p, mode_t m) { return openIt(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int mkstemp(char* t) { REAL(mkstemp); if (!cur) return rf(t); fsPoint("mkstemp"); checkRoot(t); return trackFd(rf(t), t); }
#define FS1(ret, name, A, a) ret name(const char* p, A a) { REAL(name); if (cur) { fsPoint(#name); checkRoot(p); } return rf(p, a); }
FS1(int, access, int, m) FS1(int, mkdir, mode_t, m) FS1(int, truncate, off_t, n)
int stat(const char* __restrict p, struct stat* __restrict s) noexcept { static auto rf = (int (*)(const char*, struct stat*))sim::real("stat"); if (cur) { fsPoint("stat"); checkRoot(p); } return rf(p, s); }
int lstat(const char* __restrict p, struct stat* __restrict s) noexcept { static auto rf = (int (*)(const char*, struct stat*))sim::real("lstat"); if (cur) { fsPoint("lstat"); checkRoot(p); } return rf(p, s); }
int unlink(const char* p) noexcept { REAL(unlink); if (cur) { fsPoint("unlink"); checkRoot(p); } return rf(p); }
int remove(const char* p) noexcept { REAL(remove); if (cur) { fsPoint("remove"); checkRoot(p); } return rf(p); }
int rmdir(const char* p) noexcept { REAL(rmdir); if (cur) { fsPoint("rmdir"); checkRoot(p); } return rf(p); }
int rename(const char* a, const char* b) noexcept { REAL(rename); if (cur) { fsPoint("rename"); checkRoot(a); checkRoot(b); } return rf(a, b); }
int link(const char* a, const char* b) noexcept { REAL(link); if (cur) { fsPoint("link"); checkRoot(a); checkRoot(b); } return rf(a, b); }
int ftruncate(int fd, off_t n) noexcept { REAL(ftruncate); if (cur && ffd(fd)) fsPoint("ftruncate"); return rf(fd, n); }
int fsync(int fd) { REAL(fsync); if (cur) { if (ffd(fd)) fsPoint("fsync"); return 0; } return rf(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (cur) { if (ffd(fd)) fsPoint("fdatasync"); return 0; } return rf(fd); }
DIR* opendir(const char* p) {
  REAL(opendir);
  if (!cur) return rf(p);
  fsPoint("opendir"); checkRoot(p);
  Internal in;
  DIR* d = rf(p);
  if (d) F->dirs[d] = 0;
  return d;
}
dirent* readdir(DIR* d) {
  REAL(readdir);
  if (!cur) return rf(d);
  bool first = false;
  { Internal in; auto it = F->dirs.find(d); if (it != F->dirs.end() && it->second == 0) { it->second = 1; first = true; } }
  if (first) fsPoint("readdir");
  Internal in;
  return rf(d);
}
int closedir(DIR* d) { REAL(closedir); if (cur) { Internal in; F->dirs.erase(d); return rf(d); } return rf(d); }

static FILE* fopenIt(const char* p, const char* m) {
  static auto rf = (FILE * (*)(const char*, const char*)) sim::real("fopen");
  if (!cur) return rf(p, m);
  fsPoint("fopen"); checkRoot(p);
  FILE* f;
  { Internal in; f = rf(p, m); }
  if (f) trackFd(fileno(f), p, f);
  return f;
}
FILE* fopen(const char* p, const char* m) { return fopenIt(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopenIt(p, m); }
FILE* fdopen(int fd, const char* m) noexcept { REAL(fdopen); Internal in; FILE* f = rf(fd, m); if (cur && f) if (FFd* x = ffd(fd)) x->fp = f; return f; }
static void flushPoint(FILE* f, const char* what) {
  size_t n = __fpending(f);
  if (!n) return;
  fsPoint(what);
  size_t m = fsTorn(what, n);
  if (m != n) {
    static auto rw = (ssize_t(*)(int, const void*, size_t))sim::real("write");
    rw(fileno(f), f->_IO_write_base, m);
    __fpurge(f);
    S->reqKillProc = cur->proc; dieHere();
  }
}
int fclose(FILE* f) {
  REAL(fclose);
  if (!cur || !ffd(fileno(f))) return rf(f);
  flushPoint(f, "fclose (writing)");
  { Internal in; static auto ff = (int (*)(FILE*))sim::real("fflush"); ff(f); }
  fsPoint("fclose");
  Internal in;
  forget(fileno(f));
  return rf(f);
}
int fflush(FILE* f) {
  REAL(fflush);
  if (!cur || !f || !ffd(fileno(f))) return rf(f);
  flushPoint(f, "fflush");
  Internal in;
  return rf(f);
}
size_t fread(void* b, size_t s, size_t n, FILE* f) { REAL(fread); if (cur && ffd(fileno(f))) fsPoint("fread"); Internal in; return rf(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  REAL(fwrite);
  if (!cur || !ffd(fileno(f))) return rf(b, s, n, f);
  fsPoint("fwrite");
  size_t half = s * n / 2;
  if (s == 1 && n >= 4096) {   // more than a buffer: reaches the file in several writes
    static auto ff = (int (*)(FILE*))sim::real("fflush");
    { Internal in; if (rf(b, 1, half, f) != half) return 0; ff(f); }
    fsPoint("fwrite (second part)");
    Internal in;
    return half + rf((const char*)b + half, 1, n - half, f);
  }
  Internal in;
  return rf(b, s, n, f);
}
char* fgets(char* b, int n, FILE* f) { REAL(fgets); if (cur && ffd(fileno(f))) fsPoint("fgets"); Internal in; return rf(b, n, f); }
}
