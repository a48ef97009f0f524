// Interposed threads, locks, condition variables, futexes, static-initialisation guards, sleeps and clocks.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
using namespace sim;

#define REAL(name) static auto rf = (decltype(&name))sim::real(#name)
#define PASS(name, ...) if (!cur) { REAL(name); return rf(__VA_ARGS__); }

namespace {
struct Mutex { int owner = -1; int count = 0; int readers = 0; VC vc; bool init = false; };
struct Cond { std::vector<int> waiters; VC vc; bool init = false; };
struct Tables {
  std::unordered_map<const void*, Mutex> m;
  std::unordered_map<const void*, Cond> cv;
  std::unordered_map<const void*, VC> exitClock;
};
Tables* T;
struct Waker { int fiber; bool woken; };
std::unordered_map<const void*, std::vector<std::shared_ptr<Waker>>>* CW;  // waiters per condition variable / futex
std::vector<VC>* exitVC;

Mutex& mu(const void* p) { Internal in; auto& m = T->m[p]; if (!m.init) { m.init = true; vcZero(m.vc); } return m; }
Cond& cd(const void* p) { Internal in; auto& m = T->cv[p]; if (!m.init) { m.init = true; vcZero(m.vc); } return m; }

void reset() {
  delete T; delete CW; delete exitVC;
  T = new Tables; CW = new std::unordered_map<const void*, std::vector<std::shared_ptr<Waker>>>;
  exitVC = new std::vector<VC>(kMaxFibers);
  for (auto& v : *exitVC) vcZero(v);
}
struct Reg { Reg() { onReset.push_back(reset); } } reg;

uint64_t absNs(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }

int lockIt(const void* p, int type, uint64_t deadline) {
  point("lock");
  Mutex& m = mu(p);
  if (m.owner == cur->id) {
    if (type == PTHREAD_MUTEX_RECURSIVE) { m.count++; return 0; }
    if (type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (m.owner != -1 || m.readers) {
    Mutex* pm = &m;
    if (!block("lock", [pm] { return pm->owner == -1 && pm->readers == 0; }, deadline)) return ETIMEDOUT;
  }
  m.owner = cur->id; m.count = 1;
  acquire(m.vc);
  return 0;
}
int unlockIt(const void* p) {
  Mutex& m = mu(p);
  if (m.readers > 0 && m.owner == -1) { m.readers--; Internal in; release(m.vc); return 0; }
  if (m.owner != cur->id) { problem("unlock of a mutex that is not locked by this thread: " + cur->name); return EPERM; }
  if (--m.count == 0) { release(m.vc); m.owner = -1; if (S->cfg.unlocks) point("unlock"); }
  return 0;
}
int typeOf(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  if (mu(m).owner != cur->id) problem("condition wait without holding the mutex");
  std::shared_ptr<Waker> w;
  { Internal in; w = std::make_shared<Waker>(Waker{cur->id, false}); (*CW)[c].push_back(w); }
  int save = mu(m).count;
  mu(m).count = 1;
  unlockIt(m);
  Waker* pw = w.get();
  bool spurious = S->cfg.spurious && ask(2, "condition wait (spurious wake-up)", true) == 1;
  bool ok = true;
  if (spurious) point("spurious wake-up");
  else ok = block("condition wait", [pw] { return pw->woken; }, deadline);
  if (!ok || spurious) {
    Internal in;
    auto& v = (*CW)[c];
    for (size_t i = 0; i < v.size(); i++) if (v[i] == w) { v.erase(v.begin() + i); break; }
  }
  Mutex* pm = &mu(m);
  if (pm->owner != -1 || pm->readers) block("relock", [pm] { return pm->owner == -1 && pm->readers == 0; });
  pm->owner = cur->id; pm->count = save;
  acquire(pm->vc);
  { Internal in; w.reset(); }
  return ok ? 0 : ETIMEDOUT;
}
void condWake(const void* c, bool all) {
  Internal in;
  auto it = CW->find(c);
  if (it == CW->end() || it->second.empty()) return;
  auto& v = it->second;
  if (all) { for (auto& w : v) w->woken = true; v.clear(); return; }
  size_t i = 0;
  v[i]->woken = true; v.erase(v.begin() + i);
}
}  // namespace

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  PASS(pthread_create, t, a, fn, arg);
  Fiber* f;
  {
    Internal in;
    f = S->spawn("t" + std::to_string(S->fibers.size()), cur->proc, nullptr, false);
    f->joinable = true;
    f->body = [f, fn, arg] {
      void* r;
      r = fn(arg);
      f->ret = r;
      (*exitVC)[f->id] = cur->vc;
    };
    if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); if (ds == PTHREAD_CREATE_DETACHED) { f->joinable = false; f->detached = true; } }
  }
  *t = (pthread_t)(0x51000000 + f->id);
  point("thread creation");
  return 0;
}
static Fiber* fiberOf(pthread_t t) {
  long id = (long)t - 0x51000000;
  if (id < 0 || id >= (long)S->fibers.size()) return nullptr;
  return S->fibers[id].get();
}
int pthread_join(pthread_t t, void** r) {
  PASS(pthread_join, t, r);
  Fiber* f = fiberOf(t);
  if (!f || !f->joinable) { problem("join of a thread that is not joinable"); return EINVAL; }
  if (f == cur) return EDEADLK;
  f->joinable = false;
  point("join");
  if (f->state != Fiber::Done) block("join", [f] { return f->state == Fiber::Done; });
  acquire((*exitVC)[f->id]);
  if (r) *r = f->ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  PASS(pthread_detach, t);
  Fiber* f = fiberOf(t);
  if (!f || !f->joinable) { problem("detach of a thread that is not joinable"); return EINVAL; }
  f->joinable = false; f->detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  if (!cur) { REAL(pthread_self); return rf(); }
  return (pthread_t)(0x51000000 + cur->id);
}
int pthread_mutex_lock(pthread_mutex_t* m) { PASS(pthread_mutex_lock, m); return lockIt(m, typeOf(m), kForever); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  PASS(pthread_mutex_trylock, m);
  point("trylock");
  Mutex& x = mu(m);
  if (x.owner == cur->id && typeOf(m) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
  if (x.owner != -1) return EBUSY;
  x.owner = cur->id; x.count = 1;
  acquire(x.vc);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { PASS(pthread_mutex_timedlock, m, t); return lockIt(m, typeOf(m), absNs(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { PASS(pthread_mutex_clocklock, m, c, t); return lockIt(m, typeOf(m), absNs(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { PASS(pthread_mutex_unlock, m); return unlockIt(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  PASS(pthread_mutex_destroy, m);
  if (mu(m).owner != -1) problem("destruction of a locked mutex");
  Internal in; T->m.erase(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { PASS(pthread_rwlock_wrlock, m); return lockIt(m, 0, kForever); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  PASS(pthread_rwlock_rdlock, m);
  point("read lock");
  Mutex* x = &mu(m);
  if (x->owner != -1) block("read lock", [x] { return x->owner == -1; });
  x->readers++;
  acquire(x->vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) { PASS(pthread_rwlock_unlock, m); return unlockIt(m); }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { PASS(pthread_rwlock_destroy, m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { PASS(pthread_cond_wait, c, m); return condWait(c, m, kForever); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { PASS(pthread_cond_timedwait, c, m, t); return condWait(c, m, absNs(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { PASS(pthread_cond_clockwait, c, m, k, t); return condWait(c, m, absNs(t)); }
int pthread_cond_signal(pthread_cond_t* c) { PASS(pthread_cond_signal, c); point("notify"); condWake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { PASS(pthread_cond_broadcast, c); point("notify all"); condWake(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  PASS(pthread_cond_destroy, c);
  auto it = CW->find(c);
  if (it != CW->end() && !it->second.empty()) {
    problem("destruction of a condition variable that threads wait on");
    Internal in; CW->erase(it);
  }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  PASS(pthread_once, o, fn);
  if (*o == 2) { acquire(mu(o).vc); return 0; }
  lockIt(o, 0, kForever);
  if (*o != 2) { fn(); *o = 2; }
  return unlockIt(o);
}
int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  if (!cur) return *b ? 0 : 1;
  if (*b) { acquire(mu(g).vc); return 0; }
  g_resolving++;
  lockIt(g, 0, kForever);
  if (*b) { unlockIt(g); g_resolving--; return 0; }
  return 1;
}
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; if (cur) { unlockIt(g); g_resolving--; } }
void __cxa_guard_abort(uint64_t* g) { if (cur) { unlockIt(g); g_resolving--; } }

int sched_yield(void) { PASS(sched_yield); yield(); return 0; }

static void sleepNs(uint64_t ns) {
  uint64_t d = S->now + ns;
  block("sleep", [d] { return S->now >= d; }, d);
}
int nanosleep(const timespec* a, timespec* b) { PASS(nanosleep, a, b); sleepNs(absNs(a)); return 0; }
int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec* b) {
  PASS(clock_nanosleep, c, flags, a, b);
  if (flags & TIMER_ABSTIME) { uint64_t d = absNs(a); if (d > S->now) sleepNs(d - S->now); }
  else sleepNs(absNs(a));
  return 0;
}
int usleep(useconds_t us) { PASS(usleep, us); sleepNs((uint64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { PASS(sleep, s); sleepNs((uint64_t)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, timespec* t) {
  if (!cur) { static auto rf = (int (*)(clockid_t, timespec*))sim::real("clock_gettime"); return rf(c, t); }
  S->now += 1000;
  t->tv_sec = S->now / 1000000000ull; t->tv_nsec = S->now % 1000000000ull;
  return 0;
}
int gettimeofday(timeval* t, void* z) {
  if (!cur) { static auto rf = (int (*)(timeval*, void*))sim::real("gettimeofday"); return rf(t, z); }
  S->now += 1000;
  t->tv_sec = S->now / 1000000000ull; t->tv_usec = S->now % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* t) {
  if (!cur) { static auto rf = (time_t(*)(time_t*))sim::real("time"); return rf(t); }
  time_t v = S->now / 1000000000ull;
  if (t) *t = v;
  return v;
}
// futexes reached through syscall(): std::future, atomic wait, static guards of other runtimes
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!cur || n != SYS_futex) {
    static auto rf = (long (*)(long, ...))sim::real("syscall");
    return rf(n, a, b, c, d, e, f);
  }
  int op = (int)b & FUTEX_CMD_MASK;
  const void* addr = (const void*)a;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    point("futex wait");
    if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
    uint64_t dl = kForever;
    if (d) dl = op == FUTEX_WAIT ? S->now + absNs((timespec*)d) : absNs((timespec*)d);
    std::shared_ptr<Waker> w;
    { Internal in; w = std::make_shared<Waker>(Waker{cur->id, false}); (*CW)[addr].push_back(w); }
    Waker* pw = w.get();
    bool ok = block("futex wait", [pw] { return pw->woken; }, dl);
    Internal in;
    if (!ok) { auto& v = (*CW)[addr]; for (size_t i = 0; i < v.size(); i++) if (v[i] == w) { v.erase(v.begin() + i); break; } }
    w.reset();
    if (!ok) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    point("futex wake");
    condWake(addr, c > 1);
    return 0;
  }
  errno = ENOSYS;
  return -1;
}
}
