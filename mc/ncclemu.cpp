#include "ncclemu.h"
#include "cuemu.h"
#include <cuda_bf16.h>
#include <cuda_fp16.h>
#include <errno.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <dlfcn.h>
#include <exception>

enum Kind { Reduce, Broadcast, AllReduce, ReduceScatter, AllGather, Send, Recv };
static const char* kNames[] = {"Reduce", "Broadcast", "AllReduce", "ReduceScatter", "AllGather", "Send", "Recv"};
struct Op { Kind k; const void* s; void* r; size_t n; ncclDataType_t t; ncclRedOp_t o; int root; ncclComm* c; cudaStream_t st; };
struct Group;
struct ncclComm { std::shared_ptr<Group> g; int rank, dev; uint64_t next = 0; std::map<std::pair<int, int>, uint64_t> nextP2p; bool dead = false, aborted = false, blocking = true; int pending = 0; ncclResult_t err = ncclSuccess; };
struct Posted { Op op; uint64_t pos; };
struct Coll { std::map<int, Posted> by; bool done = false; };
struct Group { int n; std::vector<ncclComm*> joined; std::map<uint64_t, std::shared_ptr<Coll>> colls; std::map<std::pair<std::pair<int, int>, uint64_t>, std::shared_ptr<Coll>> p2p; };

namespace ncclemu {
Mode mode;
static std::map<uint64_t, std::shared_ptr<Group>> g_groups;
static std::vector<ncclComm*> g_comms;
static uint64_t g_ids;
static int g_calls, g_ended;
static const int kMax = 4;
struct Fiber { ucontext_t ctx; char* stack = nullptr; std::function<void()> f; bool done = false, polling = false, asleep = false; int64_t wake = 0; int dev = 0; int depth = 0; std::vector<Op> ops; std::exception_ptr ex; };
static Fiber g_f[kMax];
static int g_who = -1, g_n;
static ucontext_t g_main;
static Fiber g_host;               // calls outside any replica
static Fiber& me() { return g_who < 0 ? g_host : g_f[g_who]; }
static int64_t g_ns;
static uint64_t g_switches;
static bool g_virtual = false;
static int64_t g_progress;         // something happened
int who() { return g_who; }
int calls() { return g_calls; }
uint64_t switches() { return g_switches; }
int openComms() { int n = 0; for (auto* c : g_comms) n += !c->dead; return n; }
void reset() {
  for (auto* c : g_comms) delete c;
  g_comms.clear(); g_groups.clear(); g_calls = 0; g_ended = 0; g_ids = 0; g_host.depth = 0; g_host.ops.clear();
  g_ns = 0; g_switches = 0;
}
// a replica that polls goes on when something happened or a while later, one that sleeps when its time has come
static void toMain(bool polling, int64_t sleep = 0) {
  if (g_who < 0) return;
  Fiber& f = g_f[g_who];
  f.polling = polling;
  f.asleep = sleep > 0;
  f.wake = g_ns + (sleep > 0 ? sleep : 1000000);
  cudaGetDevice(&f.dev);
  swapcontext(&f.ctx, &g_main);
}
void yield() { toMain(false); }
long now() { return (long)(g_ns / 1000000); }
void pass(long ms) { g_progress++; toMain(true, ms * 1000000); }
static void blockedHook() { if (g_who < 0) { cuemu::report("queued work waits for a replica that does not come"); fprintf(stderr, "queued work waits for ever\n"); abort(); } toMain(true); }
static void entry(int i) {
  Fiber& f = g_f[i];
  try { f.f(); }
  catch (...) { f.ex = std::current_exception(); }
  f.done = true;
  g_progress++;
  cudaGetDevice(&f.dev);
  swapcontext(&f.ctx, &g_main);
}
static const size_t kStackSize = 1 << 20;
static void wakeAll(int but) { for (int i = 0; i < g_n; i++) if (i != but && !g_f[i].asleep) g_f[i].polling = false; }
bool run(const std::vector<std::function<void()>>& reps, const std::function<int(int)>& choose, int deviations) {
  bool stuck = false;
  g_n = (int)reps.size();
  int dev0; cudaGetDevice(&dev0);
  for (int i = 0; i < g_n; i++) {
    Fiber& f = g_f[i];
    char* st = f.stack ? f.stack : (char*)mmap(nullptr, kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    f = Fiber{};
    f.stack = st; f.f = reps[i]; f.dev = 0;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = st; f.ctx.uc_stack.ss_size = kStackSize; f.ctx.uc_link = &g_main;
    makecontext(&f.ctx, (void (*)())entry, 1, i);
  }
  cuemu::blocked = blockedHook;
  g_virtual = true;
  int last = 0, idle = 0; uint64_t steps = 0;
  int64_t seen = -1;
  for (;;) {
    // ways to go on, the usual one first: the replica that ran, then the next ones, then device work; when all
    // wait and no work can run, time goes on to the next moment one of them waits for
    std::vector<int> ways;
    bool any = false;
    for (int k = 0; k < g_n; k++) { int i = (last + k) % g_n; if (g_f[i].done) continue; any = true; if (!g_f[i].polling || g_f[i].wake <= g_ns) ways.push_back(i); }
    if (!any) break;
    for (int s : cuemu::waiting()) ways.push_back(100 + s);
    bool idling = ways.empty();
    if (idling) {
      int64_t t = INT64_MAX;
      for (int i = 0; i < g_n; i++) if (!g_f[i].done) t = std::min(t, g_f[i].wake);
      g_ns = t;
      for (int k = 1; k <= g_n; k++) { int i = (last + k) % g_n; if (!g_f[i].done && g_f[i].wake <= g_ns) ways.push_back(i); }
    }
    int q = 0;
    if (deviations > 0 && ways.size() > 1 && !idling) { q = choose((int)ways.size()); if (q) deviations--; }
    int way = ways[(size_t)q];
    g_switches++;
    if (++steps > 200000) { stuck = true; break; }
    if (way >= 100) { cuemu::step(way - 100); g_progress++; wakeAll(-1); idle = 0; continue; }
    if (idling) { if (seen == g_progress && ++idle > 4000) { stuck = true; break; } if (seen != g_progress) idle = 0; seen = g_progress; }
    last = way;
    Fiber& f = g_f[way];
    int64_t before = g_progress;
    g_who = way;
    cudaSetDevice(f.dev);
    swapcontext(&g_main, &f.ctx);
    cudaGetDevice(&f.dev);
    g_who = -1;
    if (f.done || before != g_progress) wakeAll(way);
    if (f.ex) break;
  }
  cudaSetDevice(dev0);
  g_virtual = false;
  cuemu::blocked = nullptr;
  for (int i = 0; i < g_n; i++) if (g_f[i].ex) std::rethrow_exception(g_f[i].ex);
  return !stuck;
}
}  // namespace ncclemu
using namespace ncclemu;
using cuemu::report;

static bool fails(ncclResult_t& r) { g_calls++; if (mode.failAt && g_calls == mode.failAt) { r = mode.failWith; return true; } return false; }
static bool good(ncclComm_t c, const char* what) { if (!c || std::find(g_comms.begin(), g_comms.end(), c) == g_comms.end() || c->dead) { report(std::string(what) + " on a communicator that is gone"); return false; } return true; }
static bool ready(ncclComm* c) { return (int)c->g->joined.size() == c->g->n; }
static size_t sizeOf(ncclDataType_t t) { switch (t) { case ncclInt8: case ncclUint8: return 1; case ncclFloat16: case ncclBfloat16: return 2; case ncclInt32: case ncclUint32: case ncclFloat32: return 4; default: return 8; } }
static double load(const void* p, ncclDataType_t t, size_t i) {
  switch (t) {
    case ncclInt8: return ((const int8_t*)p)[i]; case ncclUint8: return ((const uint8_t*)p)[i]; case ncclInt32: return ((const int32_t*)p)[i]; case ncclUint32: return ((const uint32_t*)p)[i];
    case ncclInt64: return (double)((const int64_t*)p)[i]; case ncclUint64: return (double)((const uint64_t*)p)[i]; case ncclFloat32: return ((const float*)p)[i]; case ncclFloat64: return ((const double*)p)[i];
    case ncclFloat16: return (float)((const __half*)p)[i]; case ncclBfloat16: return (float)((const __nv_bfloat16*)p)[i]; default: return 0;
  }
}
static void store(void* p, ncclDataType_t t, size_t i, double v) {
  switch (t) {
    case ncclInt8: ((int8_t*)p)[i] = (int8_t)v; break; case ncclUint8: ((uint8_t*)p)[i] = (uint8_t)v; break; case ncclInt32: ((int32_t*)p)[i] = (int32_t)v; break; case ncclUint32: ((uint32_t*)p)[i] = (uint32_t)v; break;
    case ncclInt64: ((int64_t*)p)[i] = (int64_t)v; break; case ncclUint64: ((uint64_t*)p)[i] = (uint64_t)v; break; case ncclFloat32: ((float*)p)[i] = (float)v; break; case ncclFloat64: ((double*)p)[i] = v; break;
    case ncclFloat16: ((__half*)p)[i] = __half((float)v); break; case ncclBfloat16: ((__nv_bfloat16*)p)[i] = __nv_bfloat16((float)v); break; default: break;
  }
}
static bool live(const void* p, size_t n, const char* what) { if (cuemu::liveDevice(p, n)) return true; report(std::string("a collective ") + what + " memory that is not allocated"); return false; }
// moves the data of a complete collective
static void move(Coll& c) {
  std::vector<Op> v;
  for (auto& b : c.by) v.push_back(b.second.op);
  const Op& a = v[0];
  size_t e = sizeOf(a.t), n = a.n;
  if (a.k == Send || a.k == Recv) {
    const Op& s = v[0].k == Send ? v[0] : v[1]; const Op& r = v[0].k == Send ? v[1] : v[0];
    if (s.n != r.n || s.t != r.t) { report("sent and received sizes or types differ"); return; }
    if (live(s.s, s.n * e, "reads") && live(r.r, s.n * e, "writes")) memmove(r.r, s.s, s.n * e);
    return;
  }
  for (auto& o : v) if (o.k != a.k || o.n != a.n || o.t != a.t || ((a.k == Reduce || a.k == AllReduce || a.k == ReduceScatter) && o.o != a.o) || ((a.k == Reduce || a.k == Broadcast) && o.root != a.root)) { report(std::string("replicas do different collectives: ") + kNames[a.k] + " and " + kNames[o.k]); return; }
  size_t R = v.size(), in = a.k == ReduceScatter ? n * R : n, out = a.k == AllGather ? n * R : n;
  for (size_t i = 0; i < R; i++) {
    if (!(a.k == Broadcast && (int)i != a.root) && !live(v[i].s, in * e, "reads")) return;
    if (!(a.k == Reduce && (int)i != a.root) && !live(v[i].r, out * e, "writes")) return;
  }
  std::vector<std::vector<char>> src(R);
  for (size_t i = 0; i < R; i++) if (!(a.k == Broadcast && (int)i != a.root)) src[i].assign((const char*)v[i].s, (const char*)v[i].s + in * e);
  auto red = [&](size_t j) {
    double r = load(src[0].data(), a.t, j);
    for (size_t i = 1; i < R; i++) { double x = load(src[i].data(), a.t, j); r = a.o == ncclProd ? r * x : a.o == ncclMax ? std::max(r, x) : a.o == ncclMin ? std::min(r, x) : r + x; }
    return a.o == ncclAvg ? r / (double)R : r;
  };
  for (size_t i = 0; i < R; i++) {
    char* o = (char*)v[i].r;
    if (a.k == Broadcast) memcpy(o, src[(size_t)a.root].data(), n * e);
    else if (a.k == AllGather) for (size_t j = 0; j < R; j++) memcpy(o + j * n * e, src[j].data(), n * e);
    else if (a.k == ReduceScatter) for (size_t j = 0; j < n; j++) store(o, a.t, j, red(i * n + j));
    else if (a.k == AllReduce || (int)i == a.root) for (size_t j = 0; j < n; j++) store(o, a.t, j, red(j));
  }
}
static void post(const Op& o) {
  ncclComm* c = o.c;
  std::shared_ptr<Coll> l;
  size_t need = (size_t)c->g->n;
  int me_ = c->rank;
  if (o.k == Send || o.k == Recv) {
    std::pair<int, int> ft = o.k == Send ? std::make_pair(c->rank, o.root) : std::make_pair(o.root, c->rank);
    uint64_t no = c->nextP2p[o.k == Send ? std::make_pair(0, o.root) : std::make_pair(1, o.root)]++;
    auto& e = c->g->p2p[{ft, no}];
    if (!e) e = std::make_shared<Coll>();
    l = e; need = 2; me_ = o.k == Send ? 0 : 1;
  } else {
    auto& e = c->g->colls[c->next++];
    if (!e) e = std::make_shared<Coll>();
    l = e;
  }
  l->by[me_] = Posted{o, cuemu::position(o.st)};
  std::shared_ptr<Group> g = c->g;
  g_progress++;
  auto there = [=] {
    if (l->done || c->aborted) return true;
    if (l->by.size() != need) return false;
    for (auto& b : l->by) if (!cuemu::reached(b.second.op.st, b.second.pos) || b.second.op.c->aborted) return false;
    return true;
  };
  cuemu::enqueueWhen(o.st, there, [=] { if (!l->done) for (auto& b : l->by) if (b.first != me_) cuemu::helpTo(b.second.op.st, b.second.pos); },
                     [=] { if (!l->done && !c->aborted) { cuemu::withDevice([&] { move(*l); }); l->done = true; } });
}
static ncclResult_t op(Op o) {
  ncclResult_t r;
  if (!good(o.c, kNames[o.k])) return ncclInvalidArgument;
  if (fails(r)) return r;
  if (o.c->err != ncclSuccess) return o.c->err;
  if (!ready(o.c)) { report("a collective before the communicator is ready"); return ncclInvalidUsage; }
  if (o.root < 0 || o.root >= o.c->g->n || ((o.k == Send || o.k == Recv) && o.root == o.c->rank)) return ncclInvalidArgument;
  if (!o.st) report("a collective on the default stream");
  if (me().depth) { me().ops.push_back(o); return ncclSuccess; }
  post(o);
  return ncclSuccess;
}
ncclResult_t ncclGetVersion(int* v) { *v = NCCL_VERSION_CODE; return ncclSuccess; }
ncclResult_t ncclGetUniqueId(ncclUniqueId* id) { ncclResult_t r; if (fails(r)) return r; memset(id, 0x5a, sizeof *id); uint64_t n = ++g_ids; memcpy(id, &n, 8); g_groups[n] = std::make_shared<Group>(); g_groups[n]->n = 0; return ncclSuccess; }
ncclResult_t ncclCommInitRankConfig(ncclComm_t* c, int n, ncclUniqueId id, int rank, ncclConfig_t* cfg) {
  uint64_t k; memcpy(&k, &id, 8);
  auto it = g_groups.find(k);
  ncclUniqueId want; memset(&want, 0x5a, sizeof want); memcpy(&want, &k, 8);
  if (it == g_groups.end() || memcmp(&want, &id, sizeof id)) { report("a communicator with an identifier nobody made"); return ncclInvalidArgument; }
  auto g = it->second;
  if (g->n && g->n != n) { report("replicas disagree on their number"); return ncclInvalidArgument; }
  g->n = n;
  if (rank < 0 || rank >= n) return ncclInvalidArgument;
  for (auto* o : g->joined) if (o->rank == rank) { report("two communicators of one identifier with the same rank"); return ncclInvalidUsage; }
  int dev; cudaGetDevice(&dev);
  for (auto* o : g->joined) if (o->dev == dev) { report("two ranks of a communicator on one device"); return ncclInvalidUsage; }
  *c = new ncclComm{g, rank, dev};
  (*c)->blocking = !cfg || cfg->blocking;
  g->joined.push_back(*c);
  g_comms.push_back(*c);
  g_progress++;
  if ((*c)->blocking) while (!ready(*c)) blockedHook();
  return ready(*c) ? ncclSuccess : ncclInProgress;
}
ncclResult_t ncclCommInitRank(ncclComm_t* c, int n, ncclUniqueId id, int rank) { return ncclCommInitRankConfig(c, n, id, rank, nullptr); }
ncclResult_t ncclCommFinalize(ncclComm_t c) { return good(c, "Finalize") ? ncclSuccess : ncclInvalidArgument; }
ncclResult_t ncclCommDestroy(ncclComm_t c) {
  if (!good(c, "Destroy")) return ncclInvalidArgument;
  while (!ready(c)) blockedHook();
  // outstanding collectives are flushed
  for (auto& l : c->g->colls) for (auto& b : l.second->by) if (b.second.op.c == c) while (!l.second->done && !cuemu::helpTo(b.second.op.st, b.second.pos + 1)) blockedHook();
  for (auto& l : c->g->p2p) for (auto& b : l.second->by) if (b.second.op.c == c) while (!l.second->done && !cuemu::helpTo(b.second.op.st, b.second.pos + 1)) blockedHook();
  c->dead = true; g_progress++;
  return ncclSuccess;
}
ncclResult_t ncclCommAbort(ncclComm_t c) { if (!good(c, "Abort")) return ncclInvalidArgument; c->dead = c->aborted = true; g_progress++; return ncclSuccess; }
ncclResult_t ncclCommGetAsyncError(ncclComm_t c, ncclResult_t* r) {
  if (!good(c, "GetAsyncError")) { *r = ncclInvalidArgument; return ncclInvalidArgument; }
  if (!ready(c)) { *r = ncclInProgress; toMain(true); if (!c->dead && !ready(c)) return ncclSuccess; }
  if (c->dead) { *r = ncclInvalidUsage; return ncclSuccess; }
  *r = c->err;
  if (c->pending > 0) { c->pending--; *r = ncclInProgress; toMain(false); }
  return ncclSuccess;
}
ncclResult_t ncclCommCount(const ncclComm_t c, int* n) { *n = c->g->n; return ncclSuccess; }
ncclResult_t ncclCommCuDevice(const ncclComm_t c, int* n) { *n = c->dev; return ncclSuccess; }
ncclResult_t ncclCommUserRank(const ncclComm_t c, int* n) { *n = c->rank; return ncclSuccess; }
const char* ncclGetErrorString(ncclResult_t r) { static const char* n[] = {"no error", "unhandled cuda error", "unhandled system error", "internal error", "invalid argument", "invalid usage", "remote process exited or there was a network error", "NCCL operation in progress"}; return r >= 0 && r < 8 ? n[r] : "unknown result code"; }
const char* ncclGetLastError(ncclComm_t) { return ""; }
ncclResult_t ncclGroupStart() { ncclResult_t r; if (fails(r)) return r; me().depth++; return ncclSuccess; }
ncclResult_t ncclGroupEnd() {
  if (me().depth <= 0) { report("the end of a group that has no start"); return ncclInvalidUsage; }
  if (--me().depth) return ncclSuccess;
  std::vector<Op> v = std::move(me().ops);
  me().ops.clear();
  ncclResult_t r;
  if (fails(r)) return r;
  bool slow = false;
  if (!v.empty() && ++g_ended == mode.asyncAt) { for (auto& o : v) o.c->err = mode.failWith; return ncclInProgress; }
  for (auto& o : v) { if (!o.c->blocking && mode.slow) { o.c->pending = mode.slow; slow = true; } post(o); }
  return slow ? ncclInProgress : ncclSuccess;
}
ncclResult_t ncclReduce(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t o, int root, ncclComm_t c, cudaStream_t st) { return op({Reduce, s, r, n, t, o, root, c, st}); }
ncclResult_t ncclBroadcast(const void* s, void* r, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t st) { return op({Broadcast, s, r, n, t, ncclSum, root, c, st}); }
ncclResult_t ncclBcast(void* b, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t st) { return op({Broadcast, b, b, n, t, ncclSum, root, c, st}); }
ncclResult_t ncclAllReduce(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t o, ncclComm_t c, cudaStream_t st) { return op({AllReduce, s, r, n, t, o, 0, c, st}); }
ncclResult_t ncclReduceScatter(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t o, ncclComm_t c, cudaStream_t st) { return op({ReduceScatter, s, r, n, t, o, 0, c, st}); }
ncclResult_t ncclAllGather(const void* s, void* r, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t st) { return op({AllGather, s, r, n, t, ncclSum, 0, c, st}); }
ncclResult_t ncclSend(const void* s, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t st) { return op({Send, s, nullptr, n, t, ncclSum, peer, c, st}); }
ncclResult_t ncclRecv(void* r, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t st) { return op({Recv, nullptr, r, n, t, ncclSum, peer, c, st}); }

// ---- waiting of the host
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!g_virtual) return (int)syscall(SYS_clock_gettime, id, t);
  t->tv_sec = 1000000 + g_ns / 1000000000; t->tv_nsec = g_ns % 1000000000;
  return 0;
}
static int sleepFor(const struct timespec* t) { toMain(true, t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { if (!g_virtual || g_who < 0) return (int)syscall(SYS_nanosleep, t, nullptr); return sleepFor(t); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec* t, struct timespec*) { if (!g_virtual || g_who < 0) { return syscall(SYS_clock_nanosleep, id, fl, t, nullptr) ? errno : 0; } if (fl & TIMER_ABSTIME) { toMain(true, std::max<int64_t>(1, t->tv_sec * 1000000000ll + t->tv_nsec - 1000000ll * 1000000000 - g_ns)); return 0; } return sleepFor(t); }
int sched_yield() noexcept { if (!g_virtual || g_who < 0) return (int)syscall(SYS_sched_yield); toMain(true); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (!g_virtual || g_who < 0) return real(m);
  for (int k = 0; pthread_mutex_trylock(m); k++) { if (k > 3000) { fprintf(stderr, "a replica waits for ever for a lock it holds itself\n"); abort(); } toMain(true); }
  return 0;
}
}
