// The emulated GPU (see cuemu.h): device memory, streams, the scheduler of GPU threads, access checks, cuBLAS, cuRAND.
#define __CUDACC__ 1
#include "cuemu.h"
#include "../cuda/cublas_v2.h"
#include "../cuda/cuda_fp16.h"
#include "../cuda/cuda_bf16.h"
#include "../cuda/curand_kernel.h"
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <sys/mman.h>
#undef min
#undef max

uint3 threadIdx, blockIdx;
dim3 blockDim, gridDim;
extern char __start_cushared[] __attribute__((weak)), __stop_cushared[] __attribute__((weak));

struct Item { std::function<void()> run; std::function<bool()> ready; std::function<void()> help; };   // ready: nothing it waits for is missing; help: runs what it waits for
struct CUstream_st { int dev; std::deque<Item> q; uint64_t queued = 0, done = 0; bool dead = false; bool running = false; };
struct CUevent_st { CUstream_st* st = nullptr; uint64_t at = 0; int dev = 0; };
struct cublasContext { cudaStream_t st = nullptr; int dev; };

namespace cuemu {
Mode mode;
static std::string g_problem;
static uint64_t g_threads, g_launches;
static cudaError_t g_err = cudaSuccess;
static int g_cur = 0;
static const int kDevices = 3;
static bool g_dev = false;      // device code is running
static int g_runDev = 0;        // on this device

// ---- device memory
static const size_t kArena = 48u << 20;
static char* g_base;
struct Block { size_t size; int dev; };
static std::map<uintptr_t, Block>* g_blocks;
static std::map<uintptr_t, size_t>* g_pinned;
static uint8_t* g_live;         // per byte: device + 1, 0 when not allocated
struct Cell { uint64_t w, r1, r2, r3; };
static Cell* g_cells;           // per byte of the arena, then of the shared section
static size_t g_shared = 0;
static char *g_modLo, *g_modHi;
static char* g_stacks; static const size_t kStack = 96 << 10, kMaxFibers = 1100;
static Launch* g_launch = nullptr;
static std::vector<std::pair<char*, size_t>> g_scratch;

static int phdr(dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name[0]) {
    uintptr_t lo = ~0ull, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD) { lo = std::min(lo, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr)); hi = std::max(hi, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz)); }
    g_modLo = (char*)lo; g_modHi = (char*)hi;
  }
  return 0;
}
static void init() {
  if (g_base) return;
  auto map = [](size_t n, int prot) { void* p = mmap(nullptr, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (char*)p; };
  g_base = map(kArena, PROT_NONE);
  g_live = (uint8_t*)map(kArena, PROT_READ | PROT_WRITE);
  g_shared = __stop_cushared - __start_cushared;
  g_cells = (Cell*)map((kArena + g_shared) * sizeof(Cell), PROT_READ | PROT_WRITE);
  g_stacks = map(kStack * kMaxFibers, PROT_READ | PROT_WRITE);
  g_blocks = new std::map<uintptr_t, Block>;
  g_pinned = new std::map<uintptr_t, size_t>;
  dl_iterate_phdr(phdr, nullptr);
}
static void open(bool on) { mprotect(g_base, kArena, on ? PROT_READ | PROT_WRITE : PROT_NONE); }
struct Open {   // the emulator itself may look at device memory
  bool dev = g_dev;
  Open() { init(); g_dev = false; open(true); }
  ~Open() { g_dev = dev; if (!dev) open(false); }
};

void report(const std::string& w) { if (g_problem.empty()) g_problem = w; }
const std::string& problem() { return g_problem; }
uint64_t threadsRun() { return g_threads; }
uint64_t launches() { return g_launches; }
size_t liveBytes() { size_t n = 0; if (g_blocks) for (auto& b : *g_blocks) n += b.second.size; return n; }
bool onDevice() { return g_dev; }

static std::string where(void* pc) {
  Dl_info i;
  char b[400];
  if (dladdr(pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+%ld", i.dli_sname, (long)((char*)pc - (char*)i.dli_saddr));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}

// ---- who runs: launch 16 bits, block 20, thread 10, block epoch 10, warp epoch 8
static uint64_t g_id; static uint32_t g_launchNo, g_blockNo, g_threadNo, g_epoch, g_warpEpoch;
static bool g_atomic = false;
static inline void setId() { g_id = (uint64_t)(g_launchNo & 0x7fff) << 49 | 1ull << 48 | (uint64_t)(g_blockNo & 0xfffff) << 28 | (uint64_t)(g_threadNo & 0x3ff) << 18 | (uint64_t)(g_epoch & 0x3ff) << 8 | (g_warpEpoch & 0xff); }
static inline bool conflict(uint64_t o, bool shared) {
  if (!o || ((o ^ g_id) >> 49)) return false;                       // another launch: ordered by the stream
  if (((o ^ g_id) >> 28) & 0xfffff) return !shared;                 // another block
  uint32_t t = (o >> 18) & 0x3ff;
  if (t == (g_threadNo & 0x3ff)) return false;
  if (((o >> 8) & 0x3ff) != (g_epoch & 0x3ff)) return false;        // a block barrier in between
  if (t / 32 == g_threadNo / 32 && (o & 0xff) != (g_warpEpoch & 0xff)) return false;   // a warp barrier
  return true;
}
static const uint64_t kAtomic = 1ull << 48;   // cleared for atomic accesses
static std::string person(uint64_t o) { char b[80]; snprintf(b, sizeof b, "block %u thread %u", (unsigned)(o >> 28 & 0xfffff), (unsigned)(o >> 18 & 0x3ff)); return b; }
static void race(const char* what, uint64_t o, void* pc, bool shared) {
  report(std::string("race: ") + what + " of " + (shared ? "shared" : "device") + " memory by " + person(g_id) + " at " + where(pc) + " unordered with " + person(o));
}
static inline void touch(Cell* c, size_t n, bool w, void* pc, bool shared) {
  uint64_t me = g_atomic ? g_id & ~kAtomic : g_id;
  auto bad = [&](uint64_t o) { return conflict(o, shared) && !(g_atomic && !(o & kAtomic)); };
  for (size_t i = 0; i < n; i++, c++) {
    if (bad(c->w)) { race(w ? "write" : "read", c->w, pc, shared); return; }
    if (w) {
      if (bad(c->r1)) { race("write", c->r1, pc, shared); return; }
      if (bad(c->r2)) { race("write", c->r2, pc, shared); return; }
      if (bad(c->r3)) { race("write", c->r3, pc, shared); return; }
      c->w = me;
    } else if (c->r1 != me) {
      uint64_t d = c->r1 ^ me;
      if (d >> 28) c->r3 = c->r1;
      if (d >> 18) c->r2 = c->r1;
      c->r1 = me;
    }
  }
}
static char *g_dirtyLo, *g_dirtyHi;
static inline void access(uintptr_t a, size_t n, bool w, void* pc) {
  if (!g_dev) return;
  if (a - (uintptr_t)g_stacks < kStack * kMaxFibers) return;
  if (a - (uintptr_t)g_base < kArena) {
    size_t o = a - (uintptr_t)g_base;
    if (!g_live[o] || !g_live[o + n - 1]) {
      g_dev = false;
      auto it = g_blocks->upper_bound(a);
      char b[200] = "";
      if (it != g_blocks->begin()) { --it; snprintf(b, sizeof b, " (%ld bytes after the start of a block of %zu)", (long)(a - it->first), it->second.size); }
      report(std::string(w ? "write" : "read") + " outside any live device block by " + person(g_id) + " at " + where(pc) + b);
      g_dev = true;
      return;
    }
    if (g_live[o] != g_runDev + 1) { g_dev = false; report("access to the memory of another device at " + where(pc)); g_dev = true; return; }
    touch(g_cells + o, n, w, pc, false);
    return;
  }
  if (a - (uintptr_t)__start_cushared < g_shared) {
    if (w) { g_dirtyLo = std::min(g_dirtyLo, (char*)a); g_dirtyHi = std::max(g_dirtyHi, (char*)a + n); }
    touch(g_cells + kArena + (a - (uintptr_t)__start_cushared), n, w, pc, true);
    return;
  }
  if (g_launch && a - (uintptr_t)g_launch < g_launch->bytes) return;
  if (a - (uintptr_t)g_modLo < (uintptr_t)(g_modHi - g_modLo)) {
    if (w && g_launch) { g_dev = false; report("device code writes a host variable at " + where(pc)); g_dev = true; }
    return;
  }
  for (auto& s : g_scratch) if (a - (uintptr_t)s.first < s.second) return;
  g_dev = false;
  auto it = g_pinned->upper_bound(a);
  bool ok = it != g_pinned->begin() && (--it, a - it->first < it->second);
  if (!ok) report(std::string("device code ") + (w ? "writes" : "reads") + " host memory at " + where(pc));
  g_dev = true;
}
static inline void aligned(uintptr_t a, size_t n, void* pc) {
  if (!g_dev || !(a & (n - 1)) || a - (uintptr_t)g_base >= kArena) return;
  g_dev = false;
  report("misaligned access of " + std::to_string(n) + " bytes at " + where(pc));
  g_dev = true;
}
void read(const void* p, size_t n) { if (n) access((uintptr_t)p, n, false, __builtin_return_address(0)); }
void write(void* p, size_t n) { if (n) access((uintptr_t)p, n, true, __builtin_return_address(0)); }
Atomic::Atomic(void* p, size_t n) { g_atomic = true; }
Atomic::~Atomic() { g_atomic = false; }
void hostRead(void* d, const void* s, size_t n) { cudaMemcpy(d, s, n, cudaMemcpyDeviceToHost); }
void hostWrite(void* d, const void* s, size_t n) { cudaMemcpy(d, s, n, cudaMemcpyHostToDevice); }

// ---- threads of a block
enum State { Idle, Running, AtBarrier, AtWarp, Ready };
struct Fiber {
  void* sp; State st; uint32_t tid; uint32_t epoch, warpEpoch;
  unsigned mask; int src; bool valid, sync; char val[16], res[16]; size_t n;
};
static std::vector<Fiber> g_f;     // [0..started)
static void* g_schedSp;
static int g_curF = -1;
static uint32_t g_next, g_total, g_doneThreads, g_warpEpochs[32], g_blockEpoch;
static std::vector<int> g_owner;   // thread -> fiber
static Launch* g_body;
asm(R"(
.text
.type cuemu_switch,@function
cuemu_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
)");
extern "C" void cuemu_switch(void** save, void* to);
static void place(uint32_t t) {
  g_threadNo = t;
  threadIdx = {t % blockDim.x, t / blockDim.x % blockDim.y, t / (blockDim.x * blockDim.y)};
}
static void fiberMain() {
  while (true) {
    Fiber& f = g_f[g_curF];
    if (g_next >= g_total) { f.st = Idle; cuemu_switch(&f.sp, g_schedSp); continue; }
    uint32_t k = g_next++;
    f.tid = mode.threadsDown ? g_total - 1 - k : k;
    f.epoch = 0; f.warpEpoch = 0; f.st = Running;
    g_owner[f.tid] = g_curF;
    g_epoch = 0; g_warpEpoch = 0;
    place(f.tid);
    setId();
    g_threads++;
    g_dev = true;
    g_body->run();
    g_dev = false;
    g_owner[f.tid] = -2;
    g_doneThreads++;
  }
}
static void start(int i) {
  uintptr_t top = (uintptr_t)g_stacks + kStack * (i + 1) - 64;
  top &= ~15ull;
  void** sp = (void**)top;
  *--sp = nullptr;
  *--sp = (void*)fiberMain;
  for (int k = 0; k < 6; k++) *--sp = nullptr;
  g_f[i].sp = sp;
}
static void resume(int i) {
  g_curF = i;
  Fiber& f = g_f[i];
  if (f.st == Ready) { f.st = Running; place(f.tid); g_epoch = f.epoch; g_warpEpoch = f.warpEpoch; setId(); g_dev = true; }
  cuemu_switch(&g_schedSp, f.sp);
  g_dev = false;
  g_curF = -1;
}
static void wait(State s) {
  Fiber& f = g_f[g_curF];
  f.st = s;
  g_dev = false;
  cuemu_switch(&f.sp, g_schedSp);
}
void barrier() {
  if (g_curF < 0) return;
  wait(AtBarrier);
}
static void warpOp(unsigned mask, int src, bool valid, const void* in, void* out, size_t n, bool sync) {
  if (g_curF < 0) return;
  bool d = g_dev; g_dev = false;
  Fiber& f = g_f[g_curF];
  f.mask = mask; f.src = src; f.valid = valid; f.n = n; f.sync = sync;
  if (!(mask >> (f.tid & 31) & 1)) report("a thread takes part in a warp operation whose mask leaves it out");
  if (n) memcpy(f.val, in, n);
  g_dev = d;
  wait(AtWarp);
  if (n) { g_dev = false; memcpy(out, g_f[g_curF].res, n); g_dev = true; }
}
void warpBarrier(unsigned mask) { warpOp(mask, 0, false, nullptr, nullptr, 0, true); }
void shuffle(unsigned mask, int src, bool valid, const void* in, void* out, size_t n) { warpOp(mask, src, valid, in, out, n, false); }
int lane() { return (int)(g_threadNo & 31); }

static void runBlock(uint32_t no) {
  g_blockNo = no;
  blockIdx = {no % gridDim.x, no / gridDim.x % gridDim.y, no / (gridDim.x * gridDim.y)};
  g_total = blockDim.x * blockDim.y * blockDim.z;
  g_next = 0; g_doneThreads = 0;
  g_owner.assign(g_total, -1);
  // what is in shared memory at the start is anybody's guess
  if (g_dirtyHi > g_dirtyLo) memset(g_dirtyLo, 0xff, g_dirtyHi - g_dirtyLo);
  g_dirtyLo = __stop_cushared; g_dirtyHi = __start_cushared;
  if (g_f.empty()) g_f.resize(kMaxFibers);
  size_t used = 0;
  auto fresh = [&]() { if (used >= kMaxFibers) abort(); g_f[used].st = Idle; start((int)used); return (int)used++; };
  int lead = fresh();
  resume(lead);
  while (g_next < g_total) resume(fresh());
  // every thread has ended or waits
  for (int rounds = 0; g_doneThreads < g_total; rounds++) {
    bool any = false;
    // warp operations: all lanes of a warp named in the mask are there
    for (uint32_t w = 0; w * 32 < g_total; w++) {
      uint32_t lo = w * 32, hi = std::min(g_total, lo + 32);
      int first = -1; uint32_t here = 0, gone = 0, other = 0;
      for (uint32_t t = lo; t < hi; t++) {
        int o = g_owner[t];
        if (o == -2) { gone |= 1u << (t - lo); continue; }
        if (g_f[o].st == AtWarp) { here |= 1u << (t - lo); if (first < 0) first = o; }
        else other |= 1u << (t - lo);
      }
      if (first < 0) continue;
      unsigned mask = g_f[first].mask, lanes = hi - lo == 32 ? ~0u : (1u << (hi - lo)) - 1;
      if (mask & other & lanes) continue;      // they may still come
      if (mask & gone & lanes) report("a warp operation names threads that have ended, block " + std::to_string(no));
      any = true;
      for (uint32_t t = lo; t < hi; t++) if (here >> (t - lo) & 1) {
        Fiber& f = g_f[g_owner[t]];
        if (f.mask != mask) report("threads of a warp operation give different masks");
        if (f.sync != g_f[first].sync) report("threads of a warp are at different operations");
        memcpy(f.res, f.val, sizeof f.res);
        if (f.valid && !f.sync) {
          uint32_t s = lo + (uint32_t)f.src;
          if (s < hi && (here >> (s - lo) & 1)) memcpy(f.res, g_f[g_owner[s]].val, f.n);
          else if (s < hi) report("a shuffle reads from a thread that does not take part");
          else memset(f.res, 0xff, f.n);       // no such thread
        }
      }
      for (uint32_t t = lo; t < hi; t++) if (here >> (t - lo) & 1) { Fiber& f = g_f[g_owner[t]]; if (f.sync) f.warpEpoch++; f.st = Ready; }
    }
    if (!any) {
      uint32_t at = 0, live = 0;
      for (uint32_t t = 0; t < g_total; t++) if (g_owner[t] >= 0) { live++; if (g_f[g_owner[t]].st == AtBarrier) at++; }
      if (at == live && live) {
        if (g_doneThreads) report("a barrier is reached by some threads of a block only, block " + std::to_string(no));
        for (uint32_t t = 0; t < g_total; t++) if (g_owner[t] >= 0) { Fiber& f = g_f[g_owner[t]]; f.epoch++; f.st = Ready; }
        any = true;
      }
    }
    if (!any) { report("threads of a block wait for each other for ever, block " + std::to_string(no)); return; }
    for (uint32_t k = 0; k < g_total; k++) {
      uint32_t t = mode.threadsDown ? g_total - 1 - k : k;
      int o = g_owner[t];
      if (o >= 0 && g_f[o].st == Ready) resume(o);
    }
    if (rounds > 200000) { report("a block does not end, block " + std::to_string(no)); return; }
  }
}
static void newLaunch() {
  g_launchNo = (g_launchNo + 1) & 0x7fff;
  if (!g_launchNo) { g_launchNo = 1; madvise(g_cells, (kArena + g_shared) * sizeof(Cell), MADV_DONTNEED); }
  g_launches++;
}
static void runGrid(const Cfg& c, Launch* l, int dev) {
  Open o;
  newLaunch();
  g_runDev = dev;
  gridDim = c.g; blockDim = c.b;
  g_body = g_launch = l;
  uint64_t n = (uint64_t)c.g.x * c.g.y * c.g.z;
  for (uint64_t b = 0; b < n; b++) runBlock((uint32_t)(mode.blocksDown ? n - 1 - b : b));
  g_launch = nullptr;
}
// serial operations run on a fiber too, so that their own variables are told from host memory
void* scratch(size_t n) { bool d = g_dev; g_dev = false; char* p = (char*)malloc(n + 16); g_scratch.push_back({p, n}); g_dev = d; return p; }
void asThread(uint64_t i) { g_blockNo = (uint32_t)(i / 1024) & 0xfffff; g_threadNo = i % 1024; setId(); }
void asOne() { asThread(0); g_epoch++; setId(); }
static void runSerial(Launch* l, int dev) {
  Open o;
  newLaunch();
  g_runDev = dev;
  gridDim = blockDim = dim3(1);
  g_body = g_launch = l;
  runBlock(0);
  g_launch = nullptr;
  for (auto& s : g_scratch) free(s.first);
  g_scratch.clear();
}

// ---- streams
static std::vector<CUstream_st*> g_streams;
static CUstream_st* g_default[kDevices];
static CUstream_st* streamOf(cudaStream_t s) {
  if (s) return s;
  if (!g_default[g_cur]) { g_default[g_cur] = new CUstream_st{g_cur}; g_streams.push_back(g_default[g_cur]); }
  return g_default[g_cur];
}
static void runOne(CUstream_st* s) {
  Item i = std::move(s->q.front());
  s->q.pop_front();
  s->running = true;
  if (i.run) i.run();
  s->running = false;
  s->done++;
}
static bool headReady(CUstream_st* s) { return !s->q.empty() && (!s->q.front().ready || s->q.front().ready()); }
void (*blocked)() = nullptr;
// runs a stream up to a point; false when something else has to happen first
static bool advance(CUstream_st* s, uint64_t upTo) {
  while (!s->q.empty() && s->done < upTo && !s->running) {
    if (!headReady(s)) {
      s->running = true;
      if (s->q.front().help) s->q.front().help();
      s->running = false;
      if (!headReady(s)) return false;
    }
    runOne(s);
  }
  return true;
}
static void drain(CUstream_st* s, uint64_t upTo = ~0ull) {
  while (!advance(s, upTo)) {
    if (blocked) blocked();
    else { report("queued work waits for ever"); s->q.clear(); s->done = s->queued; return; }
  }
}
uint64_t position(cudaStream_t s) { return s->queued; }      // number of the next work
bool reached(cudaStream_t s, uint64_t n) { return s->done >= n; }
bool helpTo(cudaStream_t s, uint64_t n) { return advance(s, n); }
void enqueueWhen(cudaStream_t st, std::function<bool()> ready, std::function<void()> help, std::function<void()> run) {
  if (st->dead) { report("work for a destroyed stream"); return; }
  st->q.push_back({std::move(run), std::move(ready), std::move(help)});
  st->queued++;
}
bool liveDevice(const void* p, size_t n);
std::vector<int> waiting() { std::vector<int> r; for (size_t i = 0; i < g_streams.size(); i++) if (headReady(g_streams[i])) r.push_back((int)i); return r; }
void step(int k) { runOne(g_streams[(size_t)k]); }
void finish() { for (size_t i = 0; i < g_streams.size(); i++) drain(g_streams[i]); }
static void submit(cudaStream_t st, std::function<void()> f) {
  init();
  CUstream_st* s = streamOf(st);
  if (s->dead) { report("work for a destroyed stream"); return; }
  if (!st) finish();                      // the legacy default stream waits for all others
  s->q.push_back({std::move(f), nullptr, nullptr});
  s->queued++;
  if (!st || !mode.lazy) { finish(); }
}
void enqueue(Cfg c, Launch* l) {
  std::shared_ptr<Launch> keep(l);
  init();
  uint64_t t = (uint64_t)c.b.x * c.b.y * c.b.z;
  if (!c.g.x || !c.g.y || !c.g.z || !t || c.g.x > 2147483647u || c.g.y > 65535 || c.g.z > 65535 || t > 1024 || c.b.x > 1024 || c.b.y > 1024 || c.b.z > 64 || c.sh > 49152) { g_err = cudaErrorInvalidConfiguration; return; }
  int dev = streamOf(c.st)->dev;
  if (dev != g_cur) { g_err = cudaErrorInvalidResourceHandle; return; }
  submit(c.st, [=] { runGrid(c, keep.get(), dev); });
}
void enqueueSerial(cudaStream_t st, Launch* l) {
  std::shared_ptr<Launch> keep(l);
  int dev = streamOf(st)->dev;
  submit(st, [=] { runSerial(keep.get(), dev); });
}
void reset() { finish(); g_streams.erase(std::remove_if(g_streams.begin(), g_streams.end(), [](CUstream_st* t) { return t->dead && t->q.empty(); }), g_streams.end()); g_problem.clear(); g_err = cudaSuccess; g_threads = g_launches = 0; }

static uint64_t mixBits(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ x >> 33; }
uint32_t randomBits(uint64_t seed, uint64_t sub, uint64_t pos, int k) { return (uint32_t)(mixBits(mixBits(mixBits(seed + 0x9e3779b97f4a7c15ull * (k + 1)) + sub) + pos) >> 32); }
float uniformOf(uint64_t seed, uint64_t sub, uint64_t pos, int k) { if (mode.draws) return mode.draws > 0 ? 1.f : 2.3283064e-10f; return ((randomBits(seed, sub, pos, k) >> 8) + 1) * (1.f / 16777216.f); }   // (0, 1]
float normalOf(uint64_t seed, uint64_t sub, uint64_t pos, int k) {
  if (mode.draws) return mode.draws * 6.66f;
  double u = uniformOf(seed, sub, pos, k), v = (randomBits(seed, sub, pos, k + 16) >> 8) / 16777216.0;
  return (float)(sqrt(-2 * log(u)) * cos(6.283185307179586 * v));
}
}  // namespace cuemu
using namespace cuemu;

// ---- run-time API
cudaError_t cudaGetDeviceCount(int* n) { *n = kDevices; return cudaSuccess; }
cudaError_t cudaSetDevice(int d) { if (d < 0 || d >= kDevices) return cudaErrorInvalidDevice; g_cur = d; return cudaSuccess; }
cudaError_t cudaGetDevice(int* d) { *d = g_cur; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) {
  memset(p, 0, sizeof *p);
  strcpy(p->name, "emulated"); p->sharedMemPerBlock = 49152; p->warpSize = 32; p->maxThreadsPerBlock = 1024; p->major = 8; p->minor = 6; p->multiProcessorCount = 8; p->totalGlobalMem = kArena;
  p->maxThreadsDim[0] = p->maxThreadsDim[1] = 1024; p->maxThreadsDim[2] = 64; p->maxGridSize[0] = 2147483647; p->maxGridSize[1] = p->maxGridSize[2] = 65535; p->maxThreadsPerMultiProcessor = 1536;
  return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize() { for (auto* s : g_streams) if (s->dev == g_cur) drain(s); return cudaSuccess; }
static cudaError_t allocate(void** p, size_t n) {
  init();
  if (!n) { *p = nullptr; return cudaSuccess; }
  // first gap that fits, with room between blocks
  uintptr_t at = (uintptr_t)g_base + 512;
  for (auto& b : *g_blocks) {
    if (b.first - at >= n + 512 && b.first > at) break;
    at = (b.first + b.second.size + 512 + 255) & ~255ull;
  }
  if (at + n + 512 > (uintptr_t)g_base + kArena) return cudaErrorMemoryAllocation;
  (*g_blocks)[at] = {n, g_cur};
  memset(g_live + (at - (uintptr_t)g_base), g_cur + 1, n);
  { Open o; memset((void*)at, 0xff, n); memset((void*)(g_cells + (at - (uintptr_t)g_base)), 0, n * sizeof(Cell)); }
  *p = (void*)at;
  return cudaSuccess;
}
static cudaError_t release(void* p) {
  if (!p) return cudaSuccess;
  auto it = g_blocks->find((uintptr_t)p);
  if (it == g_blocks->end()) { report("cudaFree of something that is not an allocated block"); return cudaErrorInvalidValue; }
  memset(g_live + ((uintptr_t)p - (uintptr_t)g_base), 0, it->second.size);
  g_blocks->erase(it);
  return cudaSuccess;
}
cudaError_t cudaMalloc(void** p, size_t n) { return allocate(p, n); }
static int deviceOf(const void* p);
cudaError_t cudaFree(void* p) { if (p) { int d = deviceOf(p); for (size_t i = 0; i < g_streams.size(); i++) if (g_streams[i]->dev == d) drain(g_streams[i]); } return release(p); }
cudaError_t cudaMallocAsync(void** p, size_t n, cudaStream_t) { return allocate(p, n); }
cudaError_t cudaFreeAsync(void* p, cudaStream_t s) { submit(s, [=] { release(p); }); return cudaSuccess; }
cudaError_t cudaHostAlloc(void** p, size_t n, unsigned) { init(); *p = malloc(n ? n : 1); if (*p) (*g_pinned)[(uintptr_t)*p] = n; return *p ? cudaSuccess : cudaErrorMemoryAllocation; }
cudaError_t cudaMallocHost(void** p, size_t n) { return cudaHostAlloc(p, n, 0); }
cudaError_t cudaFreeHost(void* p) {
  finish();
  if (!p) return cudaSuccess;
  if (!g_pinned->erase((uintptr_t)p)) { report("cudaFreeHost of something that is not pinned memory"); return cudaErrorInvalidValue; }
  free(p);
  return cudaSuccess;
}
static int deviceOf(const void* p) {
  if ((uintptr_t)p - (uintptr_t)g_base >= kArena) return -1;
  auto it = g_blocks->upper_bound((uintptr_t)p);
  if (it == g_blocks->begin()) return -2;
  --it;
  return (uintptr_t)p - it->first < it->second.size ? it->second.dev : -2;
}
static bool inBlock(const void* p, size_t n) {
  auto it = g_blocks->upper_bound((uintptr_t)p);
  if (it == g_blocks->begin()) return false;
  --it;
  return (uintptr_t)p - it->first + n <= it->second.size;
}
static bool pinned(const void* p) { auto it = g_pinned->upper_bound((uintptr_t)p); if (it == g_pinned->begin()) return false; --it; return (uintptr_t)p - it->first < it->second; }
void cuemu::withDevice(const std::function<void()>& f) { Open o; f(); }
bool cuemu::liveDevice(const void* p, size_t n) { return !n || (deviceOf(p) >= 0 && inBlock(p, n)); }
static void doCopy(void* d, const void* s, size_t n, bool dd, bool sd) {
  if (dd && !inBlock(d, n)) { report("copy to outside any live device block"); return; }
  if (sd && !inBlock(s, n)) { report("copy from outside any live device block"); return; }
  if (dd && sd && (char*)d < (char*)s + n && (char*)s < (char*)d + n && d != s) report("copy between overlapping ranges");
  Open o;
  memcpy(d, s, n);
}
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st) {
  init();
  if (!n) return cudaSuccess;
  bool dd = deviceOf(d) != -1, sd = deviceOf(s) != -1;
  if (k != cudaMemcpyDefault && (dd != (k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice) || sd != (k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice))) {
    report("cudaMemcpy with a direction that does not fit its pointers");
    return cudaErrorInvalidValue;
  }
  if (!dd && !sd) { memcpy(d, s, n); return cudaSuccess; }
  if (dd && sd) { submit(st, [=] { doCopy(d, s, n, true, true); }); return cudaSuccess; }
  if (dd) {
    if (pinned(s)) { submit(st, [=] { doCopy(d, s, n, true, false); }); return cudaSuccess; }
    // pageable memory is read before the call returns
    std::shared_ptr<char> tmp((char*)malloc(n), free);
    memcpy(tmp.get(), s, n);
    submit(st, [=] { doCopy(d, tmp.get(), n, true, false); });
    return cudaSuccess;
  }
  submit(st, [=] { doCopy(d, s, n, false, true); });
  if (!pinned(d)) drain(streamOf(st));
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { bool inside = g_dev; if (inside) { report("cudaMemcpy from device code"); return cudaErrorInvalidValue; } finish(); cudaError_t e = cudaMemcpyAsync(d, s, n, k, nullptr); finish(); return e; }
cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t st) { submit(st, [=] { if (!inBlock(p, n)) { report("memset outside any live device block"); return; } Open o; memset(p, v, n); }); return cudaSuccess; }
cudaError_t cudaMemset(void* p, int v, size_t n) { return cudaMemsetAsync(p, v, n, nullptr); }
cudaError_t cudaStreamCreate(cudaStream_t* s) { *s = new CUstream_st{g_cur}; g_streams.push_back(*s); return cudaSuccess; }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned) { return cudaStreamCreate(s); }
cudaError_t cudaStreamDestroy(cudaStream_t s) { s->dead = true; return cudaSuccess; }
cudaError_t cudaStreamSynchronize(cudaStream_t s) { drain(streamOf(s)); return cudaSuccess; }
cudaError_t cudaStreamQuery(cudaStream_t s) { if (streamOf(s)->q.empty()) return cudaSuccess; if (headReady(streamOf(s))) runOne(streamOf(s)); return cudaErrorNotReady; }
cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned) { CUstream_st* o = e->st; uint64_t at = e->at; if (o && o->done < at) { enqueueWhen(streamOf(s), [=] { return o->done >= at; }, [=] { advance(o, at); }, nullptr); if (!mode.lazy) finish(); } return cudaSuccess; }
cudaError_t cudaEventCreate(cudaEvent_t* e) { *e = new CUevent_st; (*e)->dev = g_cur; return cudaSuccess; }
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { *e = new CUevent_st; (*e)->dev = g_cur; return cudaSuccess; }
cudaError_t cudaEventDestroy(cudaEvent_t e) { delete e; return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s) { if (streamOf(s)->dev != e->dev) { g_err = cudaErrorInvalidResourceHandle; return g_err; } e->st = streamOf(s); e->at = e->st->queued; return cudaSuccess; }
cudaError_t cudaEventQuery(cudaEvent_t e) { if (!e->st || e->st->done >= e->at) return cudaSuccess; if (mode.queriesRun && headReady(e->st)) runOne(e->st); return cudaErrorNotReady; }
cudaError_t cudaEventSynchronize(cudaEvent_t e) { if (e->st) drain(e->st, e->at); return cudaSuccess; }
cudaError_t cudaGetLastError() { cudaError_t e = g_err; g_err = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { return g_err; }
const char* cudaGetErrorString(cudaError_t e) {
  switch (e) {
    case cudaSuccess: return "no error"; case cudaErrorInvalidConfiguration: return "invalid configuration argument"; case cudaErrorMemoryAllocation: return "out of memory";
    case cudaErrorInvalidResourceHandle: return "invalid resource handle"; case cudaErrorInvalidDevice: return "invalid device ordinal"; default: return "error";
  }
}
const char* cudaGetErrorName(cudaError_t e) { return cudaGetErrorString(e); }

// ---- cuBLAS: column-major products
namespace {
float get(const void* p, cudaDataType t, long i) {
  size_t n = t == CUDA_R_32F ? 4 : 2;
  const char* a = (const char*)p + i * n;
  cuemu::read(a, n);
  if (t == CUDA_R_32F) return *(const float*)a;
  if (t == CUDA_R_16F) return (float)*(const __half*)a;
  return (float)*(const __nv_bfloat16*)a;
}
void put(void* p, cudaDataType t, long i, float v) {
  size_t n = t == CUDA_R_32F ? 4 : 2;
  char* a = (char*)p + i * n;
  cuemu::write(a, n);
  if (t == CUDA_R_32F) *(float*)a = v;
  else if (t == CUDA_R_16F) *(__half*)a = __half(v);
  else *(__nv_bfloat16*)a = __nv_bfloat16(v);
}
struct Gemm { cublasOperation_t ta, tb; int m, n, k; float alpha, beta; cudaDataType at, bt, ct; int lda, ldb, ldc; };
void one(const Gemm& g, const void* A, const void* B, void* C) {
  for (int j = 0; j < g.n; j++) for (int i = 0; i < g.m; i++) {
    double s = 0;
    for (int l = 0; l < g.k; l++) s += (double)get(A, g.at, g.ta == CUBLAS_OP_N ? i + (long)l * g.lda : l + (long)i * g.lda) * get(B, g.bt, g.tb == CUBLAS_OP_N ? l + (long)j * g.ldb : j + (long)l * g.ldb);
    double r = g.alpha * s;
    if (g.beta != 0) r += g.beta * get(C, g.ct, i + (long)j * g.ldc);
    put(C, g.ct, i + (long)j * g.ldc, (float)r);
  }
}
cublasStatus_t valid(const Gemm& g, int count) {
  if (g.m < 0 || g.n < 0 || g.k < 0 || count < 0) return CUBLAS_STATUS_INVALID_VALUE;
  int ra = g.ta == CUBLAS_OP_N ? g.m : g.k, rb = g.tb == CUBLAS_OP_N ? g.k : g.n;
  if (g.lda < std::max(1, ra) || g.ldb < std::max(1, rb) || g.ldc < std::max(1, g.m)) return CUBLAS_STATUS_INVALID_VALUE;
  return CUBLAS_STATUS_SUCCESS;
}
template <class F> cublasStatus_t run(cublasHandle_t h, const Gemm& g, int count, F f) {
  if (!h) return CUBLAS_STATUS_NOT_INITIALIZED;
  cublasStatus_t e = valid(g, count);
  if (e) return e;
  if (!g.m || !g.n || !count) return CUBLAS_STATUS_SUCCESS;
  cuemu::serial(h->st, [=] { for (int i = 0; i < count; i++) f(i); });
  return CUBLAS_STATUS_SUCCESS;
}
}
cublasStatus_t cublasCreate(cublasHandle_t* h) { *h = new cublasContext{nullptr, g_cur}; return CUBLAS_STATUS_SUCCESS; }
cublasStatus_t cublasDestroy(cublasHandle_t h) { delete h; return CUBLAS_STATUS_SUCCESS; }
cublasStatus_t cublasSetStream(cublasHandle_t h, cudaStream_t s) { h->st = s; return CUBLAS_STATUS_SUCCESS; }
cublasStatus_t cublasSetMathMode(cublasHandle_t, cublasMath_t) { return CUBLAS_STATUS_SUCCESS; }
cublasStatus_t cublasSgemm(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* A, int lda, const float* B, int ldb, const float* be, float* C, int ldc) {
  return cublasGemmEx(h, ta, tb, m, n, k, al, A, CUDA_R_32F, lda, B, CUDA_R_32F, ldb, be, C, CUDA_R_32F, ldc, 0, CUBLAS_GEMM_DEFAULT);
}
cublasStatus_t cublasGemmEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* A, cudaDataType at, int lda, const void* B, cudaDataType bt, int ldb, const void* be, void* C, cudaDataType ct, int ldc, int, cublasGemmAlgo_t) {
  Gemm g{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  return run(h, g, 1, [=](int) { one(g, A, B, C); });
}
cublasStatus_t cublasSgemmStridedBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* A, int lda, long long sa, const float* B, int ldb, long long sb, const float* be, float* C, int ldc, long long sc, int count) {
  return cublasGemmStridedBatchedEx(h, ta, tb, m, n, k, al, A, CUDA_R_32F, lda, sa, B, CUDA_R_32F, ldb, sb, be, C, CUDA_R_32F, ldc, sc, count, 0, CUBLAS_GEMM_DEFAULT);
}
static size_t sz(cudaDataType t) { return t == CUDA_R_32F ? 4 : 2; }
cublasStatus_t cublasGemmStridedBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* A, cudaDataType at, int lda, long long sa, const void* B, cudaDataType bt, int ldb, long long sb, const void* be, void* C, cudaDataType ct, int ldc, long long sc, int count, int, cublasGemmAlgo_t) {
  Gemm g{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  if (count > 1 && sc < (long long)ldc * n && m && n) report("batched product whose results overlap");
  return run(h, g, count, [=](int i) { one(g, (const char*)A + i * sa * sz(at), (const char*)B + i * sb * sz(bt), (char*)C + i * sc * sz(ct)); });
}
cublasStatus_t cublasSgemmBatched(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const float* al, const float* const A[], int lda, const float* const B[], int ldb, const float* be, float* const C[], int ldc, int count) {
  return cublasGemmBatchedEx(h, ta, tb, m, n, k, al, (const void* const*)A, CUDA_R_32F, lda, (const void* const*)B, CUDA_R_32F, ldb, be, (void* const*)C, CUDA_R_32F, ldc, count, 0, CUBLAS_GEMM_DEFAULT);
}
cublasStatus_t cublasGemmBatchedEx(cublasHandle_t h, cublasOperation_t ta, cublasOperation_t tb, int m, int n, int k, const void* al, const void* const A[], cudaDataType at, int lda, const void* const B[], cudaDataType bt, int ldb, const void* be, void* const C[], cudaDataType ct, int ldc, int count, int, cublasGemmAlgo_t) {
  Gemm g{ta, tb, m, n, k, *(const float*)al, *(const float*)be, at, bt, ct, lda, ldb, ldc};
  // the arrays of pointers are device memory
  return run(h, g, count, [=](int i) { cuemu::read(A + i, 8); cuemu::read(B + i, 8); cuemu::read(C + i, 8); one(g, A[i], B[i], C[i]); });
}

// ---- accesses reported by code compiled with -fsanitize=thread
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { aligned((uintptr_t)p, N, PC); access((uintptr_t)p, N, false, PC); } \
  void __tsan_write##N(void* p) { aligned((uintptr_t)p, N, PC); access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, false, PC); access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, false, PC); access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { if (n) access((uintptr_t)d, n, true, PC); return memset(d, v, n); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
