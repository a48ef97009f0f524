// Stand-in for the thread sanitizer run time: code compiled with -fsanitize=thread reports its memory
// accesses here.  Plain accesses are checked for happens-before races with vector clocks and for use of
// freed memory; atomics are scheduling points and synchronise.  Memory freed by a simulated thread is kept
// until the end of the execution.
#include "sim.h"
#include <cstring>
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <map>
#include <unordered_map>
#include <cstdlib>
using namespace sim;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
// ---- shadow: per byte, the last write and the last read(s)
struct Cell { uint32_t w, r; };           // id<<24 | clock ; r == 0xffffffff: several readers (see g_multi)
constexpr uint32_t kMulti = 0xffffffffu, kFreed = 0xfffffffeu;
struct Page { uint32_t gen[64]; Cell c[4096]; };   // cells of a line are valid when its generation is the current execution's
std::unordered_map<uintptr_t, Page*>* g_pages;
uint32_t g_gen = 1;
struct Slot { uintptr_t no; Page* p; };
Slot g_cache[256];
std::unordered_map<uintptr_t, std::vector<uint32_t>>* g_multi;
std::unordered_map<const void*, VC>* g_sync;
bool g_checking = false;  // re-entrancy
struct Block { size_t size; bool freed; };
std::unordered_map<void*, Block>* g_blocks;  // allocated by fibers in this execution
struct Held { size_t size; int fiber; };
std::map<uintptr_t, Held>* g_held;           // blocks and the only thread that has used their atomics (-1: several)

__attribute__((noinline)) Page* pageSlow(uintptr_t n) {
  Internal in;
  auto& p = (*g_pages)[n];
  if (!p) { p = (Page*)__libc_malloc(sizeof(Page)); memset(p->gen, 0, sizeof p->gen); }
  g_cache[n & 255] = {n, p};
  return p;
}
inline Cell* cellOf(uintptr_t a) {
  uintptr_t n = a >> 12;
  Slot& s = g_cache[n & 255];
  Page* p = s.no == n && s.p ? s.p : pageSlow(n);
  unsigned o = a & 4095, l = o >> 6;
  if (p->gen[l] != g_gen) { memset(&p->c[l << 6], 0, 64 * sizeof(Cell)); p->gen[l] = g_gen; }
  return &p->c[o];
}
inline uint32_t ep() { return (uint32_t)cur->id << 24 | (cur->vc.c[cur->id] & 0xffffff); }
inline bool before(uint32_t e) { return (cur->vc.c[e >> 24] & 0xffffff) >= (e & 0xffffff); }

std::string where(void* pc) {
  Dl_info i;
  char b[300];
  if (dladdr(pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+%ld", i.dli_sname, (long)((char*)pc - (char*)i.dli_saddr));
  else if (i.dli_fbase) snprintf(b, sizeof b, "+0x%lx", (long)((char*)pc - (char*)i.dli_fbase));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}
__attribute__((noinline)) void report(const char* kind, uintptr_t a, uint32_t other, void* pc) {
  Internal in;
  std::string s = kind;
  s += ": thread " + cur->name + " at " + where(pc);
  if (other && other != kFreed && other != kMulti && (other >> 24) < S->fibers.size()) s += " against thread " + S->fibers[other >> 24]->name;
  problem(s);
}

void access(uintptr_t a, size_t n, bool write, void* pc) {
  if (!cur || !g_pages || g_internal || g_checking) return;
  if (a - (uintptr_t)g_tls < g_tlsSize) return;   // thread-local
  g_checking = true;
  uint32_t me = ep();
  bool reported = false;
  Cell* cp = nullptr;
  for (size_t i = 0; i < n; i++) {
    if (i == 0 || ((a + i) & 63) == 0) cp = cellOf(a + i); else cp++;
    Cell& c = *cp;
    if (c.w == me && (write ? (c.r == 0 || c.r == me) : true)) { if (!write && c.r == 0) c.r = me; continue; }
    if (c.w == kFreed) { if (!reported) report("use of freed memory", a + i, 0, pc); reported = true; continue; }
    if (c.w && (c.w >> 24) != (uint32_t)cur->id && !before(c.w) && !reported) { report(write ? "data race (write after write)" : "data race (read after write)", a + i, c.w, pc); reported = true; }
    if (write) {
      if (c.r == kMulti) {
        for (uint32_t e : (*g_multi)[a + i]) if ((e >> 24) != (uint32_t)cur->id && !before(e) && !reported) { report("data race (write after read)", a + i, e, pc); reported = true; }
        Internal in; g_multi->erase(a + i);
      } else if (c.r && (c.r >> 24) != (uint32_t)cur->id && !before(c.r) && !reported) { report("data race (write after read)", a + i, c.r, pc); reported = true; }
      c.w = me; c.r = 0;
    } else {
      if (c.r == 0 || c.r == me || (c.r != kMulti && ((c.r >> 24) == (uint32_t)cur->id || before(c.r)))) c.r = me;
      else {
        Internal in;
        auto& v = (*g_multi)[a + i];
        if (c.r != kMulti) { v.clear(); v.push_back(c.r); c.r = kMulti; }
        bool found = false;
        for (auto& e : v) if ((e >> 24) == (uint32_t)cur->id) { e = me; found = true; }
        if (!found) v.push_back(me);
      }
    }
  }
  g_checking = false;
}
void clearRange(uintptr_t a, size_t n, uint32_t w) {
  // whole lines of fresh memory become invalid; of large freed blocks only the ends are watched
  if (w && n > 262144) { clearRange(a, 131072, w); clearRange(a + n - 131072, 131072, w); return; }
  if (!w) {
    while (n && (a & 63)) { Cell& c = *cellOf(a); c.w = c.r = 0; a++; n--; }
    for (; n >= 64; a += 64, n -= 64) {
      if ((a & 4095) == 0 && n >= 4096) {
        auto it = g_pages->find(a >> 12);
        if (it == g_pages->end()) { a += 4096 - 64; n -= 4096 - 64; continue; }
      }
      Slot& s = g_cache[(a >> 12) & 255];
      Page* p = s.no == a >> 12 && s.p ? s.p : pageSlow(a >> 12);
      p->gen[(a & 4095) >> 6] = 0;
    }
  }
  for (size_t i = 0; i < n; i++) {
    Cell& c = *cellOf(a + i);
    c.w = w; c.r = 0;
  }
}

void reset() {
  Internal in;
  if (!g_pages) {
    g_pages = new std::unordered_map<uintptr_t, Page*>;
    g_multi = new std::unordered_map<uintptr_t, std::vector<uint32_t>>; g_sync = new std::unordered_map<const void*, VC>;
    g_blocks = new std::unordered_map<void*, Block>; g_held = new std::map<uintptr_t, Held>;
  }
  g_multi->clear(); g_sync->clear(); g_held->clear();
  g_checking = false;
  if (++g_gen == 0 || g_pages->size() > 20000) {  // start over
    for (auto& p : *g_pages) __libc_free(p.second);
    g_pages->clear();
    memset(g_cache, 0, sizeof g_cache);
    g_gen = 1;
  }
}
void end(bool abandoned) {
  Internal in;
  for (auto& b : *g_blocks) if (b.second.freed || (abandoned && S->cfg.ownAtomics)) __libc_free(b.first);
  g_blocks->clear();
  reset();
}
struct Reg { Reg() { onReset.push_back(reset); onEnd.push_back(end); } } reg;

inline void* track(void* p, size_t n) {
  if (cur && !g_internal && g_blocks && p) {
    Internal in;
    (*g_blocks)[p] = Block{n, false};
    if (!S->cfg.ownAtomics) (*g_held)[(uintptr_t)p] = Held{n, cur->id};
    clearRange((uintptr_t)p, n, 0);
  }
  return p;
}
inline void freeIt(void* p) {
  if (!p) return;
  if (g_blocks && !g_blocks->empty() && !g_internal) {
    Internal in;
    auto it = g_blocks->find(p);
    if (it != g_blocks->end()) {
      if (it->second.freed) { if (cur) report("double free", (uintptr_t)p, 0, __builtin_return_address(0)); return; }
      if (cur) {
        size_t n = it->second.size;
        it->second.freed = true;
        // freeing writes the block
        g_internal--; access((uintptr_t)p, n < 256 ? n : 256, true, __builtin_return_address(0)); g_internal++;
        clearRange((uintptr_t)p, n, kFreed);
        return;
      }
      g_blocks->erase(it);
    }
  }
  __libc_free(p);
}
VC& syncOf(const void* a) { Internal in; auto it = g_sync->find(a); if (it == g_sync->end()) { it = g_sync->emplace(a, VC()).first; vcZero(it->second); } return it->second; }
}  // namespace

extern "C" {
void* malloc(size_t n) { return track(__libc_malloc(n), n); }
void* calloc(size_t a, size_t b) { return track(__libc_calloc(a, b), a * b); }
void free(void* p) { freeIt(p); }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (cur && !g_internal && g_blocks && g_blocks->count(p)) {
    void* q = malloc(n);
    size_t old = (*g_blocks)[p].size;
    memcpy(q, p, old < n ? old : n);
    freeIt(p);
    return q;
  }
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { return track(__libc_memalign(al, n), n); }
void* aligned_alloc(size_t al, size_t n) { return track(__libc_memalign(al, n), n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = track(__libc_memalign(al, n), n); return *p ? 0 : 12; }
}
static void* newIt(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return newIt(n); }
void* operator new[](size_t n) { return newIt(n); }
void operator delete(void* p) noexcept { freeIt(p); }
void operator delete[](void* p) noexcept { freeIt(p); }
void operator delete(void* p, size_t) noexcept { freeIt(p); }
void operator delete[](void* p, size_t) noexcept { freeIt(p); }

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
#define RW(N) \
  void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void* a) { access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

// atomics: scheduling points; an atomic object that has been freed is a use after free
static void atomicUse(const volatile void* a, void* pc) {
  if (!cur || !g_pages || g_internal) return;
  Cell& c = *cellOf((uintptr_t)a);
  if (c.w == kFreed) report("use of freed memory", (uintptr_t)a, 0, pc);
}
static bool own(const volatile void* a) {
  Internal in;
  auto it = g_held->upper_bound((uintptr_t)a);
  if (it == g_held->begin()) return false;
  --it;
  if ((uintptr_t)a - it->first >= it->second.size) return false;
  if (it->second.fiber == cur->id) return true;
  it->second.fiber = -1;
  return false;
}
static void pre(const volatile void* a, void* pc) { if (cur && !g_internal) { if (S->cfg.ownAtomics || !own(a)) point("atomic"); atomicUse(a, pc); } }
enum { relaxed, consume, acq, rel, acq_rel, seq };
static void doAcq(const volatile void* a, int mo) { if (cur && !g_internal && (mo != relaxed || S->cfg.loadsAcquire) && mo != rel) acquire(syncOf((const void*)a)); }
static void doRel(const volatile void* a, int mo, bool rmw) {
  if (!cur || g_internal) return;
  if (mo == rel || mo == acq_rel || mo == seq) { VC& v = syncOf((const void*)a); if (!rmw) vcZero(v); release(v); }
  else if (!rmw) vcZero(syncOf((const void*)a));
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { pre(a, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); doAcq(a, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { pre(a, PC); doRel(a, mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { pre(a, PC); doAcq(a, mo); doRel(a, mo, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { pre(a, PC); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) { doAcq(a, mo); doRel(a, mo, true); } else doAcq(a, fmo); return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static VC g_fence;
void __tsan_atomic_thread_fence(int) { if (cur && !g_internal) { acquire(g_fence); release(g_fence); } }
void __tsan_atomic_signal_fence(int) {}
}
