#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
extern "C" void __sanitizer_start_switch_fiber(void**, const void*, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
#endif
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
extern "C" { extern char __libc_single_threaded; }

namespace sim {
Sim* S = nullptr;
Fiber* cur = nullptr;
int g_internal = 0;
char* g_tls; size_t g_tlsSize;
static const char* g_tlsInit; static size_t g_tlsInitSize;
static std::vector<char> g_tlsMain;
std::vector<void (*)()> onReset;
std::vector<void (*)(int)> onProcDeath;
std::vector<void (*)(bool)> onEnd;

int g_resolving = 0;   // looking up a symbol and initialising a static variable are no scheduling points: they happen only once per process
void* real(const char* name) {
  g_resolving++;
  void* p = dlsym(RTLD_NEXT, name);
  g_resolving--;
  if (!p) { fprintf(stderr, "sim: no %s\n", name); abort(); }
  return p;
}

static constexpr size_t kStack = 256 * 1024;
static std::vector<char*> g_stacks;
static char* getStack() {
  if (!g_stacks.empty()) { char* s = g_stacks.back(); g_stacks.pop_back(); return s; }
  char* p = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  mprotect(p, 4096, PROT_NONE);
  return p;
}

extern "C" void sim_switch(void** save, void* to);
extern "C" void sim_entry();
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_main
  ud2
  .cfi_endproc
.size sim_entry,.-sim_entry
)");

static void* g_mainSp;
#ifdef SIM_ASAN
static const void* g_mainBottom; static size_t g_mainSize; static void* g_mainFake;
#endif

static void ehSwap(void*& a, unsigned& b) {
  char* g = (char*)__cxxabiv1::__cxa_get_globals();
  void* x = *(void**)g; unsigned y = *(unsigned*)(g + sizeof(void*));
  *(void**)g = a; *(unsigned*)(g + sizeof(void*)) = b;
  a = x; b = y;
}

static void toMain(bool forever = false) {
  Fiber* f = cur;
  f->err = errno;
  ehSwap(f->eh0, f->eh1);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(forever ? nullptr : &f->fake, g_mainBottom, g_mainSize);
#endif
  (void)forever;
  sim_switch(&f->sp, g_mainSp);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(f->fake, &g_mainBottom, &g_mainSize);
#endif
  ehSwap(f->eh0, f->eh1);
  errno = f->err;
}

extern "C" int __cxa_thread_atexit(void (*d)(void*), void* o, void* dso) {
  if (!cur) { static auto rf = (int (*)(void (*)(void*), void*, void*))real("__cxa_thread_atexit"); return rf(d, o, dso); }
  Internal in;
  cur->tlsDtors.push_back({d, o});
  return 0;
}
extern "C" void sim_main() {
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &g_mainBottom, &g_mainSize);
#endif
  Fiber* f = cur;
  { char* g = (char*)__cxxabiv1::__cxa_get_globals(); f->eh0 = *(void**)g; f->eh1 = *(unsigned*)(g + sizeof(void*)); *(void**)g = nullptr; *(unsigned*)(g + sizeof(void*)) = 0; }
  try {
    f->body();
  } catch (const std::exception& e) {
    Internal in;
    S->fatal = std::string("exception escapes from thread ") + f->name + ": " + e.what();
  } catch (...) {
    Internal in;
    S->fatal = "exception escapes from thread " + f->name;
  }
  while (!f->tlsDtors.empty()) {
    auto d = f->tlsDtors.back();
    { Internal in; f->tlsDtors.pop_back(); }
    d.first(d.second);
  }
  { Internal in; f->body = nullptr; }
  f->state = Fiber::Done;
  toMain(true);
  abort();
}

void Sim::switchTo(Fiber* f) {
  cur = f;
  f->state = Fiber::Runnable;
  last = f;
  if (g_tlsSize) { memcpy(g_tlsMain.data(), g_tls, g_tlsSize); memcpy(g_tls, f->tls.data(), g_tlsSize); }
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(&g_mainFake, f->stack + 4096, kStack);
#endif
  sim_switch(&g_mainSp, f->sp);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(g_mainFake, nullptr, nullptr);
#endif
  if (g_tlsSize) { memcpy(f->tls.data(), g_tls, g_tlsSize); memcpy(g_tls, g_tlsMain.data(), g_tlsSize); }
  cur = nullptr;
}

static void onSignal(int sig) {
  if (cur) fatal(sig == SIGTRAP ? "library assertion failed" : sig == SIGABRT ? "abort" : "signal " + std::to_string(sig));
  signal(sig, SIG_DFL);
  raise(sig);
}
static void onTerminate() {
  if (cur) {
    std::string w = "std::terminate";
    if (auto e = std::current_exception()) {
      try { std::rethrow_exception(e); } catch (const std::exception& x) { w += std::string(": ") + x.what(); } catch (...) {}
    }
    fatal(w);
  }
  abort();
}

Sim::Sim(mc::Ctx& ctx, Config k) : c(ctx), cfg(k) {
  g_resolving = 0;
  static bool once = false;
  if (!once) {
    once = true;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {   // the first object is the program itself
      for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
          g_tls = (char*)i->dlpi_tls_data; g_tlsSize = i->dlpi_phdr[k].p_memsz;
          g_tlsInit = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); g_tlsInitSize = i->dlpi_phdr[k].p_filesz;
        }
      return 1;
    }, nullptr);
    g_tlsMain.resize(g_tlsSize);
    std::set_terminate(onTerminate);
    struct sigaction sa {};
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);
#ifndef SIM_ASAN
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
#endif
    signal(SIGPIPE, SIG_IGN);
  }
  __libc_single_threaded = 0;
  devLeft = cfg.deviations;
  faultsLeft = cfg.faults;
  fibers.reserve(kMaxFibers);
  S = this;
  for (auto f : onReset) f();
}
Sim::~Sim() {
  bool abandoned = false;
  for (auto& f : fibers) {
    if (f->state != Fiber::Done) abandoned = true;
    if (f->stack) g_stacks.push_back(f->stack);
  }
  for (auto f : onEnd) f(abandoned);
  S = nullptr; cur = nullptr;
}

Fiber* Sim::spawn(const std::string& name, int proc, std::function<void()> body, bool user) {
  Internal in;
  if ((int)fibers.size() >= kMaxFibers) { if (cur) sim::fatal("too many threads"); c.fail("too-many-threads", "more than %d threads", kMaxFibers); }
  auto f = std::make_unique<Fiber>();
  f->id = (int)fibers.size();
  f->proc = proc; f->user = user; f->name = name; f->body = std::move(body);
  f->stack = getStack();
  char* top = f->stack + 4096 + kStack;
  void** sp = (void**)top;
  *--sp = nullptr; *--sp = nullptr;
  *--sp = (void*)&sim_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  f->tls.assign(g_tlsSize, 0);
  if (g_tlsInitSize) memcpy(f->tls.data(), g_tlsInit, g_tlsInitSize);
  vcZero(f->vc);
  if (cur) { f->vc = cur->vc; cur->vc.c[cur->id]++; }
  else for (auto& o : fibers) if (o->state == Fiber::Done) vcJoin(f->vc, o->vc);  // the harness starts it after it has seen them end
  f->vc.c[f->id] = 1;
  fibers.push_back(std::move(f));
  return fibers.back().get();
}

bool Sim::procDead(int p) const { for (int x : deadProcs) if (x == p) return true; return false; }
void Sim::freeze(int proc) {
  deadProcs.push_back(proc);
  for (auto& f : fibers) if (f->proc == proc && f->state != Fiber::Done) f->state = Fiber::Dead;
}
void Sim::kill(int proc, const char* why) {
  freeze(proc);
  trace += std::string(" [process ") + std::to_string(proc) + " dies: " + why + "]";
  for (auto h : onProcDeath) h(proc);
}

int Sim::unfinished() const { int n = 0; for (auto& f : fibers) n += f->state != Fiber::Done && f->state != Fiber::Dead; return n; }
std::string Sim::stuck() const {
  std::string s;
  for (auto& f : fibers)
    if (f->state != Fiber::Done && f->state != Fiber::Dead) s += (s.empty() ? "" : "; ") + f->name + " in " + f->what + (f->deadline != kForever ? " (timed)" : "");
  return s;
}

static std::string failKey(const std::string& w) {
  std::string k;
  for (char ch : w) { if (ch == ':' || ch == '(') break; k += (isalnum((unsigned char)ch) ? ch : '-'); }
  return k.substr(0, 60);
}

bool Sim::loop(bool usersOnly) {
  uint64_t t0 = now;
  for (;;) {
    if (!problems.empty()) { auto p = problems[0]; c.fail(failKey(p), "%s\nschedule:%s\nlog: %s", p.c_str(), trace.c_str(), log.c_str()); }
    bool users = false, any = false;
    for (auto& f : fibers) {
      if (f->state == Fiber::Done || f->state == Fiber::Dead) continue;
      any = true;
      if (f->user) users = true;
    }
    if (!any || (usersOnly && !users)) return true;
    // enabled fibers, default first
    Fiber* en[kMaxFibers]; int n = 0;
    auto enabled = [&](Fiber* f) {
      if (f->state == Fiber::Runnable) return true;
      if (f->state != Fiber::Blocked) return false;
      if (f->deadline != kForever && now >= f->deadline) return true;
      return f->ready && f->ready();
    };
    int N = (int)fibers.size();
    int start = last ? last->id : 0;
    bool lastFirst = last && !last->yielded;
    if (last) last->yielded = false;
    uint64_t earliest = kForever;
    for (int k = lastFirst ? 0 : 1; k < (lastFirst ? N : N + 1); k++) {
      Fiber* f = fibers[(start + k) % N].get();
      if (enabled(f)) en[n++] = f;
    }
    for (auto& f : fibers) if (f->state == Fiber::Blocked && f->deadline > now && f->deadline < earliest) earliest = f->deadline;
    if (n == 0) {
      if (earliest == kForever) return false;  // nothing can ever happen
      now = earliest;
      if (now - t0 > cfg.maxTime) c.fail("never-ends", "still not finished after %llu s of virtual time: %s\nschedule:%s\nlog: %s", (unsigned long long)((now - t0) / 1000000000ull), stuck().c_str(), trace.c_str(), log.c_str());
      continue;
    }
    int opts = n + (cfg.timeJumps && earliest != kForever ? 1 : 0);
    int k = 0;
    if (exploring && devLeft > 0 && opts > 1) k = c.pick(opts);
    c.transition();
    if (k) {
      devLeft--;
      if (k == n) { now = earliest; jumps++; trace += " [time passes]"; continue; }
      trace += " ->" + en[k]->name + "@" + en[k]->what;
    }
    Fiber* f = en[k];
    if (++steps > cfg.maxSteps) c.fail("livelock", "no end after %lld scheduling steps: %s\nschedule:%s\nlog: %s", (long long)steps, stuck().c_str(), trace.c_str(), log.c_str());
    reqN = 0;
    switchTo(f);
    while (reqN > 0) {  // the fiber asks the explorer something
      int m = reqN;
      reqN = 0;
      int v = c.pick(m);
      if (v && reqFault) { faultsLeft--; trace += std::string(" [fault ") + std::to_string(v) + " in " + f->name + " at " + reqWhat + "]"; }
      reqReply = v;
      switchTo(f);
    }
    if (!fatal.empty()) c.fail(failKey(fatal), "%s (thread %s, at %s)\nschedule:%s\nlog: %s", fatal.c_str(), f->name.c_str(), f->what, trace.c_str(), log.c_str());
    if (reqKillProc >= 0) { int p = reqKillProc; reqKillProc = -1; kill(p, f->what); }
    if (reqFreezeProc >= 0) { int p = reqFreezeProc; reqFreezeProc = -1; trace += " [process " + std::to_string(p) + " goes silent at " + f->what + "]"; freeze(p); }
  }
}
bool Sim::run() { return loop(false); }
bool Sim::runUsers() { return loop(true); }

void point(const char* what) {
  if (g_resolving) return;
  Fiber* f = cur;
  f->what = what;
  // fast path: no decision possible
  if (S->steps + 1 < S->cfg.maxSteps && (!S->exploring || S->devLeft <= 0)) { S->steps++; return; }
  toMain();
}
void yield() { cur->what = "yield"; cur->yielded = true; toMain(); }
bool block(const char* what, std::function<bool()> ready, uint64_t deadline) {
  Fiber* f = cur;
  f->what = what;
  { Internal in; f->ready = std::move(ready); }
  f->deadline = deadline;
  f->state = Fiber::Blocked;
  toMain();
  Internal in;
  bool ok = f->ready();
  f->ready = nullptr;
  f->deadline = kForever;
  return ok;
}
int ask(int n, const char* what, bool fault) {
  if (n <= 1) return 0;
  if (fault && (S->faultsLeft <= 0 || !S->exploring)) return 0;
  S->reqN = n; S->reqFault = fault; S->reqWhat = what;
  toMain();
  return S->reqReply;
}
void dieHere() { for (;;) { cur->state = Fiber::Dead; toMain(true); } }
void fatal(const std::string& why) { g_internal++; S->fatal = std::string(why.c_str()); g_internal--; cur->state = Fiber::Dead; toMain(true); abort(); }
void problem(const std::string& what) { Internal in; if (S && S->problems.size() < 20) S->problems.push_back(std::string(what.c_str())); }
void acquire(const VC& v) { vcJoin(cur->vc, v); }
void release(VC& v) { vcJoin(v, cur->vc); cur->vc.c[cur->id]++; }
}  // namespace sim
