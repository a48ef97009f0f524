// Controlled scheduler: simulated threads are fibers on one OS thread; every library call that could
// block or communicate (threads, locks, condition variables, sleeps, clocks, sockets, files) is
// interposed and becomes a scheduling point.  The explorer enumerates schedules: the default schedule
// keeps running the current fiber and otherwise goes round robin; every other decision (switch to another
// enabled fiber, let time pass although something could run) is a deviation, and all schedules with at most
// `deviations` of them are run.  Faults (short transfers, interrupted calls, resets, process death) are
// enumerated the same way under their own bound.  Time is virtual.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "mc.h"

namespace sim {

constexpr int kMaxFibers = 40;
constexpr uint64_t kForever = ~0ull;
struct VC { uint32_t c[kMaxFibers]; };
inline void vcZero(VC& a) { for (auto& x : a.c) x = 0; }
inline void vcJoin(VC& a, const VC& b) { for (int i = 0; i < kMaxFibers; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Fiber {
  int id = 0, proc = 0;
  bool user = false;       // started by the harness (as opposed to by the code under test)
  std::string name;
  std::function<void()> body;
  enum State { Runnable, Blocked, Done, Dead } state = Runnable;
  std::function<bool()> ready;
  uint64_t deadline = kForever;
  const char* what = "start";
  void* sp = nullptr;
  char* stack = nullptr;
  bool joinable = false, detached = false;
  void* ret = nullptr;
  bool yielded = false;
  VC vc;
  int err = 0;
  void* eh0 = nullptr; unsigned eh1 = 0;
  void* fake = nullptr;
  std::vector<char> tls;   // the program's thread-local variables
  std::vector<std::pair<void (*)(void*), void*>> tlsDtors;
};

struct Config {
  int deviations = 1;       // budget of schedule deviations
  int faults = 0;           // budget of injected faults
  bool timeJumps = false;   // letting time pass while something can run is a deviation
  bool kills = false;       // faults include death of the calling process at a system call
  bool freezes = false;     // faults include a process going silent at a system call
  bool spurious = false;    // faults include condition variables waking up by themselves
  bool unlocks = false;     // a thread may also be preempted right after it releases a lock
  bool ownAtomics = true;   // false: atomic operations on memory only the running thread has ever held are no scheduling points
  bool loadsAcquire = false;// relaxed atomic loads synchronise (writes that depend on them are ordered after them on every machine)
  bool resets = true, interrupts = true, shorts = true;
  int64_t maxSteps = 200000;
  uint64_t maxTime = 3600ull * 1000000000ull;  // virtual ns after which a run counts as never ending
};

class Sim {
 public:
  Sim(mc::Ctx& c, Config cfg);
  ~Sim();
  Fiber* spawn(const std::string& name, int proc, std::function<void()> body, bool user = true);
  // runs until every fiber is done or nothing can ever run again; returns false in the latter case
  bool run();
  // runs until all user fibers are done (others may go on)
  bool runUsers();
  std::string stuck() const;   // the fibers that are not done and what they wait for
  int unfinished() const;
  void kill(int proc, const char* why);   // the process dies now: its fibers never run again, its files are closed
  void freeze(int proc);
  bool exploring = true;
  mc::Ctx& c;
  Config cfg;
  uint64_t now = 1000000000000ull;
  int64_t steps = 0;
  int devLeft, faultsLeft;
  int jumps = 0;               // time jumps taken
  std::vector<std::unique_ptr<Fiber>> fibers;
  std::string log;             // messages of the code under test (last few KB)
  std::vector<std::string> problems;   // found by the monitors (races, use after free, bad close, ...)
  std::vector<int> deadProcs;
  std::string trace;           // schedule, for reports
  bool procDead(int p) const;
  uint64_t memHash = 0;

 private:
  bool loop(bool usersOnly);
  void switchTo(Fiber* f);
  friend struct Api;
 public:
  Fiber* last = nullptr;
  // request of the running fiber to the scheduler
  int reqN = 0, reqReply = 0; bool reqFault = false; const char* reqWhat = "";
  int reqKillProc = -1, reqFreezeProc = -1;
  std::string fatal;           // set by the fiber that died (assertion, terminate, signal)
};

extern Sim* S;
extern Fiber* cur;             // running fiber, null outside

inline bool active() { return cur != nullptr; }
void point(const char* what);                                        // the caller may be preempted here
bool block(const char* what, std::function<bool()> ready, uint64_t deadline = kForever);  // false: deadline passed
void yield();
int ask(int n, const char* what, bool fault);                        // choice 0..n-1 made by the explorer; fault: 0 is free, others cost a fault
[[noreturn]] void dieHere();                                         // the current fiber's process has been killed; never returns
[[noreturn]] void fatal(const std::string& why);
void problem(const std::string& what);                               // recorded; the run fails at its end
void acquire(const VC& v);
void release(VC& v);                                                 // v = v join current, then advance
// hooks other interposers register
extern std::vector<void (*)()> onReset;                              // before every execution
extern std::vector<void (*)(int proc)> onProcDeath;
extern std::vector<void (*)(bool abandoned)> onEnd;                           // after every execution
void* real(const char* name);
// allocations made by the simulator itself are not tracked
extern char* g_tls; extern size_t g_tlsSize;   // where the program's thread-local variables live
extern int g_internal;
extern int g_resolving;
struct Internal {
  __attribute__((no_sanitize("thread"), noinline)) Internal() { g_internal++; }
  __attribute__((no_sanitize("thread"), noinline)) ~Internal() { g_internal--; }
};

}  // namespace sim
