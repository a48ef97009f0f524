// Emulated NCCL on the emulated GPUs: replicas are fibers of one thread.  A collective is work on every replica's
// stream that runs when all of them have reached it.  Host calls that wait (sleeping, locks, asking again) hand
// over to the scheduler in the harness; time passes only by sleeping.
#pragma once
#include "../cuda/nccl.h"
#include <chrono>
#include <functional>
#include <string>
namespace ncclemu {
struct Mode {
  int slow = 0;                    // so many questions after the end of a group are answered "in progress"
  int failAt = 0; ncclResult_t failWith = ncclInternalError;   // the n-th call that can fail does (0: none)
  int asyncAt = 0;                 // the n-th group that ends is found to have failed later
};
extern Mode mode;
void reset();                      // forgets communicators; calls count from 1
int calls();                       // calls that can fail so far, of all replicas
int openComms();                   // communicators neither destroyed nor aborted
int who();                         // replica that is running, -1 outside
// ---- replicas
// Runs the replicas' programs; choose(n) decides between n ways to go on, 0 is the usual one.
// False: they wait for each other for ever.
bool run(const std::vector<std::function<void()>>& replicas, const std::function<int(int)>& choose, int deviations);
void yield();                      // another replica may go on here
long now();                        // milliseconds of the emulated clock
void pass(long ms);                // sleeps
uint64_t switches();
}
