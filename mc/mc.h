// Bounded exhaustive explorer.
//
// A "family" is a body that asks the context for choices.  The explorer runs the body once for every
// choice vector (depth first, in order, so the first counterexample is the smallest), in parallel over
// processes: shard s owns the sub-trees whose first `shardDepth` choices hash to s.  Each case is
// deterministic given its choice vector.  A worker that dies or hangs is itself a counterexample: the
// choice vector of the running case is kept in shared memory, the worker is restarted after it.
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <initializer_list>

namespace mc {

struct SkipCase {};
struct FailCase {};
struct NotMine {};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

class Ctx {
 public:
  int tier = 0;  // 0 quick, 1 thorough
  bool thorough() const { return tier == 1; }

  // one choice among n alternatives
  int pick(int n);
  template <class T>
  T pick(const std::vector<T>& v) { return v[pick((int)v.size())]; }
  template <class T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + pick((int)v.size())); }
  bool flip() { return pick(2) == 1; }

  // human-readable description of the case, for reports
  void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void redesc(const std::string& d);  // replaces it
  // names the operation about to run, so that a crash can be attributed
  void site(const char* s);
  [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void skip() { throw SkipCase{}; }
  // the case is an interesting one (counted in the evidence)
  void nontrivial() { nontrivial_ = true; }
  void outcome(uint64_t h);   // counted: number of distinct observed outcomes
  void state(uint64_t h);     // counted: number of distinct abstract states
  void transition(uint64_t n = 1) { transitions_ += n; }
  void trace(uint64_t n = 1) { traces_ += n; }
  void executions(uint64_t n) { extra_ += n; }
  std::string text() const { return desc_; }

  // explorer side
  std::vector<int> choices, arity;
  size_t pos = 0;
  int shardDepth = 2, shard = 0, jobs = 1;
  bool replay = false;
  bool nontrivial_ = false, owned_ = true;
  uint64_t transitions_ = 0, traces_ = 0, extra_ = 0;
  std::string desc_, failKey, failMsg;
};

struct Family {
  const char* name;
  const char* rule;  // what is enumerated and checked
  std::function<void(Ctx&)> body;
  int shardDepth = 2;
  int tierMin = 0;  // 1: thorough only
  double weight = 1;
  int hangSeconds = 30;
};

void add(Family f);
void spoilt();                     // a failed case leaves this process unfit for others: go on in a fresh one
inline void add(const char* name, const char* rule, std::function<void(Ctx&)> body, int shardDepth = 2, int tierMin = 0) {
  add(Family{name, rule, std::move(body), shardDepth, tierMin});
}
// called once in every worker before the first case
void onWorkerStart(std::function<void()> f);
int run(int argc, char** argv);
std::string scratchDir();  // per worker, removed by the parent at the end

}  // namespace mc
