// P05: the distributed sampler partitions every epoch's permutation evenly over the replicas.
#include <memory>
#include <set>
#include "tt.h"
#include "Data/DataLoader.h"
#include "Distributed/DistributedProcessGroup.h"
#include "Distributed/DistributedSampler.h"
#include "Utils/RandomGenerator.h"
using namespace mc;
using namespace tinytorch::distributed;
namespace {
typedef std::vector<size_t> Ix;
std::string show(const Ix& v) { std::string s; for (size_t i = 0; i < v.size() && i < 30; i++) s += std::to_string(v[i]) + " "; return s; }
// all replicas' indices of one epoch: the partition rules
std::vector<Ix> epochOf(Ctx& c, std::vector<std::unique_ptr<DistributedSampler>>& reps, size_t n, bool drop) {
  size_t R = reps.size(), want = drop ? n / R : (n + R - 1) / R;
  std::vector<Ix> out; std::vector<size_t> count(n, 0);
  for (size_t r = 0; r < R; r++) {
    Ix v = reps[r]->indices();
    if (reps[r]->size() != want || v.size() != want) c.fail("equal-share", "replica %zu of %zu has %zu indices and size() %zu, expected %zu", r, R, v.size(), reps[r]->size(), want);
    for (size_t i : v) { if (i >= n) c.fail("valid", "replica %zu has index %zu of %zu samples", r, i, n); count[i]++; }
    out.push_back(v);
  }
  size_t total = want * R, dup = 0;
  for (size_t i = 0; i < n; i++) {
    if (drop && count[i] > 1) c.fail("drop-last-repeat", "sample %zu appears %zu times with drop-last", i, count[i]);
    if (!drop && count[i] == 0) c.fail("cover", "sample %zu is on no replica", i);
    dup += count[i] > 1 ? count[i] - 1 : 0;
  }
  if (!drop && dup != total - n) c.fail("padding", "%zu repeats, expected %zu", dup, total - n);
  return out;
}
Ix joined(const std::vector<Ix>& v) { Ix o; for (auto& x : v) o.insert(o.end(), x.begin(), x.end()); return o; }
std::vector<std::unique_ptr<DistributedSampler>> make(size_t n, size_t R, bool sh, unsigned long seed, bool drop) {
  std::vector<std::unique_ptr<DistributedSampler>> v; for (size_t r = 0; r < R; r++) v.push_back(std::make_unique<DistributedSampler>(n, R, r, sh, seed, drop)); return v;
}
void fGrid(Ctx& c) {
  size_t n = c.pick(c.thorough() ? 66 : 34), R = 1 + c.pick(c.thorough() ? 20 : 12); bool sh = c.flip(), drop = c.flip(); unsigned long seed = c.pick({0, 1, 7}); 
  c.desc("%zu samples, %zu replicas, shuffle %d, seed %lu, drop-last %d", n, R, sh, seed, drop); if (R > 1 && n % R) c.nontrivial();
  auto reps = make(n, R, sh, seed, drop); std::set<Ix> orders; Ix first;
  for (int e = 0; e < 3; e++) {
    if (e) for (auto& r : reps) r->setEpoch(e);
    auto v = epochOf(c, reps, n, drop); Ix j = joined(v); orders.insert(j); if (e == 0) first = j;
    if (!sh) { Ix all = j; std::sort(all.begin(), all.end()); Ix ref; size_t total = (drop ? n / R : (n + R - 1) / R) * R; for (size_t i = 0; i < total; i++) ref.push_back(i % n); std::sort(ref.begin(), ref.end()); if (all != ref) c.fail("plain", "without shuffling the replicas hold {%s}", show(all).c_str()); }
  }
  if (sh && n >= 12 && (!drop || n >= R * 2) && orders.size() < 3) c.fail("reshuffle", "three epochs share an order");
  if (!sh && orders.size() != 1) c.fail("plain-epoch", "without shuffling epochs differ");
  // an epoch is a function of seed and epoch number only: going back gives the same order, whatever the shared stream
  manualSeed(n + 3); for (auto& r : reps) r->setEpoch(0);
  if (joined(epochOf(c, reps, n, drop)) != first) c.fail("epoch-function", "epoch 0 differs the second time");
  manualSeed(n + 4); auto again = make(n, R, sh, seed, drop);
  if (joined(epochOf(c, again, n, drop)) != first) c.fail("agree", "other samplers with the same seed disagree");
  if (sh && n >= 12 && (!drop || n >= R * 2)) { auto other = make(n, R, sh, seed + 100, drop); if (joined(epochOf(c, other, n, drop)) == first) c.fail("seed", "seeds %lu and %lu give one order", seed, seed + 100); }
}
// replicas agree whatever each one's own history: built later, other epochs before, random draws in between
void fHist(Ctx& c) {
  size_t n = c.pick({5, 12, 13}), R = c.pick({2, 3}); bool drop = c.flip(); int d = c.thorough() ? 5 : 4; std::string ds;
  auto reps = make(n, R, true, 3, drop); std::vector<size_t> ep(R, 0);
  for (int i = 0; i < d; i++) {
    int a = c.pick(2 + (int)R * 2);
    if (a == 0) { (void)Tensor::rand(iv(Sh{3})); ds += "draw "; }
    else if (a == 1) { manualSeed(1); ds += "seed "; }
    else { size_t r = (a - 2) / 2, e = (a - 2) % 2 ? 2 : ep[r] + 1; ep[r] = e; reps[r]->setEpoch(e); ds += "r" + std::to_string(r) + ":epoch" + std::to_string(e) + " "; }
  }
  size_t e = c.pick(3); for (auto& r : reps) r->setEpoch(e);
  c.desc("%zu samples %zu replicas drop %d: %s then all epoch %zu", n, R, drop, ds.c_str(), e); c.nontrivial();
  Ix j = joined(epochOf(c, reps, n, drop)); auto fresh = make(n, R, true, 3, drop); for (auto& r : fresh) r->setEpoch(e);
  if (joined(epochOf(c, fresh, n, drop)) != j) c.fail("history", "the epoch depends on what the replica did before");
}
// through a data loader: every replica's batches, all epochs
struct Ds : tinytorch::data::Dataset { size_t n; explicit Ds(size_t k) : n(k) {} size_t size() const override { return n; } std::vector<Tensor> getItem(size_t i) override { return {mk(Sh{1}, {(double)i})}; } };
void fLoader(Ctx& c) {
  size_t n = c.pick({1, 7, 12, 20}), R = 1 + c.pick(4), bs = 1 + c.pick(4); bool sh = c.flip(), drop = c.flip();
  c.desc("loader: %zu samples, %zu replicas, batch %zu, shuffle %d, drop-last %d", n, R, bs, sh, drop); if (R > 1) c.nontrivial();
  std::vector<std::shared_ptr<DistributedSampler>> s; std::vector<std::unique_ptr<tinytorch::data::DataLoader>> l; auto ds = std::make_shared<Ds>(n);
  for (size_t r = 0; r < R; r++) { s.push_back(std::make_shared<DistributedSampler>(n, R, r, sh, 5, drop)); l.push_back(std::make_unique<tinytorch::data::DataLoader>(ds, bs, s[r])); }
  for (int e = 0; e < 2; e++) for (size_t r = 0; r < R; r++) {
    s[r]->setEpoch(e); Ix got, want = s[r]->indices(); size_t nb = 0; for (const auto& [i, b] : *l[r]) { nb++; for (double x : rawValues(b[0])) got.push_back((size_t)x); }
    if (got != want) c.fail("loader", "replica %zu epoch %d loads {%s}, its sampler says {%s}", r, e, show(got).c_str(), show(want).c_str());
    if (nb != (want.size() + bs - 1) / bs || l[r]->size() != nb) c.fail("loader-count", "%zu batches", nb);
  }
}
// counts of large datasets are exact
void fLarge(Ctx& c) {
  size_t n = c.pick(std::vector<size_t>{16777216, 16777217, 16777219, 33554433, 50000001}) ; size_t R = c.pick({1, 2, 3, 7}); bool drop = c.flip();
  c.desc("%zu samples, %zu replicas, drop-last %d", n, R, drop); c.nontrivial();
  size_t want = drop ? n / R : (n + R - 1) / R;
  DistributedSampler s(n, R, R - 1, false, 0, drop);
  if (s.size() != want) c.fail("large-count", "%zu indices, expected %zu", s.size(), want);
  Ix v = s.indices(); for (size_t i : v) if (i >= n) c.fail("large-valid", "index %zu of %zu", i, n);
}
// rank and size from the process group, and explicit values over it
void fGroup(Ctx& c) {
  int R = 1 + c.pick(4), rank = c.pick(R); bool giveR = c.flip(), giveRank = c.flip();
  c.desc("process group of %d, rank %d, explicit size %d rank %d", R, rank, giveR, giveRank); c.nontrivial();
  std::string f = scratchDir() + "/store";
  auto dpg = DistributedProcessGroup::getInstance(); dpg->destroyProcessGroup();
  if (!dpg->initProcessGroup(NCCL, "file://" + f, rank, R)) c.fail("group", "the process group does not start");
  size_t effR = giveR ? 5 : R, effRank = giveRank ? 0 : rank;
  DistributedSampler a(17, giveR ? std::optional<size_t>(5) : std::nullopt, giveRank ? std::optional<size_t>(0) : std::nullopt, true, 2), b(17, effR, effRank, true, 2);
  if (a.indices() != b.indices()) c.fail("group", "sampler uses another rank or size than the process group's");
  dpg->destroyProcessGroup();
}
struct Reg { Reg() {
  add("grid", "every size up to 33 (65), 1-12 (20) replicas, shuffle, seed, drop-last: three epochs, all ranks", fGrid, 3);
  add("history", "every history of epoch changes and random draws on the replicas before a common epoch", fHist, 3);
  add("loader", "batches of every replica through the data loader, two epochs", fLoader, 2);
  add("large", "datasets beyond 2^24 samples", fLarge, 1);
  add("group", "rank and size taken from the process group", fGroup, 1);
} } reg;
}  // namespace
