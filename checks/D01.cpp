// D01: every epoch of a data loader yields each selected sample once, in sampler order, in full batches.
#include <memory>
#include <set>
#include "tt.h"
#include "Data/DataLoader.h"
#include "Utils/RandomGenerator.h"
using namespace mc;
using namespace tinytorch::data;
namespace {
struct Set : Dataset {
  size_t n; int outs; mutable std::vector<size_t> asked;
  Set(size_t n_, int o) : n(n_), outs(o) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    asked.push_back(i);
    std::vector<Tensor> r; r.push_back(mk(Sh{2}, {(double)i, -(double)i - 0.5}));
    if (outs > 1) r.push_back(Tensor::scalar((int64_t)i * 3, options::dtype(DType::Int64)));
    if (outs > 2) r.push_back(mk(Sh{1, 2}, {(double)i, 7}, DType::Int32));
    return r;
  }
};
struct Fixed : Sampler { std::vector<size_t> v; explicit Fixed(std::vector<size_t> x) : v(std::move(x)) {} std::vector<size_t> indices() const override { return v; } size_t size() const override { return v.size(); } };
// iterates once; returns the order of samples seen; all structural checks
std::vector<size_t> epoch(Ctx& c, const DataLoader& l, Set& ds, size_t selected, size_t bs, bool drop, bool twiceDeref = false) {
  std::vector<size_t> seen; size_t nb = 0, want = drop ? selected / bs : (selected + bs - 1) / bs;
  if (l.size() != want) c.fail("size", "size() is %zu, expected %zu batches", l.size(), want);
  if (l.batchSize() != bs || l.dataset().size() != ds.size()) c.fail("accessors", "batchSize %zu dataset %zu", l.batchSize(), l.dataset().size());
  ds.asked.clear();
  for (auto it = l.begin(); it != l.end(); ++it) {
    auto [idx, batch] = *it;
    if (twiceDeref) { auto [i2, b2] = *it; if (i2 != idx || b2.size() != batch.size() || rawValues(b2[0]) != rawValues(batch[0])) c.fail("deref", "a second look at batch %zu differs", idx); }
    if (idx != nb) c.fail("batch-index", "batch reports index %zu, expected %zu", idx, nb);
    if (nb >= want) c.fail("too-many", "more than %zu batches", want);
    if ((int)batch.size() != ds.outs) c.fail("outputs", "%zu tensors per batch, expected %d", batch.size(), ds.outs);
    int64_t expectN = (int64_t)std::min(bs, selected - nb * bs);
    Sh s0 = shapeOf(batch[0]);
    if (s0 != Sh{expectN, 2}) c.fail("batch-shape", "batch %zu has shape %s, expected [%ld,2]", nb, str(s0).c_str(), (long)expectN);
    auto v = rawValues(batch[0]);
    std::vector<size_t> here;
    for (int64_t i = 0; i < expectN; i++) { here.push_back((size_t)v[i * 2]); if (v[i * 2 + 1] != -v[i * 2] - 0.5) c.fail("mixed", "row %ld of batch %zu mixes samples", (long)i, nb); }
    if (ds.outs > 1) { expect(c, "labels", batch[1], [&] { RT r(Sh{expectN}); for (int64_t i = 0; i < expectN; i++) r.v[i] = (double)here[i] * 3; return r; }()); if (batch[1].dtype() != DType::Int64) c.fail("label-type", "labels are %s", dtName(batch[1].dtype())); }
    if (ds.outs > 2) expect(c, "third", batch[2], [&] { RT r(Sh{expectN, 1, 2}); for (int64_t i = 0; i < expectN; i++) { r.v[i * 2] = (double)here[i]; r.v[i * 2 + 1] = 7; } return r; }());
    seen.insert(seen.end(), here.begin(), here.end());
    nb++;
  }
  if (nb != want) c.fail("count", "%zu batches yielded, size() says %zu", nb, want);
  return seen;
}
void order(Ctx& c, const std::vector<size_t>& seen, const std::vector<size_t>& want) {
  if (seen != want) { std::string a, b; for (auto x : seen) a += std::to_string(x) + " "; for (auto x : want) b += std::to_string(x) + " "; c.fail("order", "samples {%s}, expected {%s}", a.c_str(), b.c_str()); }
}
void fPlain(Ctx& c) {
  size_t n = c.pick(c.thorough() ? 40 : 20), bs = 1 + c.pick(c.thorough() ? 24 : 13); bool drop = c.flip(), shuffle = c.flip(); int outs = 1 + c.pick(3);
  unsigned long seed = c.pick({0, 1, 77});
  c.desc("%zu samples, batch %zu, drop %d, shuffle %d, %d outputs, seed %lu", n, bs, drop, shuffle, outs, seed);
  if (n > bs) c.nontrivial();
  auto ds = std::make_shared<Set>(n, outs);
  manualSeed(seed);
  DataLoader l(ds, bs, nullptr, shuffle, drop);
  size_t used = drop ? n / bs * bs : n;
  std::vector<size_t> seq(n); std::iota(seq.begin(), seq.end(), 0);
  auto a = epoch(c, l, *ds, n, bs, drop, n < 4);
  if (!shuffle) order(c, a, std::vector<size_t>(seq.begin(), seq.begin() + used));
  std::set<size_t> sa(a.begin(), a.end());
  if (sa.size() != a.size() || a.size() != used || (used && *sa.rbegin() >= n)) c.fail("once", "samples are not visited exactly once");
  auto b = epoch(c, l, *ds, n, bs, drop);
  auto sb = std::set<size_t>(b.begin(), b.end());
  if (!drop && sa != sb) c.fail("second", "a second iteration visits another set");
  if (b.size() != a.size() || sb.size() != b.size()) c.fail("second-once", "a second iteration does not visit each sample once");
  if (shuffle) {  // determined by the seed
    manualSeed(seed); DataLoader l2(ds, bs, nullptr, true, drop);
    order(c, epoch(c, l2, *ds, n, bs, drop), a);
    DataLoader l3(ds, bs, nullptr, true, drop);
    auto d = epoch(c, l3, *ds, n, bs, drop);
    if (used >= 10 && d == a) c.fail("same-again", "two shuffled loaders in a row use the same permutation");
    if (used >= 10 && a == std::vector<size_t>(seq.begin(), seq.begin() + used)) c.fail("not-shuffled", "shuffling leaves the index order");
  }
}
// every selection of a sampler, including subsets, repeats and other orders
void fSampler(Ctx& c) {
  int n = 1 + c.pick(4), k = c.pick(c.thorough() ? 6 : 5); size_t bs = 1 + c.pick(4); bool drop = c.flip();
  std::vector<size_t> sel; std::string d; for (int i = 0; i < k; i++) { sel.push_back(c.pick(n)); d += std::to_string(sel.back()); }
  c.desc("%d samples, sampler {%s}, batch %zu, drop %d", n, d.c_str(), bs, drop); if (k > 1) c.nontrivial();
  auto ds = std::make_shared<Set>(n, 2);
  bool shuffleFlag = (k + n) & 1;  // ignored with a sampler
  DataLoader l(ds, bs, std::make_shared<Fixed>(sel), shuffleFlag, drop);
  std::vector<size_t> want(sel.begin(), sel.begin() + (drop ? sel.size() / bs * bs : sel.size()));
  order(c, epoch(c, l, *ds, k, bs, drop), want);
  order(c, epoch(c, l, *ds, k, bs, drop), want);
  // two iterations at once do not disturb each other
  auto i1 = l.begin(); auto i2 = l.begin();
  if (l.size() > 1) { ++i1; auto [x1, b1] = *i1; auto [x2, b2] = *i2; if (x1 != 1 || x2 != 0 || rawValues(b2[0])[0] != (double)want[0] || rawValues(b1[0])[0] != (double)want[bs]) c.fail("interleaved", "interleaved iterators disturb each other"); }
}
// histories of epochs and iterations over the built-in samplers
void fEpochs(Ctx& c) {
  size_t n = c.pick({0, 1, 2, 7, 12}), bs = c.pick({1, 2, 5, 20}); unsigned long seed = c.pick({0, 1, 5}); bool random = c.pick(3) != 0;
  auto ds = std::make_shared<Set>(n, 1);
  std::shared_ptr<Sampler> s; if (random) s = std::make_shared<RandomSampler>(n, seed); else s = std::make_shared<SequentialSampler>(n);
  DataLoader l(ds, bs, s);
  c.desc("%s sampler over %zu, seed %lu, batch %zu:", random ? "random" : "sequential", n, seed, bs);
  if (s->size() != n) c.fail("sampler-size", "sampler size %zu", s->size());
  auto fresh = [&](size_t e) { RandomSampler r(n, seed); r.setEpoch(e); return r.indices(); };
  std::vector<size_t> seq(n); std::iota(seq.begin(), seq.end(), 0);
  size_t e = 0; int depth = c.thorough() ? 5 : 4;
  for (int i = 0; i < depth; i++) {
    int a = c.pick(5);
    switch (a) {
      case 0: e = 0; c.desc("epoch 0;"); s->setEpoch(0); break;
      case 1: e = 1; c.desc("epoch 1;"); s->setEpoch(1); break;
      case 2: e++; c.desc("next epoch;"); s->setEpoch(e); break;
      case 3: c.desc("reseed;"); manualSeed(i * 11 + 3); break;
      case 4: c.desc("draw;"); Tensor::rand(IntArrayView{3}); break;
    }
    auto seen = epoch(c, l, *ds, n, bs, false);
    order(c, seen, random ? fresh(e) : seq);
    auto sorted = seen; std::sort(sorted.begin(), sorted.end());
    if (sorted != seq) c.fail("permutation", "the epoch is not a permutation");
    if (random && n >= 7) {
      if (seen == seq) c.fail("not-shuffled", "epoch %zu is in index order", e);
      if (fresh(e) == fresh(e + 1)) c.fail("same-epochs", "epochs %zu and %zu use the same permutation", e, e + 1);
      RandomSampler o(n, seed + 100); o.setEpoch(e); if (n >= 12 && o.indices() == seen) c.fail("same-seeds", "seeds %lu and %lu use the same permutation", seed, seed + 100);
    }
    c.transition(); c.state(mix(mix(e, n), random));
  }
  if (n > bs) c.nontrivial();
  c.trace();
}
// counts far beyond what can be iterated here
struct Huge : Dataset { size_t n; explicit Huge(size_t x) : n(x) {} size_t size() const override { return n; } std::vector<Tensor> getItem(size_t) override { return {}; } };
void fHuge(Ctx& c) {
  static const std::vector<size_t> sizes = {(1u << 24) - 1, 1u << 24, (1u << 24) + 1, (1u << 24) + 3, 20000001, 33554433};
  size_t n = c.pick(sizes); size_t bs = c.pick({1, 2, 3, 7, 16, 1000, 16777217}); bool drop = c.flip();
  c.desc("%zu samples, batch %zu, drop %d", n, bs, drop); c.nontrivial();
  DataLoader l(std::make_shared<Huge>(n), bs, nullptr, false, drop);
  size_t want = drop ? n / bs : (n + bs - 1) / bs;
  if (l.size() != want) c.fail("huge-size", "size() is %zu, expected %zu", l.size(), want);
}
struct Reg { Reg() {
  add("plain", "0-19 (39) samples x batch 1-13 (24) x drop-last x shuffle x 1-3 tensors per sample x 3 seeds, iterated twice", fPlain, 3);
  add("sampler", "every selection of up to 4 (5) indices out of up to 4 samples, with repeats, x batch size x drop-last", fSampler, 3);
  add("epochs", "every history of 4 (5) epoch changes, reseeds and draws, with a full iteration after each", fEpochs, 3);
  add("huge", "sizes around and beyond 2^24: number of batches", fHuge, 2);
} } reg;
}  // namespace
