// T12: sort, topk, cumsum, multinomial.
#include <set>
#include "refops.h"
#include "Utils/RandomGenerator.h"
using namespace mc;

namespace {
const double inf = std::numeric_limits<double>::infinity();
const std::vector<DType> dts = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

// visits every slice of shape s along dim: f(offset of the first element, stride)
template <class F> void slices(const Sh& s, int64_t dim, F f) {
  RT d; d.s = s; auto st = d.strides();
  forEach(s, [&](const Sh& i) {
    if (i[dim]) return;
    int64_t o = 0; for (size_t k = 0; k < i.size(); k++) o += i[k] * st[k];
    f(o, st[dim]);
  });
}
// values/indices of `out` (k entries along dim) are a legal answer for selecting from in
void checkPick(Ctx& c, const std::string& key, const RT& in, int64_t dim, const TensorPair& out, int64_t k, bool largest, bool ordered, DType dt) {
  Sh os = in.s; os[dim] = k;
  if (!out.first.defined() || !out.second.defined()) c.fail(key + "-undefined", "undefined result");
  if (shapeOf(out.first) != os || shapeOf(out.second) != os)
    c.fail(key + "-shape", "shapes %s %s, expected %s", str(shapeOf(out.first)).c_str(), str(shapeOf(out.second)).c_str(), str(os).c_str());
  if (out.first.dtype() != dt) c.fail(key + "-dtype", "values have another type");
  if (out.second.dtype() != DType::Int64) c.fail(key + "-index-dtype", "indices are not 64-bit integers");
  if (numelOf(os) == 0) return;
  auto v = rawValues(out.first), x = rawValues(out.second);
  std::vector<int64_t> ob, os2;
  slices(os, dim, [&](int64_t o, int64_t) { ob.push_back(o); });
  RT od; od.s = os; int64_t ostr = od.strides()[dim];
  size_t q = 0;
  slices(in.s, dim, [&](int64_t o, int64_t st) {
    int64_t oo = ob[q++], n = in.s[dim];
    std::vector<double> all; for (int64_t j = 0; j < n; j++) all.push_back(in.v[o + j * st]);
    std::vector<double> sorted = all;
    if (largest) std::sort(sorted.rbegin(), sorted.rend()); else std::sort(sorted.begin(), sorted.end());
    std::vector<double> got; std::set<int64_t> used;
    for (int64_t j = 0; j < k; j++) {
      double val = v[oo + j * ostr]; int64_t ix = (int64_t)x[oo + j * ostr];
      got.push_back(val);
      if (ix < 0 || ix >= n) c.fail(key + "-index-range", "index %ld of slice of %ld", (long)ix, (long)n);
      if (!used.insert(ix).second) c.fail(key + "-index-twice", "index %ld used twice", (long)ix);
      if (all[ix] != val) c.fail(key + "-index-wrong", "index %ld holds %g, value says %g; slice %s", (long)ix, all[ix], val, str(all).c_str());
    }
    if (!ordered) { if (largest) std::sort(got.rbegin(), got.rend()); else std::sort(got.begin(), got.end()); }
    sorted.resize(k);
    if (got != sorted) c.fail(key, "slice %s gives %s, expected %s", str(all).c_str(), str(got).c_str(), str(sorted).c_str());
  });
}
RT refCumsum(const RT& a, int64_t dim) {
  RT o(a.s);
  slices(a.s, dim, [&](int64_t b, int64_t st) { double s = 0; for (int64_t j = 0; j < a.s[dim]; j++) o.v[b + j * st] = s += a.v[b + j * st]; });
  return o;
}
std::vector<double> data(int64_t n, DType dt, int pat) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) {
    double x = ((i * 37 + 11) % 61) - 30;
    if (pat == 1) x = (double)((i * 5) % 3) - 1;         // many ties
    if (pat == 2) x = (double)-i;                        // reversed
    if (pat == 3) x = i % 4 == 1 ? -inf : i % 4 == 3 ? inf : x;
    if (dt == DType::Bool) x = ((int64_t)i * 5 % 3) == 1;
    v[i] = roundTo(x, dt);
  }
  return v;
}
void one(Ctx& c, const Sh& s, int64_t dim, DType dt, int pat, int prov) {
  std::vector<Tensor> keep;
  RT in(s, data(numelOf(s), dt, pat));
  int64_t d = normDim(dim, (int64_t)s.size()), n = s[d];
  Tensor t = mk(in, dt, false, prov, &keep);
  int what = c.pick(4);
  bool flag = c.flip();
  if (what == 0) {
    c.desc("sort %s dim %ld descending %d %s pattern %d %s", str(s).c_str(), (long)dim, flag, dtName(dt), pat, provName(prov)); c.site("sort");
    checkPick(c, "sort", in, d, function::sort(t, dim, flag), n, flag, true, dt);
    checkPick(c, "sort-op", in, d, op::sort(t, dim, flag), n, flag, true, dt);
  } else if (what == 3) {
    if (flag || dt == DType::Bool || pat == 3) c.skip();
    c.desc("cumsum %s dim %ld %s pattern %d %s", str(s).c_str(), (long)dim, dtName(dt), pat, provName(prov)); c.site("cumsum");
    RT want = refCumsum(in, d);
    for (auto& x : want.v) x = roundTo(x, dt);
    double e = dt == DType::Float32 ? 1e-6 : dt == DType::Float16 ? 1e-3 : dt == DType::BFloat16 ? 8e-3 : 0;
    expect(c, "cumsum", function::cumsum(t, dim), want, e, e);
  } else {
    int64_t k = 1 + c.pick((int)std::max<int64_t>(1, std::min<int64_t>(n, 4)));
    if (n == 0) c.skip();
    if (k == 4) k = n;
    bool sorted = what == 1;
    c.desc("topk %s k %ld dim %ld largest %d sorted %d %s pattern %d %s", str(s).c_str(), (long)k, (long)dim, flag, sorted, dtName(dt), pat, provName(prov)); c.site("topk");
    checkPick(c, "topk", in, d, function::topk(t, k, dim, flag, sorted), k, flag, sorted, dt);
  }
  expect(c, "sampling-input-changed", t, in);
  c.outcome(mix(hashRT(in), d * 8 + what * 2 + flag));
  if (s.size() > 1) c.nontrivial();
}
void fShapes(Ctx& c) {
  static const auto shapes = [] {
    auto v = allShapes(1, 3, {0, 1, 2, 3, 5});
    auto s4 = allShapes(4, 4, {1, 2, 3}); v.insert(v.end(), s4.begin(), s4.end());
    return v;
  }();
  const Sh& s = shapes[c.pick((int)shapes.size())];
  int64_t dim = c.pick((int)s.size() * 2) - (int64_t)s.size();
  DType dt = c.pick(dts);
  int prov = c.pick(3), pat = c.pick(4);
  if (!c.thorough() && ((prov && pat) || (s.size() > 2 && prov == 2) || (s.size() == 4 && (prov || pat > 1)))) c.skip();
  if (pat == 3 && (dt == DType::Int32 || dt == DType::Int64 || dt == DType::Bool)) c.skip();
  if (dt == DType::Bool && pat) c.skip();
  one(c, s, dim, dt, pat, prov);
}
void fLong(Ctx& c) {
  Sh s = c.pick(std::vector<Sh>{{17}, {33}, {100}, {257}, {1025}, {2, 40}, {40, 3}, {3, 300, 2}});
  one(c, s, c.pick((int)s.size()), c.pick(dts), c.pick(3), 0);
}
void fValues(Ctx& c) {
  // every sequence over a small alphabet
  int n = 1 + c.pick(c.thorough() ? 6 : 5);
  std::vector<double> v(n);
  for (auto& x : v) x = c.pick({0.0, -1.0, 2.0, 0.5});
  RT in(Sh{n}, v);
  Tensor t = mk(in);
  bool desc = c.flip();
  c.desc("sort/topk/cumsum of %s flag %d", str(v).c_str(), desc); c.site("sort");
  checkPick(c, "sort", in, 0, function::sort(t, 0, desc), n, desc, true, DType::Float32);
  for (int k = 1; k <= n; k++) {
    checkPick(c, "topk", in, 0, function::topk(t, k, 0, desc, true), k, desc, true, DType::Float32);
    checkPick(c, "topk-unsorted", in, 0, function::topk(t, k, -1, desc, false), k, desc, false, DType::Float32);
  }
  expect(c, "cumsum", function::cumsum(t, 0), refCumsum(in, 0));
  c.nontrivial(); c.outcome(hashRT(in));
}
void fPerms(Ctx& c) {
  // every permutation of up to 6 (7) distinct values, as rows and as columns
  int n = 2 + c.pick(c.thorough() ? 6 : 5);
  std::vector<double> left; for (int i = 0; i < n; i++) left.push_back(i * 3 - 4);
  std::vector<double> v;
  while (!left.empty()) { int k = c.pick((int)left.size()); v.push_back(left[k]); left.erase(left.begin() + k); }
  bool col = c.flip(), desc = c.flip();
  DType dt = c.pick({DType::Float32, DType::Int64});
  std::vector<double> two(2 * n);
  for (int i = 0; i < n; i++) { two[col ? i * 2 : i] = v[i]; two[col ? i * 2 + 1 : n + i] = -v[i]; }
  RT in(col ? Sh{n, 2} : Sh{2, n}, two);
  int64_t d = col ? 0 : 1;
  Tensor t = mk(in, dt);
  c.desc("permutation %s %s flag %d %s", str(v).c_str(), col ? "column" : "row", desc, dtName(dt)); c.site("sort");
  checkPick(c, "sort", in, d, function::sort(t, d, desc), n, desc, true, dt);
  for (int k = 1; k <= n; k++) checkPick(c, "topk", in, d, function::topk(t, k, d, desc, true), k, desc, true, dt);
  expect(c, "cumsum", function::cumsum(t, d), refCumsum(in, d));
  c.nontrivial(); c.outcome(hashRT(in));
}
void fCumLong(Ctx& c) {
  int64_t n = c.pick({300, 2049, 5000});
  DType dt = c.pick({DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64});
  double x = c.pick({1.0, 0.25});
  if (x != 1 && (dt == DType::Int32 || dt == DType::Int64)) c.skip();
  RT in(Sh{n, 2}); for (auto& v : in.v) v = x;
  c.desc("cumsum of %ld times %g in %s", (long)n, x, dtName(dt)); c.site("cumsum");
  RT want = refCumsum(in, 0);
  for (auto& w : want.v) w = roundTo(w, dt);
  double e = dt == DType::Float32 ? 1e-6 : dt == DType::Float16 ? 1e-3 : dt == DType::BFloat16 ? 8e-3 : 0;
  expect(c, "cumsum-long", function::cumsum(mk(in, dt), 0), want, e);
  c.nontrivial();
}
// a seed after which the first number drawn from the library's engine is v (for a minimal-standard
// engine; for any other engine it is just another seed)
unsigned long seedFor(uint64_t v) {
  const uint64_t m = 2147483647ull, inv = 1407677000ull;  // 16807^-1 mod m
  return (unsigned long)((unsigned __int128)v * inv % m);
}
void fMultinomial(Ctx& c) {
  int rows = c.pick(3);  // 0: one-dimensional
  int n = 1 + c.pick(c.thorough() ? 5 : 4);
  bool repl = c.flip();
  std::vector<double> p;
  int pos = n;
  for (int r = 0; r < std::max(1, rows); r++) {
    int k = 0;
    for (int i = 0; i < n; i++) { double x = rows == 2 && r == 1 ? c.pick({0.0, 2.0}) : c.pick({0.0, 0.25, 3.0}); p.push_back(x); k += x > 0; }
    pos = std::min(pos, k);
  }
  if (pos == 0) c.skip();
  int ns = 1 + c.pick(repl ? 4 : pos);
  DType dt = c.pick({DType::Float32, DType::Float16});
  if (dt == DType::Float16 && n > 3) c.skip();
  Tensor t = mk(rows ? Sh{rows, n} : Sh{n}, p, dt);
  c.desc("multinomial of %s rows %d, %d samples, replacement %d, %s", str(p).c_str(), rows, ns, repl, dtName(dt)); c.site("multinomial");
  const uint64_t m = 2147483647ull;
  std::vector<unsigned long> seeds = {seedFor(1), seedFor(2), seedFor(m - 1), seedFor(m - 2), seedFor(m / 2), seedFor(m / 13), seedFor(m / 13 + 1)};
  for (unsigned long s = 0; s < (c.thorough() ? 40ul : 6ul); s++) seeds.push_back(s);
  for (auto s : seeds) {
    manualSeed(s);
    Tensor r = function::multinomial(t, ns, repl);
    Sh ws = rows ? Sh{rows, ns} : Sh{ns};
    if (shapeOf(r) != ws) c.fail("multinomial-shape", "shape %s", str(shapeOf(r)).c_str());
    if (r.dtype() != DType::Int64) c.fail("multinomial-dtype", "not 64-bit integers");
    auto v = rawValues(r);
    for (int q = 0; q < std::max(1, rows); q++) {
      std::set<int> used;
      for (int i = 0; i < ns; i++) {
        int x = (int)v[q * ns + i];
        if (x < 0 || x >= n) c.fail("multinomial-range", "seed %lu draws %d of %d", s, x, n);
        if (p[q * n + x] <= 0) c.fail("multinomial-zero", "seed %lu draws index %d which has probability 0", s, x);
        if (!used.insert(x).second && !repl) c.fail("multinomial-repeat", "seed %lu draws index %d twice without replacement", s, x);
      }
    }
  }
  c.executions(seeds.size());
  c.nontrivial(); c.outcome(hashRT(RT(Sh{(int64_t)p.size()}, p)));
}
// weights of very different size: drawing all of them without replacement gives each positive one once
void fWeights(Ctx& c) {
  static const double W[] = {0, 1e-6, 1, 3, 5e7, 1e12, 1e-30};
  int two = c.flip(), n = 2 + c.pick(c.thorough() ? 4 : 3);
  int k = n > 4 ? 5 : n > 3 && !c.thorough() ? 6 : 7;
  std::vector<double> w; int pos = 0;
  for (int i = 0; i < n; i++) { double x = W[c.pick(k)]; w.push_back(x); pos += x > 0; }
  if (pos < 2) c.skip();
  c.desc("multinomial of %s, %d samples without replacement%s", str(w).c_str(), pos, two ? ", second row reversed" : ""); c.site("multinomial");
  std::vector<double> v = w;
  if (two) v.insert(v.end(), w.rbegin(), w.rend());
  Tensor t = mk(two ? Sh{2, n} : Sh{n}, v);
  const uint64_t m = 2147483647ull;
  std::vector<unsigned long> seeds = {seedFor(1), seedFor(m - 1), seedFor(m / 2)};
  for (unsigned long s = 0; s < (c.thorough() ? 12ul : 4ul); s++) seeds.push_back(s);
  for (auto s : seeds) {
    manualSeed(s);
    auto r = rawValues(function::multinomial(t, pos, false));
    if ((int)r.size() != pos * (1 + two)) c.fail("multinomial-shape", "%zu samples", r.size());
    for (int q = 0; q <= two; q++) {
      std::set<int> used;
      for (int i = 0; i < pos; i++) {
        int x = (int)r[q * pos + i];
        if (x < 0 || x >= n) c.fail("multinomial-range", "seed %lu draws %d of %d", s, x, n);
        if (v[q * n + x] <= 0) c.fail("multinomial-zero", "seed %lu draws index %d which has probability 0", s, x);
        if (!used.insert(x).second) c.fail("multinomial-repeat", "seed %lu draws index %d twice without replacement", s, x);
      }
    }
  }
  c.executions(seeds.size());
  c.nontrivial(); c.outcome(hashRT(RT(Sh{(int64_t)w.size()}, w)));
}
void fFrequency(Ctx& c) {
  auto w = c.pick(std::vector<std::vector<double>>{{1, 1}, {1, 3}, {1, 0, 2}, {5, 3, 2}, {0, 0, 1, 1, 2}});
  unsigned long seed = 1 + c.pick(5);
  c.desc("frequencies of %s, seed %lu", str(w).c_str(), seed); c.site("multinomial");
  manualSeed(seed);
  const int N = 20000;
  auto v = rawValues(function::multinomial(mk(Sh{(int64_t)w.size()}, w), N, true));
  double tot = 0; for (double x : w) tot += x;
  std::vector<double> cnt(w.size()); for (double x : v) cnt[(int)x]++;
  for (size_t i = 0; i < w.size(); i++)
    if (std::fabs(cnt[i] / N - w[i] / tot) > 0.04) c.fail("multinomial-frequency", "index %zu drawn %g of the time, probability %g", i, cnt[i] / N, w[i] / tot);
  c.nontrivial();
}
struct Reg { Reg() {
  add("shapes", "sort/topk/cumsum: every shape up to rank 4 x dim (negative too) x type x provenance x pattern x flags x k", fShapes, 3);
  add("long", "slices of 17-1025 elements in every type", fLong, 3);
  add("values", "every sequence over 4 values up to length 5 (6), every k and flag", fValues, 4);
  add("perms", "every permutation of up to 6 (7) values, rows and columns", fPerms, 4);
  add("cumsum-long", "long prefix sums in every type", fCumLong, 2);
  add("multinomial", "every weight assignment over {0,.25,3} up to 4 (5) categories, 1-2 rows, every sample count, with/without replacement, seeds forcing the extreme draws", fMultinomial, 4);
  add("weights", "every assignment of weights from 1e-30 to 1e12 to up to 4 (5) categories, all drawn without replacement", fWeights, 3);
  add("frequency", "long-run frequencies", fFrequency, 2);
} } reg;
}  // namespace
