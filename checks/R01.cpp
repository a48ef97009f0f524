// R01: every program of random operations is reproduced by its seed, uses fresh randomness and stays in range.
#include <map>
#include <memory>
#include <set>
#include "tt.h"
#include "Data/DataLoader.h"
#include "Initializer.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
using namespace mc;
using namespace tinytorch::data;
namespace {
typedef std::vector<double> V;
struct Ds : Dataset {
  size_t n; explicit Ds(size_t k) : n(k) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override { return {mk(Sh{1}, {(double)i})}; }
};
V vals(const Tensor& t) { return rawValues(t); }
Options dt(DType t) { return options::dtype(t); }
enum { uRand, uUnif, uFill, uRandn, uNorm, uBern, uDrop, uDropG, uDropM, uMultiR, uMulti, uKaim, uInitN, uInitU, uLin, uConv, uEmb, uShuffle, uAttn, NOps };
const char* on[] = {"rand", "uniform", "fillUniform_", "randn", "fillNormal_", "bernoulli", "dropout", "dropout+grad", "Dropout module", "multinomial replace", "multinomial", "kaimingUniform", "Initializer::normal", "Initializer::uniform", "Linear.resetParameters", "Conv2D.resetParameters", "Embedding.resetParameters", "DataLoader shuffle", "attention dropout"};
// whether equal values in two draws are (almost) impossible
bool continuous(int k) { return k <= uNorm || (k >= uKaim && k <= uEmb); }
// one random operation; k as above; checks ranges; N elements (at least)
V draw(Ctx& c, int k, int64_t N, DType t) {
  V r;
  auto range = [&](const V& v, double lo, double hi) {
    double e = t == DType::Float32 ? 1e-6 : t == DType::Float16 ? 1e-3 : 8e-3; e *= std::max(std::fabs(lo), std::fabs(hi));
    for (double x : v) if (!(x >= lo - e && x <= hi + e)) c.fail(std::string("range:") + on[k], "value %.9g outside [%g,%g]", x, lo, hi);
  };
  auto dropped = [&](const V& v, const V& x, double p) {
    double e = t == DType::Float32 ? 1e-5 : t == DType::Float16 ? 2e-3 : 1.6e-2;
    for (size_t i = 0; i < v.size(); i++) { double w = p >= 1 ? 0 : x[i] / (1 - p); if (v[i] != 0 && !sameD(v[i], w, e, 1e-6)) c.fail("dropout-value", "element %zu is %.9g, expected 0 or %.9g", i, v[i], w); }
    if (v.size() != x.size()) c.fail("dropout-shape", "%zu of %zu elements", v.size(), x.size());
  };
  switch (k) {
    case uRand: r = vals(Tensor::rand(iv(Sh{N}), dt(t))); range(r, 0, 1); break;
    case uUnif: r = vals(Tensor::uniform(iv(Sh{N}), -2, 5, dt(t))); range(r, -2, 5); break;
    case uFill: { Tensor x = mk(Sh{N}, V(N, 9), t); x.fillUniform_(10, 11); r = vals(x); range(r, 10, 11); break; }
    case uRandn: r = vals(Tensor::randn(iv(Sh{N}), dt(t))); range(r, -8, 8); break;
    case uNorm: { Tensor x = mk(Sh{N}, V(N, 9), t); x.fillNormal_(100, 0.5f); r = vals(x); range(r, 95, 105); break; }
    case uBern: { r = vals(Tensor::bernoulli(iv(Sh{N}), 0.5f, dt(t))); for (double x : r) if (x != 0 && x != 1) c.fail("bernoulli-value", "value %.9g", x); break; }
    case uDrop: { V in(N); for (int64_t i = 0; i < N; i++) in[i] = 1 + i % 7; r = vals(function::dropout(mk(Sh{N}, in, t), 0.5f, true)); dropped(r, in, 0.5); break; }
    case uDropG: {
      Tensor x = mk(Sh{N}, V(N, 1), t, true); Tensor y = function::dropout(x, 0.5f, true); r = vals(y); dropped(r, V(N, 1), 0.5);
      y.backward(mk(Sh{N}, V(N, 3), t)); V g = vals(x.grad()); for (int64_t i = 0; i < N; i++) if (!sameD(g[i], r[i] * 3, 1e-2, 1e-6)) c.fail("dropout-mask", "element %ld: output %g gradient %g", (long)i, r[i], g[i]);
      break;
    }
    case uDropM: { nn::Dropout d(0.5f); d.train(); r = vals(d(mk(Sh{N}, V(N, 2), t))); dropped(r, V(N, 2), 0.5); break; }
    case uMultiR: { Tensor w = mk(Sh{5}, {0, 1, 2, 0, 1}, t); Tensor o = function::multinomial(w, N, true); r = vals(o); for (double x : r) if (x != 1 && x != 2 && x != 4) c.fail("multinomial-value", "index %g has no weight", x); break; }
    case uMulti: { V w(N, 1); Tensor o = function::multinomial(mk(Sh{N}, w, t), N, false); r = vals(o); if (std::set<double>(r.begin(), r.end()).size() != (size_t)N) c.fail("multinomial-repeat", "an index is drawn twice without replacement"); for (double x : r) if (!(x >= 0 && x < N)) c.fail("multinomial-value", "index %g", x); break; }
    case uKaim: { Tensor x = mk(Sh{N, 4}, V(N * 4, 9), t); nn::Initializer::kaimingUniform(x, 1.f); r = vals(x); double b = std::sqrt(3.) / 2; range(r, -b, b); break; }
    case uInitN: { Tensor x = mk(Sh{N}, V(N, 9), t); nn::Initializer::normal(x, 3, 2); r = vals(x); range(r, 3 - 16, 3 + 16); break; }
    case uInitU: { Tensor x = mk(Sh{N}, V(N, 9), t); nn::Initializer::uniform(x, -7, -6); r = vals(x); range(r, -7, -6); break; }
    case uLin: { nn::Linear l(4, N, true, dt(t)); l.resetParameters(); for (auto& p : l.parameters()) for (double x : vals(*p)) r.push_back(x); range(r, -0.5, 0.5); break; }
    case uConv: { nn::Conv2D l(1, N, 2, 1, 0, true, dt(t)); l.resetParameters(); for (auto& p : l.parameters()) for (double x : vals(*p)) r.push_back(x); range(r, -0.5, 0.5); break; }
    case uEmb: { nn::Embedding l(N, 2, dt(t)); l.resetParameters(); r = vals(*l.parameters()[0]); range(r, -8, 8); break; }
    case uShuffle: {
      auto ds = std::make_shared<Ds>(N); DataLoader l(ds, (size_t)N, nullptr, true);
      for (const auto& [i, b] : l) for (double x : vals(b[0])) r.push_back(x);
      V q = r; std::sort(q.begin(), q.end()); for (int64_t i = 0; i < N; i++) if ((int64_t)q.size() != N || q[i] != i) c.fail("shuffle", "not a permutation");
      break;
    }
    case uAttn: {  // queries 0: uniform weights 1/N each; V = identity shows the weights
      V id(N * N, 0); for (int64_t i = 0; i < N; i++) id[i * N + i] = 1;
      r = vals(function::sdpAttention(mk(Sh{1, 1, N, 2}, V(N * 2, 0), t), mk(Sh{1, 1, N, 2}, V(N * 2, 1), t), mk(Sh{1, 1, N, N}, id, t), false, {}, 0.5f));
      dropped(r, V(N * N, 1.0 / N), 0.5); break;
    }
  }
  return r;
}
unsigned long seeds[] = {0, 1, 2, 123, 0x100000001ul, ~0ul, 2147483646ul, 2147483647ul, 2147483648ul, 0xffffffffUL};
// 0 none; a sampler between the steps must leave the stream alone
void disturb(int how) {
  if (how == 1) { RandomSampler s(9, 5); (void)s.indices(); }
  else if (how == 2) { RandomSampler s(9, 5); s.setEpoch(3); (void)s.indices(); }
  else if (how == 3) { SequentialSampler s(9); auto l = DataLoader(std::make_shared<Ds>(4), 2, std::make_shared<RandomSampler>(4, 1)); for (const auto& [i, b] : l) (void)i; }
}
void freshness(Ctx& c, int k, const V& a, const V& b, const char* what) {
  if (a == b) c.fail(std::string(what) + ":" + on[k], "two draws of %zu values are the same", a.size());
  if (!continuous(k)) return;
  std::set<double> s(a.begin(), a.end()); int common = 0; for (double x : b) common += s.count(x) ? 1 : 0;
  if (common > 4) c.fail(std::string(what) + ":" + on[k], "two draws of %zu values share %d of them", a.size(), common);
}
void fPrograms(Ctx& c) {
  int d = 1 + c.pick(c.thorough() ? 4 : 3); int ops[4]; std::string ds;
  unsigned long seed = d >= 3 ? 123 : seeds[c.pick(d == 2 ? 3 : 10)]; int between = d >= 3 ? 0 : c.pick(4);
  for (int i = 0; i < d; i++) { ops[i] = c.pick(NOps); ds += std::string(i ? "; " : "") + on[ops[i]]; }
  DType t = d > 1 ? DType::Float32 : c.pick({DType::Float32, DType::Float16, DType::BFloat16});
  int64_t N = d > 1 ? 32 : c.pick({32, 33, 100});
  c.desc("seed %lu %s n %ld between %d: %s", seed, dtName(t), (long)N, between, ds.c_str()); if (d > 1) c.nontrivial();
  auto run = [&](unsigned long sd) {
    std::vector<V> out; manualSeed(sd);
    for (int i = 0; i < d; i++) { disturb(between); out.push_back(draw(c, ops[i], N, t)); }
    disturb(between);
    return out;
  };
  auto a = run(seed), b = run(seed), o = run(seed ^ 1);
  for (int i = 0; i < d; i++) {
    if (a[i] != b[i]) c.fail(std::string("reproduce:") + on[ops[i]], "step %d differs when the program runs again from seed %lu", i, seed);
    if (t == DType::Float32) freshness(c, ops[i], a[i], o[i], "seed-ignored");
    else if (a[i] == o[i]) c.fail(std::string("seed-ignored:") + on[ops[i]], "seeds %lu and %lu agree", seed, seed ^ 1);
    for (int j = 0; j < i; j++) if (ops[i] == ops[j] && t == DType::Float32) freshness(c, ops[i], a[j], a[i], "stale");
  }
  // without reseeding the stream goes on
  if (d == 1) { V again = draw(c, ops[0], N, t); if (again == b[0] || again == o[0]) c.fail(std::string("stale:") + on[ops[0]], "a further draw repeats"); }
}
// a draw of n uniform values, however it is split into tensors, and with the same distribution, yields fresh values
void fSizes(Ctx& c) {
  int n = 1 + c.pick(6); std::vector<int64_t> sz; std::string d; int op = c.pick({uRand, uRandn, uInitU, uEmb});
  for (int i = 0; i < n; i++) { sz.push_back(c.pick({1, 2, 3, 7})); d += " " + std::to_string(sz[i]); }
  if (n > 4 && !c.thorough()) c.skip();
  c.desc("%s sizes%s", on[op], d.c_str()); if (n > 1) c.nontrivial();
  auto run = [&] { manualSeed(42); V all; for (auto s : sz) { V v = draw(c, op, s, DType::Float32); all.insert(all.end(), v.begin(), v.end()); } return all; };
  V a = run(), b = run();
  if (a != b) c.fail("reproduce:sizes", "the second run differs");
  std::map<double, int> m; int dup = 0; for (double x : a) if (m[x]++) dup++;
  if (dup > 1) c.fail("stale:sizes", "%d values repeat in %s", dup, str(a).c_str());
}
// all pairs of seeds differ
void fSeeds(Ctx& c) {
  int op = c.pick(NOps); c.desc("%s: pairwise different seeds", on[op]); c.nontrivial();
  std::vector<unsigned long> sd(std::begin(seeds), std::end(seeds));
  for (unsigned long i = 3; i < 40; i++) sd.push_back(i);
  for (int b = 6; b < 64; b++) sd.push_back(1ul << b);
  std::sort(sd.begin(), sd.end()); sd.erase(std::unique(sd.begin(), sd.end()), sd.end());
  std::map<V, unsigned long> seen;
  for (auto s : sd) {
    manualSeed(s); V v = draw(c, op, 80, DType::Float32);
    auto [it, fresh] = seen.insert({v, s});
    if (!fresh) c.fail(std::string("seed-collision:") + on[op], "seeds %lu and %lu give the same values", it->second, s);
  }
}
// histories of seeding and drawing: the draws since the last seed depend on that seed only
void fHist(Ctx& c) {
  int d = c.thorough() ? 7 : 6; std::string ds; std::map<std::string, V> known; std::string since = "?"; bool some = false; manualSeed(99); since = "s99";
  for (int i = 0; i < d; i++) {
    int a = c.pick(6);
    if (a < 2) { manualSeed(a); since = "s" + std::to_string(a); ds += "seed" + std::to_string(a) + " "; }
    else if (a == 5) { RandomSampler r(5, 3); r.setEpoch(1); ds += "sampler "; }
    else {
      int k = a == 2 ? uRand : a == 3 ? uRandn : uBern; int64_t n = a == 3 ? 3 : a == 4 ? 40 : 5; ds += std::string(on[k]) + " ";
      c.redesc(ds);
      since += "." + std::to_string(a); V v = draw(c, k, n, DType::Float32);
      auto it = known.find(since);
      if (it != known.end()) { some = true; if (it->second != v) c.fail("reproduce:history", "after %s the values depend on what came before the seed", since.c_str()); }
      else { for (auto& [key, w] : known) if (w == v) c.fail("stale:history", "%s and %s give the same values", key.c_str(), since.c_str()); known[since] = v; }
    }
  }
  c.redesc(ds); if (some) c.nontrivial();
}
void fUniform(Ctx& c) {
  float lo = c.pick({0.f, -1.f, 1000.f, -3.5f, 0.25f, 1e-6f}), w = c.pick({0.f, 1.f, 0.5f, 1e-3f, 1e6f}); int64_t n = c.pick({0, 1, 2, 501}); DType t = c.pick({DType::Float32, DType::Float16, DType::BFloat16}); int how = c.pick(3); unsigned long seed = c.pick(6);
  float hi = lo + w; if (t == DType::Float16 && hi > 60000) c.skip();
  c.desc("uniform [%g,%g] n %ld %s by %d seed %lu", lo, hi, (long)n, dtName(t), how, seed); if (n > 2) c.nontrivial();
  manualSeed(seed); Tensor x;
  if (how == 0) x = Tensor::uniform(iv(Sh{n}), lo, hi, dt(t)); else { x = Tensor::zeros(iv(Sh{n}), dt(t)); if (how == 1) x.fillUniform_(lo, hi); else nn::Initializer::uniform(x, lo, hi); }
  if (shapeOf(x) != Sh{n} || x.dtype() != t) c.fail("uniform-shape", "shape or type");
  double a = roundTo(lo, t), b = roundTo(hi, t);  // rounding is monotonic
  V v = vals(x); double mn = 1e30, mx = -1e30;
  for (double q : v) { if (!(q >= a && q <= b)) c.fail("uniform-range", "%.9g outside [%.9g,%.9g]", q, a, b); mn = std::min(mn, q); mx = std::max(mx, q); }
  if (n > 500 && b > a && (mn > a + 0.05 * (b - a) + 0.01 * std::fabs(a) || mx < b - 0.05 * (b - a) - 0.01 * std::fabs(b))) c.fail("uniform-spread", "501 values between %.9g and %.9g only, in [%g,%g]", mn, mx, lo, hi);
}
void fBern(Ctx& c) {
  float p = c.pick({0.f, 1.f, 0.5f, 0.1f, 0.9f, 1e-3f, 0.999f}); int64_t n = c.pick({0, 1, 3, 2000}); DType t = c.pick({DType::Float32, DType::Float16, DType::BFloat16}); bool fill = c.flip(); unsigned long seed = c.pick(5);
  c.desc("bernoulli %g n %ld %s fill %d seed %lu", p, (long)n, dtName(t), fill, seed); if (n > 1) c.nontrivial();
  manualSeed(seed); Tensor x;
  if (fill) { x = mk(Sh{n}, V(n, 7), t); x.fillBernoulli_(p); } else x = Tensor::bernoulli(iv(Sh{n}), p, dt(t));
  int64_t ones = 0; for (double q : vals(x)) { if (q != 0 && q != 1) c.fail("bernoulli-value", "value %g", q); if (p == 0 && q != 0) c.fail("bernoulli-p0", "a one with p 0"); if (p == 1 && q != 1) c.fail("bernoulli-p1", "a zero with p 1"); ones += q == 1; }
  if (n == 2000) { double sd = std::sqrt(n * p * (1. - p)); if (std::fabs(ones - n * (double)p) > 6 * sd + 1) c.fail("bernoulli-frequency", "%ld ones of %ld with p %g", (long)ones, (long)n, p); }
}
void fDrop(Ctx& c) {
  float p = c.pick({0.f, 0.1f, 0.25f, 0.5f, 0.75f, 0.9f, 1.f}); int how = c.pick(5), prov = c.pick(NumProv); Sh sh = c.pick(std::vector<Sh>{{1000}, {}, {0}, {3, 4}, {2, 1, 5}}); DType t = c.pick({DType::Float32, DType::Float16, DType::BFloat16}); unsigned long seed = c.pick(3);
  const char* hn[] = {"training", "evaluation", "module train", "module eval", "module eval then train"};
  c.desc("dropout p %g %s shape %s %s %s seed %lu", p, hn[how], str(sh).c_str(), dtName(t), provName(prov), seed); if (numelOf(sh) > 1) c.nontrivial();
  bool train = how == 0 || how == 2 || how == 4; int64_t n = numelOf(sh);
  V in(n); for (int64_t i = 0; i < n; i++) in[i] = (i % 5 - 2.5) * 2; V up(n); for (int64_t i = 0; i < n; i++) up[i] = 1 + i % 3;
  std::vector<Tensor> keep; Tensor x = mk(RT(sh, in), t, true, prov, &keep);
  manualSeed(seed); Tensor y; nn::Dropout m(p);
  if (how < 2) y = function::dropout(x, p, train); else { if (how == 2) m.train(); else m.eval(); if (how == 4) { (void)m(x); m.train(); } y = m(x); }
  if (shapeOf(y) != sh || y.dtype() != t) c.fail("dropout-shape", "output %s %s", str(shapeOf(y)).c_str(), dtName(y.dtype()));
  V o = vals(y); double e = t == DType::Float32 ? 1e-5 : t == DType::Float16 ? 2e-3 : 1.6e-2; int64_t kept = 0;
  double sc = !train ? 1 : p >= 1 ? 0 : 1 / (1. - p);
  for (int64_t i = 0; i < n; i++) {
    if (o[i] != 0 || (train && p >= 1)) { kept++; if (!sameD(o[i], in[i] * sc, e, 0)) c.fail(train ? "dropout-scale" : "dropout-eval", "element %ld: %.9g from %.9g, expected 0 or %.9g", (long)i, o[i], in[i], in[i] * sc); }
    else if (!train || p <= 0) c.fail("dropout-lost", "element %ld dropped (p %g, %s)", (long)i, p, hn[how]);
  }
  if (train && n == 1000 && p < 1) { double sd = std::sqrt(n * p * (1. - p)); if (std::fabs(kept - n * (1. - p)) > 6 * sd + 1) c.fail("dropout-frequency", "%ld of %ld kept with p %g", (long)kept, (long)n, p); }
  // gradient: the same mask, whatever was drawn in between
  (void)Tensor::rand(iv(Sh{5}));
  y.backward(mk(sh, up, t)); V g = vals(x.grad());
  if (shapeOf(x.grad()) != sh) c.fail("dropout-grad", "gradient shape %s", str(shapeOf(x.grad())).c_str());
  for (int64_t i = 0; i < n; i++) { double w = o[i] != 0 ? up[i] * sc : 0; if (!sameD(g[i], w, e, 0)) c.fail("dropout-grad", "element %ld: gradient %.9g, expected %.9g (output %.9g)", (long)i, g[i], w, o[i]); }
  if (rawValues(x) != in) c.fail("dropout-input", "the input changed");
}
// several graphs alive at once: each backward uses its own mask
void fDropMany(Ctx& c) {
  int k = 2 + c.pick(2); std::vector<int> perm; for (int i = 0; i < k; i++) perm.push_back(i); int rot = c.pick(6); for (int i = 0; i < rot; i++) std::next_permutation(perm.begin(), perm.end()); bool shared = c.flip();
  c.desc("%d dropouts, backward order %d, shared input %d", k, rot, shared); c.nontrivial(); manualSeed(4);
  std::vector<Tensor> x, y; for (int i = 0; i < k; i++) { x.push_back(shared && i ? x[0] : mk(Sh{60}, V(60, 1), DType::Float32, true)); y.push_back(function::dropout(x[i], 0.5f, true)); }
  V acc(60, 0);
  for (int i : perm) {
    V o = vals(y[i]); y[i].backward(mk(Sh{60}, V(60, 1))); V g = vals(x[i].grad());
    for (int j = 0; j < 60; j++) { acc[j] = (shared ? acc[j] : 0) + o[j]; if (!sameD(g[j], acc[j], 1e-5, 0)) c.fail("dropout-grad:many", "dropout %d element %d: gradient %g expected %g", i, j, g[j], acc[j]); }
  }
  for (int i = 1; i < k; i++) if (vals(y[i]) == vals(y[0])) c.fail("stale:dropout", "two dropouts use one mask");
}
void fAttn(Ctx& c) {
  float p = c.pick({0.f, 0.1f, 0.5f, 0.9f, 1.f}); bool causal = c.flip(); int64_t L = c.pick({1, 2, 8}), S = causal ? L : c.pick({1, 8}); unsigned long seed = c.pick(4);
  c.desc("attention dropout %g causal %d L %ld S %ld seed %lu", p, causal, (long)L, (long)S, seed); if (S > 1) c.nontrivial();
  V q = jumble(L * 2, 3), kk = jumble(S * 2, 5), id(S * S, 0); for (auto& z : q) z *= 0.1; for (auto& z : kk) z *= 0.1; for (int64_t i = 0; i < S; i++) id[i * S + i] = 1;
  Tensor Q = mk(Sh{1, 1, L, 2}, q), K = mk(Sh{1, 1, S, 2}, kk), W = mk(Sh{1, 1, S, S}, id);
  manualSeed(seed); V base = vals(function::sdpAttention(Q, K, W, causal, {}, 0.f)); V o = vals(function::sdpAttention(Q, K, W, causal, {}, p));
  for (size_t i = 0; i < o.size(); i++) { double w = p >= 1 ? 0 : base[i] / (1 - p); if (p == 0 || o[i] != 0) { if (!sameD(o[i], w, 1e-4, 1e-7)) c.fail("attention-dropout", "weight %zu is %.9g, expected %s%.9g", i, o[i], p == 0 ? "" : "0 or ", w); } }
}
// distribution over seeds or draws: wide bounds, deterministic for the seeds enumerated
void fStat(Ctx& c) {
  int what = c.pick(9); const char* nm[] = {"uniform", "normal", "kaiming", "multinomial with replacement", "multinomial without replacement", "DataLoader shuffle", "RandomSampler seeds", "RandomSampler epochs", "normal odd sizes"};
  unsigned long seed = what >= 6 ? 0 : c.pick(3); c.desc("distribution of %s seed %lu", nm[what], seed); c.nontrivial(); manualSeed(seed + 10);
  int n = 20000; auto freq = [&](const char* key, double got, double p, double total) { double sd = std::sqrt(total * p * (1 - p)); if (std::fabs(got - total * p) > 6 * sd + 1) c.fail(std::string("distribution:") + key, "%g of %g, expected about %g", got, total, total * p); };
  if (what == 0) { V v = vals(Tensor::rand(iv(Sh{n}))); double h[16] = {}; for (double x : v) h[std::min(15, (int)(x * 16))]++; for (double k : h) freq("uniform", k, 1 / 16., n); double ac = 0; for (int i = 1; i < n; i++) ac += (v[i] - .5) * (v[i - 1] - .5); if (std::fabs(ac / n * 12) > 6 / std::sqrt(n)) c.fail("distribution:uniform-serial", "serial correlation %g", ac / n * 12); }
  else if (what == 1 || what == 8) {
    V v; if (what == 1) { Tensor t = mk(Sh{n}, V(n, 0)); t.fillNormal_(2, 3); v = vals(t); } else for (int i = 0; (int)v.size() < n; i++) { Tensor t = mk(Sh{1 + i % 3}, V(1 + i % 3, 0)); nn::Initializer::normal(t, 2, 3); for (double x : vals(t)) v.push_back(x); }
    double N = v.size(), in1 = 0, in2 = 0, neg = 0; for (double x : v) { double z = (x - 2) / 3; in1 += std::fabs(z) < 1; in2 += std::fabs(z) < 2; neg += z < 0; }
    freq("normal-1sd", in1, 0.682689, N); freq("normal-2sd", in2, 0.954500, N); freq("normal-sign", neg, 0.5, N);
  } else if (what == 2) {
    Tensor t = mk(Sh{100, 50, 2, 2}, V(n, 0)); nn::Initializer::kaimingUniform(t, 2.f); double b = std::sqrt(3. * 2 / (1 + 4) / 200); double h[8] = {}; for (double x : vals(t)) { if (std::fabs(x) > b * (1 + 1e-5)) c.fail("kaiming-range", "%.9g exceeds the bound %.9g", x, b); h[std::min(7, (int)((x + b) / (2 * b) * 8))]++; } for (double k : h) freq("kaiming", k, 1 / 8., n);
    nn::Initializer::kaimingUniform(t, 0.f, nn::FanMode::FAN_OUT); b = std::sqrt(3. * 2 / 400); double mx = 0; for (double x : vals(t)) mx = std::max(mx, std::fabs(x)); if (mx > b * (1 + 1e-5) || mx < b * 0.99) c.fail("kaiming-range:out", "largest value %.9g, bound %.9g", mx, b);
  } else if (what == 3) { V v = vals(function::multinomial(mk(Sh{2, 4}, {1, 0, 2, 5, 0, 3, 1, 0}), n, true)); double h[8] = {}; for (int i = 0; i < 2 * n; i++) h[i / n * 4 + (int)v[i]]++; double p[] = {1 / 8., 0, 2 / 8., 5 / 8., 0, 3 / 4., 1 / 4., 0}; for (int i = 0; i < 8; i++) { if (p[i] == 0 && h[i]) c.fail("multinomial-zero", "index %d without weight drawn", i); freq("multinomial", h[i], p[i], n); } }
  else if (what == 4) {  // all ordered pairs of 3 with weights 1 2 5
    std::map<std::pair<int, int>, double> h; for (int i = 0; i < n; i++) { V v = vals(function::multinomial(mk(Sh{3}, {1, 2, 5}), 2, false)); h[{(int)v[0], (int)v[1]}]++; }
    double w[] = {1, 2, 5}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) freq("multinomial-pair", h[{a, b}], a == b ? 0 : w[a] / 8 * w[b] / (8 - w[a]), n);
  } else {  // all 24 permutations of four equally often
    std::map<std::vector<size_t>, double> h; int N = 6000; auto r = std::make_unique<RandomSampler>(4, 7);
    for (int i = 0; i < N; i++) {
      std::vector<size_t> v;
      if (what == 5) { DataLoader l(std::make_shared<Ds>(4), 4, nullptr, true); for (const auto& [k, b] : l) for (double x : vals(b[0])) v.push_back((size_t)x); }
      else if (what == 6) v = RandomSampler(4, i).indices(); else { r->setEpoch(i); v = r->indices(); }
      h[v]++;
    }
    std::vector<size_t> p{0, 1, 2, 3}; do freq("permutation", h[p], 1 / 24., N); while (std::next_permutation(p.begin(), p.end()));
  }
}
struct Reg { Reg() {
  add("programs", "every program of up to 3 (4) of 19 random operations: run twice from the seed and once from another", fPrograms, 3);
  add("sizes", "every split of a stream into tensors of 1, 2, 3 or 7 elements", fSizes, 3);
  add("seeds", "102 seeds, pairwise different streams, for every operation", fSeeds, 1);
  add("history", "every history of reseeding, drawing and building samplers up to depth 6 (7)", fHist, 3);
  add("uniform", "bounds, sizes, element types, seeds: inclusive range and spread", fUniform, 3);
  add("bernoulli", "probabilities, sizes, types, seeds", fBern, 2);
  add("dropout", "probabilities, modes, shapes, provenance, types: values, mask reuse in backward", fDrop, 3);
  add("dropout-many", "backward order of several dropouts", fDropMany, 2);
  add("attention", "dropout of attention weights", fAttn, 2);
  add("distribution", "frequencies over enumerated seeds and draws", fStat, 2);
} } reg;
}  // namespace
