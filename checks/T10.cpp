// T10: scaled dot-product attention against its definition.
#include "refops.h"
#include "Utils/RandomGenerator.h"
using namespace mc;

namespace {
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};
double eps(DType t) { return t == DType::Float32 ? 2.4e-7 : t == DType::Float16 ? 9.8e-4 : 7.9e-3; }
const double inf = std::numeric_limits<double>::infinity();
std::vector<double> vals(int64_t n, int salt) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) v[i] = ((int)((i * 7 + salt * 5 + i * i * 3) % 17) - 8) * 0.25;
  return v;
}
// reference: q [.., L, D], k [.., S, D], v [.., S, E]; bias (if any) broadcast to [.., L, S]; -inf excludes
RT refAttention(const RT& q, const RT& k, const RT& v, double scale, const RT* bias) {
  RT kt = refTranspose(k, k.dim() - 2, k.dim() - 1);
  RT w = refMatmul(q, kt);
  int64_t S = w.s.back();
  int64_t n = 0;
  RT b;
  if (bias) b = refExpand(*bias, w.s);
  for (int64_t r = 0; r * S < w.numel(); r++) {
    double m = -inf, s = 0;
    for (int64_t j = 0; j < S; j++) { double& x = w.v[r * S + j]; x *= scale; if (bias) x += b.v[r * S + j]; m = std::max(m, x); }
    for (int64_t j = 0; j < S; j++) { double& x = w.v[r * S + j]; x = m == -inf ? NAN : std::exp(x - m); s += x; }
    for (int64_t j = 0; j < S; j++) w.v[r * S + j] /= s;
  }
  (void)n;
  return refMatmul(w, v);
}
struct Dims { Sh batchQ, batchK; };
const std::vector<Dims>& batches() {
  static const std::vector<Dims> d = {{{}, {}}, {{1}, {1}}, {{2}, {2}}, {{3}, {3}}, {{1, 1}, {1, 1}}, {{1, 2}, {1, 2}}, {{2, 1}, {2, 1}}, {{2, 3}, {2, 3}},
                                      {{2, 3}, {2, 1}} /* one shared key/value head */, {{2, 2}, {1, 2}}, {{2, 2}, {2}} /* batch broadcast */};
  return d;
}
enum MaskKind { None, Causal, BoolLS, BoolFull, BoolKey, AddLS, AddFull, AddInf, NumMask };
const char* mn[] = {"none", "causal", "bool[L,S]", "bool full", "bool[1,S]", "additive[L,S]", "additive full", "additive -inf"};

void one(Ctx& c, const Dims& d, int64_t L, int64_t S, int64_t D, int64_t E, int mask, int sc, DType dt, int prov, unsigned maskBits, bool huge) {
  auto sh = [](Sh b, int64_t x, int64_t y) { b.push_back(x); b.push_back(y); return b; };
  std::vector<Tensor> keep;
  RT q(sh(d.batchQ, L, D), vals(L * D * numelOf(d.batchQ), 1)), k(sh(d.batchK, S, D), vals(S * D * numelOf(d.batchK), 2)), v(sh(d.batchK, S, E), vals(S * E * numelOf(d.batchK), 3));
  c.desc("attention q%s k%s v%s mask %s(%x) scale %d %s %s", str(q.s).c_str(), str(k.s).c_str(), str(v.s).c_str(), mn[mask], maskBits, sc, dtName(dt), provName(prov));
  c.site("sdpAttention");
  double scale = sc == 0 ? 1 / std::sqrt((double)D) : sc == 1 ? 1.0 : sc == 2 ? 0.25 : 0.0;
  std::optional<float> os; if (sc) os = (float)scale;
  RT bias, ms; Tensor tm; bool useBias = mask != None;
  Sh full = sh(d.batchQ, L, S);
  if (mask == Causal) { bias = RT({L, S}); for (int64_t i = 0; i < L; i++) for (int64_t j = 0; j < S; j++) bias.v[i * S + j] = j > i ? -inf : 0; }
  else if (useBias) {
    Sh bs = mask == BoolLS || mask == AddLS || mask == AddInf ? Sh{L, S} : mask == BoolKey ? Sh{1, S} : full;
    bias = RT(bs); ms = RT(bs);
    for (int64_t i = 0; i < bias.numel(); i++) {
      bool on = maskBits ? maskBits >> (i % 16) & 1 : (i * 5 + i / S) % 3 != 0;
      if (i % S == (i / S) % S) on = on || !maskBits;  // default pattern: at least one position per row
      if (mask == AddLS || mask == AddFull) ms.v[i] = bias.v[i] = on ? ((i * 3) % 7 - 3) * 0.5 : -8;
      else if (mask == AddInf) ms.v[i] = bias.v[i] = on ? 0.5 : -inf;
      else { ms.v[i] = on; bias.v[i] = on ? 0 : -inf; }
    }
    bool isBool = mask == BoolLS || mask == BoolFull || mask == BoolKey;
    // rows that exclude everything are undefined
    for (int64_t r = 0; r * S < bias.numel(); r++) { bool any = false; for (int64_t j = 0; j < S; j++) any |= bias.v[r * S + j] != -inf; if (!any) c.skip(); }
    tm = mk(ms, isBool ? DType::Bool : dt, false, prov, &keep);
  }
  // positions no query may look at carry values that would be noticed
  if (huge && (mask == Causal || mask == BoolLS || mask == BoolKey || mask == AddInf)) {
    RT bb = mask == BoolKey ? refExpand(bias, {L, S}) : bias;
    for (int64_t j = 0; j < S; j++) {
      bool any = false; for (int64_t i = 0; i < L; i++) any |= bb.v[i * S + j] != -inf;
      if (any) continue;
      for (int64_t b = 0; b < numelOf(d.batchK); b++) {
        for (int64_t e = 0; e < E; e++) v.v[(b * S + j) * E + e] = dt == DType::Float16 ? 60000 : 1e30;
        for (int64_t e = 0; e < D; e++) k.v[(b * S + j) * D + e] = 100;
      }
    }
    for (auto& x : v.v) x = roundTo(x, dt);
  }
  Tensor tq = mk(q, dt, false, prov, &keep), tk = mk(k, dt, false, prov, &keep), tv = mk(v, dt, false, prov, &keep);
  RT want = refAttention(q, k, v, scale, useBias ? &bias : nullptr);
  // scores up to ~4*D are rounded to the element type before the exponential, weights after it
  double smax = 4.0 * D * std::max(scale, 0.1) + 9;
  double e = dt == DType::Float32 ? 3e-6 : eps(dt) * (smax * 2 + 4);
  Tensor r = function::sdpAttention(tq, tk, tv, mask == Causal, tm, 0.f, os);
  expect(c, "attention", r, want, 0, e * 4);
  expect(c, "attention-query-changed", tq, q); expect(c, "attention-key-changed", tk, k); expect(c, "attention-value-changed", tv, v);
  if (tm.defined()) expect(c, "attention-mask-changed", tm, ms);
  if (mask || sc) c.nontrivial();
  c.outcome(hashRT(want));
}
void fShapes(Ctx& c) {
  auto& d = batches()[c.pick((int)batches().size())];
  int64_t L = c.pick({1, 2, 3, 4}), S = c.pick({1, 2, 3, 5}), D = c.pick({1, 2, 4}), E = c.pick({1, 3});
  int mask = c.pick((int)NumMask), sc = c.pick(4); DType dt = c.pick(flts); int prov = c.pick(3);
  if (prov && sc != 0) c.skip();
  one(c, d, L, S, D, E, mask, sc, dt, prov, 0, c.flip());
}
// every boolean / additive mask over L x S
void fMasks(Ctx& c) {
  static const std::vector<std::pair<int, int>> ls = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {3, 2}, {2, 3}, {3, 3}};
  auto p = ls[c.pick((int)(c.thorough() ? ls.size() : ls.size() - 1))];
  unsigned bits = 1 + c.pick((1 << (p.first * p.second)) - 1);
  int mask = c.pick({(int)BoolLS, (int)AddInf, (int)AddLS}); int b = c.pick({0, 2, 5}); DType dt = c.pick(flts);
  one(c, batches()[b], p.first, p.second, 2, 2, mask, 0, dt, Fresh, bits, c.flip());
}
// with dropout every weight is either dropped or scaled by 1/(1-p): identity values expose the weights
void fDropout(Ctx& c) {
  int seed = c.pick(4); double p = c.pick({0.1, 0.25, 0.5, 0.9}); int64_t S = c.pick({1, 2, 8, 33}), L = c.pick({1, 4}); DType dt = c.pick(flts); bool causal = c.flip();
  manualSeed(seed + 1);
  RT q({L, 2}, vals(L * 2, 1)), k({S, 2}, vals(S * 2, 2)), v({S, S});
  for (int64_t i = 0; i < S; i++) v.v[i * S + i] = 1;
  c.desc("attention dropout %g S %ld L %ld %s seed %d", p, (long)S, (long)L, dtName(dt), seed); c.site("sdpAttention-dropout");
  Tensor tq = mk(q, dt), tk = mk(k, dt), tv = mk(v, dt);
  auto w = rawValues(function::sdpAttention(tq, tk, tv, causal)), g = rawValues(function::sdpAttention(tq, tk, tv, causal, {}, (float)p));
  int zero = 0, n = 0;
  for (size_t i = 0; i < w.size(); i++) {
    if (w[i] == 0) { if (g[i] != 0) c.fail("attention-dropout", "excluded weight became %g", g[i]); continue; }
    n++;
    if (g[i] == 0) { zero++; continue; }
    if (!sameD(g[i], w[i] / (1 - p), eps(dt) * 3, dt == DType::Float16 ? 1e-6 : 1e-30)) c.fail("attention-dropout", "weight %g became %g, expected 0 or %g", w[i], g[i], w[i] / (1 - p));
  }
  // 20 standard deviations: deterministic given the seeds, and catches inverted probabilities
  if (n > 60 && std::fabs(zero - n * p) > 20 * std::sqrt(n * p * (1 - p)) ) c.fail("attention-dropout-rate", "%d of %d dropped at p=%g", zero, n, p);
  if (n > 60 && std::fabs((double)zero / n - p) > 0.3) c.fail("attention-dropout-rate", "%d of %d dropped at p=%g", zero, n, p);
  c.nontrivial();
}
// larger sizes
void fLarge(Ctx& c) {
  int64_t L = c.pick({16, 33}), S = c.pick({16, 40}), D = c.pick({8, 16}); int mask = c.pick((int)NumMask); DType dt = c.pick(flts);
  one(c, batches()[7], L, S, D, 4, mask, 0, dt, Fresh, 0, true);
}
struct Reg { Reg() {
  add("shapes", "batch/head layouts x query, key, feature sizes x mask kinds x scale x type x provenance", fShapes, 3);
  add("masks", "every boolean, -inf and additive mask over up to 3x3 positions", fMasks, 3);
  add("dropout", "attention dropout: dropped or scaled weights", fDropout, 2);
  add("large", "larger sequences", fLarge, 2);
} } reg;
}  // namespace
