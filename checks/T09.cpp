// T09: softmax / logSoftmax / layerNorm / rmsNorm / rotary embedding / gated SiLU / embedding lookup.
#include "refops.h"
using namespace mc;

namespace {
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};
double eps(DType t) { return t == DType::Float32 ? 2.4e-7 : t == DType::Float16 ? 9.8e-4 : 7.9e-3; }
double tiny(DType t) { return t == DType::Float32 ? 1e-38 : t == DType::Float16 ? 6.2e-8 : 1e-38; }
const double inf = std::numeric_limits<double>::infinity();

std::vector<double> pattern(int64_t n, int p, DType dt) {
  std::vector<double> v(n);
  double big = dt == DType::Float16 ? 60000 : 1e30;
  for (int64_t i = 0; i < n; i++) {
    double j = ((int)((i * 37 + 11) % 61) - 30) * 0.25;
    switch (p) {
      case 0: v[i] = j; break;
      case 1: v[i] = j > 0 ? big : -big; break;                    // overflow candidates
      case 2: v[i] = 3; break;                                     // constant
      case 3: v[i] = (dt == DType::BFloat16 ? 0 : 1000) + (i * 5) % 9; break;  // large offset, small differences
      case 4: v[i] = i % 3 == 1 ? -inf : j; break;                 // masked entries
      case 5: v[i] = -big + (i % 2) ; break;                       // all very negative
      default: v[i] = j * 6; break;
    }
    v[i] = roundTo(v[i], dt);
  }
  return v;
}
RT refSoftmax(const RT& a, int64_t dim, bool lg) {
  RT o(a.s);
  auto st = a.strides(); int64_t n = a.s[dim];
  forEach(a.s, [&](const Sh& i) {
    if (i[dim]) return;
    int64_t b = 0; for (size_t k = 0; k < i.size(); k++) b += i[k] * st[k];
    double m = -inf, s = 0;
    for (int64_t j = 0; j < n; j++) m = std::max(m, a.v[b + j * st[dim]]);
    for (int64_t j = 0; j < n; j++) s += std::exp(a.v[b + j * st[dim]] - m);
    for (int64_t j = 0; j < n; j++) { double x = a.v[b + j * st[dim]] - m; o.v[b + j * st[dim]] = lg ? x - std::log(s) : std::exp(x) / s; }
  });
  return o;
}
void softmaxCase(Ctx& c, const Sh& s, int64_t dim, bool lg, DType dt, int pat, int prov) {
  std::vector<Tensor> keep;
  RT in(s, pattern(numelOf(s), pat, dt));
  int64_t nd = normDim(dim, (int64_t)s.size());
  // a slice that is entirely masked is undefined
  if (pat == 4) { auto mx = refSoftmax(in, nd, false); for (double x : mx.v) if (std::isnan(x)) c.skip(); }
  Tensor a = mk(in, dt, false, prov, &keep);
  const char* n = lg ? "logSoftmax" : "softmax";
  c.desc("%s %s dim %ld %s %s pattern %d", n, str(s).c_str(), (long)dim, dtName(dt), provName(prov), pat); c.site(n);
  RT want = refSoftmax(in, nd, lg);
  for (auto& x : want.v) x = roundTo(x, dt);
  double e = eps(dt) * (lg ? 4 : 6), ab = lg ? eps(DType::Float32) * 8 : tiny(dt) * 4;
  if (dt == DType::Float32 && !lg) e = 4e-6; e += 6e-8 * s[nd];
  if (lg && pat != 1 && pat != 4 && pat != 5) ab = eps(DType::Float32) * 40 + 6e-8 * s[nd];
  std::string key = n;
  Tensor r = lg ? function::logSoftmax(a, dim) : function::softmax(a, dim);
  expect(c, key, r, want, e, ab);
  expect(c, key + "-op", lg ? op::logSoftmax(a, dim) : op::softmax(a, dim), want, e, ab);
  Tensor o = Tensor::empty(iv(s), options::dtype(dt)); o.fill_(Scalar(0)); Tensor o2 = o.clone();
  if (lg) op::logSoftmaxOut(o, a, dim); else op::softmaxOut(o, a, dim);
  expect(c, key + "Out", o, want, e, ab); expect(c, key + "Out-clone-of-output-changed", o2, RT(s, 0.0));
  expect(c, key + "-input-changed", a, in);
  // distribution
  if (numelOf(s)) {
    RT g = rt(r); auto st = g.strides();
    forEach(s, [&](const Sh& i) {
      if (i[nd]) return;
      int64_t b = 0; for (size_t k = 0; k < i.size(); k++) b += i[k] * st[k];
      double sum = 0; int64_t L = s[nd];
      for (int64_t j = 0; j < L; j++) { double x = g.v[b + j * st[nd]]; if (!lg && (x < 0 || x > 1)) c.fail(key + "-range", "probability %g", x); sum += lg ? std::exp(x) : x; }
      // each entry is rounded to half an ulp, or to half the smallest subnormal
      double tolSum = eps(dt) * (lg ? 12.0 : 1.0) + L * tiny(dt) + 3e-6 + 6e-8 * L;
      if (std::fabs(sum - 1) > tolSum) c.fail(key + "-sum", "slice sums to %g", sum);
    });
  }
  c.outcome(hashRT(want));
  if (s.size() > 1) c.nontrivial();
}
void fSoftmax(Ctx& c) {
  static const auto ss = [] { auto v = allShapes(1, 4, {1, 2, 3}); for (auto& s : allShapes(1, 2, {0, 2})) if (!numelOf(s)) v.push_back(s); v.push_back({17}); v.push_back({5, 7}); v.push_back({4, 1, 6}); return v; }();
  Sh s = c.pick(ss); bool lg = c.flip(); int64_t n = (int64_t)s.size(), dim = c.pick((int)(2 * n)) - n;
  DType dt = c.pick(flts); int pat = c.pick(7), prov = c.pick(3);
  softmaxCase(c, s, dim, lg, dt, pat, prov);
}
void fSoftmaxLong(Ctx& c) {
  int64_t n = c.pick({256, 300, 1000, 5000}); int kind = c.pick(3); bool lg = c.flip(); DType dt = c.pick(flts); int pat = c.pick({0, 2, 6});
  Sh s = kind == 0 ? Sh{n} : kind == 1 ? Sh{n, 2} : Sh{2, n};
  softmaxCase(c, s, kind == 2 ? 1 : 0, lg, dt, pat, Fresh);
}
// adding a constant to a slice leaves the distribution alone: every small slice, every constant, exact sums
void fShift(Ctx& c) {
  int n = 1 + c.pick(4); bool lg = c.flip(); DType dt = c.pick(flts);
  std::vector<double> v(n); for (auto& x : v) x = c.pick({-3.0, 0.0, 1.0, 4.0});
  double k = c.pick({64.0, -64.0, 100.0, -7.0, 1.0});
  std::vector<double> w = v; for (auto& x : w) x += k;
  Tensor a = mk({n}, v, dt), b = mk({n}, w, dt);
  c.desc("shift %s by %g %s", str(v).c_str(), k, dtName(dt)); c.site("shift");
  auto f = [&](const Tensor& t) { return rawValues(lg ? function::logSoftmax(t, 0) : function::softmax(t, 0)); };
  auto x = f(a), y = f(b);
  double e = eps(dt) * 2;
  for (int i = 0; i < n; i++) if (!sameD(x[i], y[i], e, e)) c.fail("shift", "position %d: %.9g became %.9g", i, x[i], y[i]);
  c.nontrivial();
}
void fNorm(Ctx& c) {
  static const auto ss = [] { auto v = allShapes(1, 4, {1, 2, 3}); for (int64_t d : {5, 8, 17, 33, 300, 3000}) { v.push_back({d}); v.push_back({2, d}); } v.push_back({0, 3}); return v; }();
  Sh s = c.pick(ss); bool ln = c.flip(); int wb = c.pick(ln ? 4 : 2); DType dt = c.pick(flts); int pat = c.pick(7), prov = c.pick(3); double ep = c.pick({1e-5, 1e-2, 1.0});
  if (pat == 4) c.skip();
  if (s.back() > 100 && (wb != (ln ? 3 : 1) || prov)) c.skip();
  int64_t d = s.back();
  std::vector<Tensor> keep;
  RT in(s, pattern(numelOf(s), pat, dt));
  if (pat == 1 || pat == 5) for (auto& x : in.v) { x = dt == DType::Float16 ? (x > 0 ? 600.0 : -600.0) : (x > 0 ? 1e15 : -1e15); x = roundTo(x, dt); }
  if (pat == 5) for (size_t i = 0; i < in.v.size(); i += 2) in.v[i] = roundTo(in.v[i] * -1, dt);
  RT w({d}), b({d});
  for (int64_t i = 0; i < d; i++) { w.v[i] = ((i * 5) % 7 - 3) * 0.5 + 0.25; b.v[i] = ((i * 3) % 5 - 2) * 0.75; }
  Tensor x = mk(in, dt, false, prov, &keep), tw = wb & 1 ? mk(w, dt, false, prov, &keep) : Tensor(), tb = wb & 2 ? mk(b, dt, false, prov, &keep) : Tensor();
  const char* n = ln ? "layerNorm" : "rmsNorm";
  c.desc("%s %s weight/bias %d eps %g %s %s pattern %d", n, str(s).c_str(), wb, ep, dtName(dt), provName(prov), pat); c.site(n);
  RT want(s);
  double mag = 0, worst = 0;
  for (int64_t r = 0; r * d < in.numel(); r++) {
    const double* p = &in.v[r * d]; double m = 0, q = 0;
    if (ln) { for (int64_t i = 0; i < d; i++) m += p[i]; m /= d; }
    for (int64_t i = 0; i < d; i++) { q += (p[i] - m) * (p[i] - m); mag = std::max(mag, std::fabs(p[i])); }
    double is = 1 / std::sqrt(q / d + (double)(float)ep);
    worst = std::max(worst, mag * is);
    for (int64_t i = 0; i < d; i++) want.v[r * d + i] = roundTo((p[i] - m) * is * (wb & 1 ? w.v[i] : 1) + (wb & 2 ? b.v[i] : 0), dt);
  }
  // the mean is known to a float ulp of the magnitude times the row length
  double ab = 1.2e-7 * (d + 8) * std::max(1.0, worst) * 2 + eps(DType::Float32) * 8;
  if (worst > 1e4 && ln) ab = 4;  // constant rows of huge values: the deviation is pure rounding
  std::string key = n;
  IntArrayView ns(&d, 1);
  expect(c, key, ln ? function::layerNorm(x, ns, tw, tb, (float)ep) : function::rmsNorm(x, ns, tw, (float)ep), want, eps(dt) + 1e-5, ab);
  expect(c, key + "-input-changed", x, in); if (wb & 1) expect(c, key + "-weight-changed", tw, w); if (wb & 2) expect(c, key + "-bias-changed", tb, b);
  c.outcome(hashRT(want)); c.nontrivial();
}
void fRope(Ctx& c) {
  int64_t hd = c.pick({2, 4, 6, 16}), ctx = c.pick({1, 2, 5, 40}); double base = c.pick({10000.0, 100.0, 500000.0});
  int sc = c.pick(3); DType dt = c.pick(flts);
  std::optional<RopeScalingConfig> cfg;
  if (sc == 1) cfg = RopeScalingConfig(8, 4, 1, 16);
  if (sc == 2) cfg = RopeScalingConfig(2, 3, 1.5f, 64);
  c.desc("rope table headDim %ld context %ld base %g scaling %d %s", (long)hd, (long)ctx, base, sc, dtName(dt)); c.site("ropeInit");
  Tensor rope = op::ropeInit(hd, ctx, (float)base, cfg, options::dtype(dt));
  int64_t h = hd / 2;
  std::vector<double> f(h);
  for (int64_t i = 0; i < h; i++) {
    f[i] = 1 / std::pow(base, 2.0 * i / hd);
    if (cfg) {
      double L = (double)cfg->originalContextLength, wl = 2 * M_PI / f[i], lo = L / cfg->lowFreqFactor, hi = L / cfg->highFreqFactor;
      if (wl > lo) f[i] /= cfg->factor;
      else if (wl >= hi) { double sm = (L / wl - cfg->lowFreqFactor) / (cfg->highFreqFactor - cfg->lowFreqFactor); f[i] = (1 - sm) * f[i] / cfg->factor + sm * f[i]; }
    }
  }
  RT want({ctx, hd, 2});
  for (int64_t p = 0; p < ctx; p++) for (int64_t i = 0; i < hd; i++) { want.at({p, i, 0}) = roundTo(std::cos(p * f[i % h]), dt); want.at({p, i, 1}) = roundTo(std::sin(p * f[i % h]), dt); }
  double ab = 4e-7 * (ctx + 4);
  expect(c, "rope-table", rope, want, eps(dt), ab);
  // application: every offset that fits
  int64_t T = 1 + c.pick(3); if (T > ctx) c.skip();
  int64_t off = c.pick((int)std::min<int64_t>(ctx - T + 1, 5)); if (off == 4) off = ctx - T;
  int64_t B = c.pick({1, 2}), H = c.pick({1, 3}); int prov = c.pick(3);
  Sh s = {B, H, T, hd};
  std::vector<Tensor> keep;
  RT in(s, jumble(numelOf(s)));
  Tensor x = mk(in, dt, false, prov, &keep);
  RT table = rt(rope);
  RT w2(s);
  forEach(s, [&](const Sh& i) {
    int64_t p = off + i[2], k = i[3] % h; double cs = table.at({p, k, 0}), sn = table.at({p, k, 1});
    Sh a = i, b = i; a[3] = k; b[3] = k + h;
    w2.at(i) = roundTo(i[3] < h ? in.at(a) * cs - in.at(b) * sn : in.at(b) * cs + in.at(a) * sn, dt);
  });
  c.site("ropeApply");
  expect(c, "rope-apply", function::ropeApply(x, rope, off), w2, eps(dt), 4e-6);
  expect(c, "rope-apply-input-changed", x, in); expect(c, "rope-apply-table-changed", rope, table);
  c.nontrivial(); c.outcome(hashRT(w2));
}
void fRopeLong(Ctx& c) {
  DType dt = c.pick(flts); int64_t hd = c.pick({4, 8}); 
  c.desc("rope table 4096 positions %s", dtName(dt));
  Tensor rope = op::ropeInit(hd, 4096, 10000.f, std::nullopt, options::dtype(dt));
  RT want({4096, hd, 2}); int64_t h = hd / 2;
  for (int64_t p = 0; p < 4096; p++) for (int64_t i = 0; i < hd; i++) { double f = 1 / std::pow(10000.0, 2.0 * (i % h) / hd); want.at({p, i, 0}) = std::cos(p * f); want.at({p, i, 1}) = std::sin(p * f); }
  expect(c, "rope-table-long", rope, want, 0, 4e-3 * (dt == DType::Float32 ? 0.5 : 1) + eps(dt)); c.nontrivial();
}
void fSiluMul(Ctx& c) {
  static const auto ss = allShapes(0, 3, {1, 2, 3});
  Sh s = c.pick(ss); int64_t h = c.pick({1, 2, 5}); DType dt = c.pick(flts); int pat = c.pick({0, 2, 6}), prov = c.pick(3);
  s.push_back(2 * h);
  std::vector<Tensor> keep; RT in(s, pattern(numelOf(s), pat, dt));
  Tensor x = mk(in, dt, false, prov, &keep);
  c.desc("siluMul %s %s", str(s).c_str(), dtName(dt)); c.site("siluMul");
  Sh os = s; os.back() = h; RT want(os);
  forEach(os, [&](const Sh& i) { Sh j = i; j.back() += h; double g = in.at(i); want.at(i) = g / (1 + std::exp(-g)) * in.at(j); });
  expect(c, "siluMul", function::siluMul(x), want, eps(dt) * 6, tiny(dt) * 400);
  expect(c, "siluMul-input-changed", x, in); c.nontrivial(); c.outcome(hashRT(want));
}
void fEmbedding(Ctx& c) {
  static const auto ss = allShapes(0, 3, {0, 1, 2, 3});
  Sh s = c.pick(ss); int64_t V = c.pick({1, 3, 7}), D = c.pick({1, 2, 5}); DType dt = c.pick(flts); int prov = c.pick(3); int salt = c.pick(3);
  std::vector<Tensor> keep; RT w({V, D}, jumble(V * D)), idx(s);
  for (int64_t i = 0; i < idx.numel(); i++) idx.v[i] = salt == 2 ? (double)(V - 1) : (double)((i * 5 + salt) % V);
  Tensor tw = mk(w, dt, false, prov, &keep), ti = mk(idx, DType::Int64, false, prov, &keep);
  c.desc("embedding %s of %ldx%ld %s %s", str(s).c_str(), (long)V, (long)D, dtName(dt), provName(prov)); c.site("embedding");
  Sh os = s; os.push_back(D); RT want(os);
  for (int64_t i = 0; i < idx.numel(); i++) for (int64_t j = 0; j < D; j++) want.v[i * D + j] = w.v[(int64_t)idx.v[i] * D + j];
  expect(c, "embedding", function::embedding(ti, tw), want);
  expect(c, "embedding-weight-changed", tw, w); expect(c, "embedding-index-changed", ti, idx); c.nontrivial(); c.outcome(hashRT(want));
}
struct Reg { Reg() {
  add("softmax", "every shape rank 1-4 x dimension x type x pattern (large, masked, constant) x provenance; function, op, into output", fSoftmax, 3);
  add("softmax-long", "slices of 256-5000 elements", fSoftmaxLong, 2);
  add("shift", "every slice over a 4-value alphabet up to length 4 and its shifts", fShift, 3);
  add("norm", "layerNorm / rmsNorm: every shape x weight/bias x eps x type x pattern", fNorm, 3);
  add("rope", "rotary table and application: head sizes, contexts, bases, scalings, offsets", fRope, 3);
  add("rope-long", "4096 positions in every type", fRopeLong, 1);
  add("silumul", "gated SiLU product", fSiluMul, 2);
  add("embedding", "embedding lookup: index shapes up to rank 3", fEmbedding, 2);
} } reg;
}  // namespace
