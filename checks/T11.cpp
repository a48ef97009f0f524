// T11: conv2d and maxPool2d against the definition, for every small configuration.
#include "refnn.h"
#include "Modules.h"
using namespace mc;

namespace {
const double inf = std::numeric_limits<double>::infinity();
double eps(DType t) { return t == DType::Float32 ? 6e-7 : t == DType::Float16 ? 2e-3 : 1.6e-2; }
void convCase(Ctx& c, Sh xs, Sh ks, bool bias, int64_t sh, int64_t sw, int64_t ph, int64_t pw, DType dt, int prov, bool viaScalarDim) {
  if (ks[2] > xs[2] + 2 * ph || ks[3] > xs[3] + 2 * pw) c.skip();
  RT x(xs, vals(numelOf(xs), 1)), k(ks, vals(numelOf(ks), 2)), b(Sh{ks[0]}, vals(ks[0], 3));
  c.desc("conv2d %s x %s bias %d stride %ld,%ld pad %ld,%ld %s %s", str(xs).c_str(), str(ks).c_str(), bias, (long)sh, (long)sw, (long)ph, (long)pw, dtName(dt), provName(prov));
  c.site("conv2d");
  std::vector<Tensor> keep;
  Tensor tx = mk(x, dt, false, prov, &keep), tk = mk(k, dt, false, prov, &keep), tb;
  if (bias) tb = mk(b, dt, false, prov, &keep);
  RT want = refConv(x, k, bias ? &b : nullptr, sh, sw, ph, pw);
  Tensor r = viaScalarDim ? function::conv2d(tx, tk, tb, sh, ph) : function::conv2d(tx, tk, tb, Dim2D(sh, sw), Dim2D(ph, pw));
  expect(c, "conv2d", r, want, eps(dt), dt == DType::Float32 ? 1e-5 : eps(dt) * 2);
  expect(c, "conv2d-input-changed", tx, x); expect(c, "conv2d-weight-changed", tk, k);
  if (bias) expect(c, "conv2d-bias-changed", tb, b);
  if (r.dtype() != dt) c.fail("conv2d-dtype", "result has another type");
  c.outcome(hashRT(want));
  if (xs[1] > 1 || ks[0] > 1 || ph || pw || sh > 1 || sw > 1) c.nontrivial();
}
void fConv(Ctx& c) {
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2, 3}), co = c.pick({1, 2, 3});
  int64_t h = 1 + c.pick(c.thorough() ? 6 : 5), w = 1 + c.pick(c.thorough() ? 6 : 5), kh = 1 + c.pick(3), kw = 1 + c.pick(3);
  int64_t sh = 1 + c.pick(2), sw = 1 + c.pick(2), ph = c.pick(3), pw = c.pick(3);
  bool bias = c.flip();
  if (!c.thorough() && n == 2 && (ph != pw || sh != sw)) c.skip();
  convCase(c, {n, ci, h, w}, {co, ci, kh, kw}, bias, sh, sw, ph, pw, DType::Float32, Fresh, false);
}
void fConvTypes(Ctx& c) {
  DType dt = c.pick({DType::Float32, DType::Float16, DType::BFloat16});
  int prov = c.pick(3);
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2}), co = c.pick({1, 3}), h = c.pick({3, 4}), w = c.pick({3, 5}), k = c.pick({1, 2, 3});
  int64_t s = 1 + c.pick(3), p = c.pick(2);
  bool bias = c.flip();
  convCase(c, {n, ci, h, w}, {co, ci, k, k}, bias, s, s, p, p, dt, prov, c.flip());
}
void fConvBig(Ctx& c) {
  int64_t n = c.pick({1, 3}), ci = c.pick({1, 5}), co = c.pick({4, 17}), h = c.pick({9, 16}), w = c.pick({11, 28}), k = c.pick({3, 5}), s = c.pick({1, 2, 3}), p = c.pick({0, 1, 2});
  convCase(c, {n, ci, h, w}, {co, ci, k, k}, c.flip(), s, s, p, p, DType::Float32, Fresh, true);
}
void poolCase(Ctx& c, Sh xs, int64_t kh, int64_t kw, int64_t sh, int64_t sw, int64_t ph, int64_t pw, DType dt, int prov, int pat, bool three) {
  if (kh > xs[2] + 2 * ph || kw > xs[3] + 2 * pw || 2 * ph > kh || 2 * pw > kw) c.skip();
  RT x(xs, vals(numelOf(xs), 1));
  for (size_t i = 0; i < x.v.size(); i++) {
    if (pat == 1) x.v[i] = -std::fabs(x.v[i]) - 1;
    if (pat == 2) x.v[i] = (double)((int)i * 7 % 3) - 1;          // ties
    if (pat == 3) x.v[i] = i % 3 ? -inf : x.v[i];
  }
  c.desc("maxPool2d %s%s kernel %ld,%ld stride %ld,%ld pad %ld,%ld %s %s pattern %d", str(xs).c_str(), three ? " (3-d)" : "", (long)kh, (long)kw, (long)sh, (long)sw, (long)ph, (long)pw, dtName(dt), provName(prov), pat);
  c.site("maxPool2d");
  std::vector<Tensor> keep;
  RT want = refPool(x, kh, kw, sh, sw, ph, pw);
  if (three) { x.s.erase(x.s.begin()); want.s.erase(want.s.begin()); }
  Tensor tx = mk(x, dt, false, prov, &keep);
  Tensor r = function::maxPool2d(tx, Dim2D(kh, kw), Dim2D(sh, sw), Dim2D(ph, pw));
  expect(c, "maxPool2d", r, want);
  expect(c, "maxPool2d-input-changed", tx, x);
  if (kh == kw && sh == kh && sw == kw && ph == pw) {
    // the module form with its default stride
    nn::MaxPool2D m(kh, {}, ph);
    Tensor a = m(tx);
    expect(c, "MaxPool2D-module", a, want);
  }
  c.outcome(hashRT(want));
  if (numelOf(xs) > 1) c.nontrivial();
}
void fPool(Ctx& c) {
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2, 3}), h = 1 + c.pick(6), w = 1 + c.pick(6), kh = 1 + c.pick(3), kw = 1 + c.pick(3);
  int64_t sh = 1 + c.pick(3), sw = 1 + c.pick(3), ph = c.pick(2), pw = c.pick(2);
  bool three = n == 1 && c.flip();
  poolCase(c, {n, ci, h, w}, kh, kw, sh, sw, ph, pw, DType::Float32, Fresh, 0, three);
}
void fPoolTypes(Ctx& c) {
  DType dt = c.pick({DType::Float32, DType::Float16, DType::BFloat16});
  int prov = c.pick(3), pat = c.pick(4);
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2}), h = c.pick({2, 3, 5}), w = c.pick({2, 4}), k = 1 + c.pick(3), s = 1 + c.pick(3), p = c.pick(2);
  poolCase(c, {n, ci, h, w}, k, k, s, s, p, p, dt, prov, pat, n == 1 && c.flip());
}
void fPoolVals(Ctx& c) {
  // every arrangement of a small alphabet over a 2x3 or 3x3 image
  int64_t h = c.pick({2, 3}), w = 3;
  int64_t k = c.pick({2, 3}), s = 1 + c.pick(2), p = c.pick(2);
  if (k > h + 2 * p) c.skip();
  RT x(Sh{1, 1, h, w});
  for (auto& v : x.v) v = c.pick({-2.0, -1.0, 0.0}) ;
  c.desc("maxPool2d of %s kernel %ld stride %ld pad %ld", str(x.v).c_str(), (long)k, (long)s, (long)p); c.site("maxPool2d");
  expect(c, "maxPool2d", function::maxPool2d(mk(x), k, s, p), refPool(x, k, k, s, s, p, p));
  c.nontrivial();
}
void fModule(Ctx& c) {
  int64_t ci = c.pick({1, 2, 3}), co = c.pick({1, 2, 4}), k = 1 + c.pick(3), s = 1 + c.pick(2), p = c.pick(2);
  bool bias = c.flip();
  Sh xs{2, ci, 5, 4}, ks{co, ci, k, k};
  if (k > 4 + 2 * p) c.skip();
  c.desc("Conv2D module in %ld out %ld k %ld s %ld p %ld bias %d", (long)ci, (long)co, (long)k, (long)s, (long)p, bias); c.site("Conv2D");
  RT x(xs, vals(numelOf(xs), 1)), kk(ks, vals(numelOf(ks), 2)), b(Sh{co}, vals(co, 3));
  nn::Conv2D m(ci, co, k, s, p, bias);
  auto ps = m.parameters();
  if (ps.size() != (bias ? 2u : 1u)) c.fail("Conv2D-params", "%zu parameters", ps.size());
  rawStore(*ps[0], kk.v); if (bias) rawStore(*ps[1], b.v);
  expect(c, "Conv2D-module", m(mk(x)), refConv(x, kk, bias ? &b : nullptr, s, s, p, p), 6e-7, 1e-5);
  c.nontrivial();
}
struct Reg { Reg() {
  add("conv", "batch 1-2 x in/out channels 1-3 x height/width 1-5 (6 thorough) x kernels 1-3 x strides 1-2 x pads 0-2 per axis x bias", fConv, 4);
  add("conv-types", "conv2d in every float type and provenance, scalar and pair arguments", fConvTypes, 3);
  add("conv-big", "larger images and channel counts", fConvBig, 3);
  add("pool", "batch 1-2 or unbatched x channels 1-3 x height/width 1-6 x kernels 1-3 x strides 1-3 x pads per axis", fPool, 4);
  add("pool-types", "maxPool2d in every float type, provenance and pattern (negative, ties, -inf)", fPoolTypes, 3);
  add("pool-values", "every image over {-2,-1,0} of 2x3 and 3x3 pixels", fPoolVals, 5);
  add("conv-module", "Conv2D module", fModule, 2);
} } reg;
}  // namespace
