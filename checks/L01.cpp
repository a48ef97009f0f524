// L01: losses and their gradients over reductions, shapes, targets, upstream factors and repeated backward.
#include "refops.h"
#include "Functions.h"
#include "Modules.h"
using namespace mc;

namespace {
LossReduction red(int k) { return k == 0 ? LossReduction::NONE : k == 1 ? LossReduction::MEAN : LossReduction::SUM; }
const char* redName(int k) { return k == 0 ? "none" : k == 1 ? "mean" : "sum"; }
double tol(DType t) { return t == DType::Float32 ? 3e-6 : t == DType::Float16 ? 4e-3 : 3e-2; }
// how the loss is used before backward
enum { uPlain, uScale, uNegHalf, uAddSelf, uTwice, uGiven, uSumOrMul, uOther, uBackBetween, NU };
const char* un[] = {"backward", "(loss*3).backward", "(0.5-loss)/2", "loss+loss", "backward twice", "backward(given)", "weighted", "added to another loss", "other loss in between"};
// runs the use on the implementation and returns the factor each unreduced loss element receives
RT apply(Ctx& c, Tensor& loss, const RT& val, int use, DType dt, const std::function<Tensor()>& again) {
  RT f(val.s, 1);
  bool scalar = val.s.empty();
  auto back = [&](Tensor& y, RT g) { if (y.dim() == 0 && g.v[0] == 1) y.backward(); else { Tensor tg = mk(g, dt); y.backward(tg); expect(c, "incoming-gradient-changed", tg, g); } };
  RT ones(val.s, 1);
  c.site("backward");
  switch (use) {
    case uPlain: back(loss, ones); break;
    case uScale: { Tensor y = loss * Scalar(3.f); back(y, ones); for (auto& x : f.v) x = 3; } break;
    case uNegHalf: { Tensor y = (0.5f - loss) / Scalar(2.f); back(y, ones); for (auto& x : f.v) x = -0.5; } break;
    case uAddSelf: { Tensor y = loss + loss; back(y, ones); for (auto& x : f.v) x = 2; } break;
    case uTwice: back(loss, ones); back(loss, ones); for (auto& x : f.v) x = 2; break;
    case uGiven: { RT g(val.s); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 0.5 * (double)(i % 5) - 1.5 + (scalar ? 4 : 0); back(loss, g); f = g; } break;
    case uSumOrMul: { RT w(val.s); for (size_t i = 0; i < w.v.size(); i++) w.v[i] = 0.25 * (double)(i % 7) - 0.5; Tensor y = loss * mk(w, dt); Tensor z = scalar ? y : y.sum(); back(z, RT(Sh{}, 1)); f = w; } break;
    case uOther: { Tensor l2 = again(); Tensor y = loss + l2 * Scalar(2.f); back(y, ones); for (auto& x : f.v) x = 3; } break;
    case uBackBetween: { Tensor l2 = again(); back(l2, ones); back(loss, ones); Tensor l3 = again(); back(l3, ones); for (auto& x : f.v) x = 3; } break;
  }
  return f;
}
void mse(Ctx& c, const Sh& si, const Sh& st, int rd, int use, DType dt, int prov, bool module) {
  RT x(si), t(st);
  for (size_t i = 0; i < x.v.size(); i++) x.v[i] = 0.25 * (double)((i * 5 + 3) % 13) - 1;
  for (size_t i = 0; i < t.v.size(); i++) t.v[i] = 0.25 * (double)((i * 7 + 2) % 11) - 0.75;
  Sh bs; if (!refBroadcast(si, st, bs)) c.skip();
  c.desc("mseLoss%s %s vs %s %s %s %s %s", module ? " module" : "", str(si).c_str(), str(st).c_str(), redName(rd), un[use], dtName(dt), provName(prov)); c.site("mseLoss");
  int64_t n = numelOf(bs);
  RT e(bs); int64_t p = 0; double sum = 0;
  forEach(bs, [&](const Sh& i) { double d = bAt(x, i) - bAt(t, i); e.v[p++] = d * d; sum += d * d; });
  RT want = rd == 0 ? e : RT(Sh{}, {rd == 1 ? sum / (double)n : sum});
  std::vector<Tensor> keep;
  Tensor tx = mk(x, dt, true, prov == Fresh ? Fresh : Fresh, &keep), tt = mk(t, dt, false, prov, &keep);
  nn::MSELoss m(red(rd));
  auto f = [&] { return module ? m(tx, tt) : function::mseLoss(tx, tt, red(rd)); };
  Tensor loss = f();
  double T = tol(dt);
  expect(c, std::string("mse-value-") + redName(rd), loss, want, T * 2, T * 2);
  if (!loss.requiresGrad()) c.fail("mse-flag", "the loss does not require gradients");
  RT fac = apply(c, loss, want, use, dt, f);
  RT g(si); p = 0;
  std::vector<double> acc(x.v.size(), 0);
  RT ix(si); for (size_t k = 0; k < ix.v.size(); k++) ix.v[k] = (double)k;
  double mag = 0;
  forEach(bs, [&](const Sh& i) { double d = 2 * (bAt(x, i) - bAt(t, i)) * (rd == 0 ? fac.v[p] : fac.v[0] / (rd == 1 ? (double)n : 1)); acc[(size_t)bAt(ix, i)] += d; mag = std::max(mag, std::fabs(d)); p++; });
  g.v = acc;
  if (x.v.empty() && !tx.grad().defined()) { c.outcome(1); return; }
  if (!tx.grad().defined()) c.fail("mse-gradient", "no gradient");
  expect(c, std::string("mse-gradient-") + redName(rd), tx.grad(), g, T * 6, T * 6 * (mag + (double)(n > 12 ? 4 : 1)));
  expect(c, "mse-input-changed", tx, x); expect(c, "mse-target-changed", tt, t);
  expect(c, "mse-value-changed", loss, want, T * 2, T * 2);
  c.outcome(mix(hashRT(g), hashRT(want))); if (n > 1 || use) c.nontrivial();
}
void fMse(Ctx& c) {
  static const Sh ss[] = {{}, {1}, {3}, {2, 3}, {4, 1}, {2, 1, 2}, {2, 2, 2, 2}, {1, 1}, {7, 5}};
  const Sh& s = ss[c.pick(9)];
  int rd = c.pick(3), use = c.pick(NU); DType dt = c.pick({DType::Float32, DType::Float16, DType::BFloat16});
  int prov = c.pick(3); bool module = c.flip();
  mse(c, s, s, rd, use, dt, prov, module);
}
void fMseBroadcast(Ctx& c) {
  static const Sh ss[] = {{}, {1}, {3}, {2, 3}, {2, 1}, {1, 3}, {2, 2, 3}, {2, 1, 1}};
  const Sh &a = ss[c.pick(8)], &b = ss[c.pick(8)];
  mse(c, a, b, c.pick(3), c.pick(NU), DType::Float32, Fresh, false);
}
// predictions close to large targets: the small differences decide
void fMseClose(Ctx& c) {
  static const double base[] = {0, 1, 1000, 5000, 60000, 1000000, 8000000};
  static const double diff[] = {0, 0.5, -1, 2, -0.5};
  int n = 1 + c.pick(c.thorough() ? 4 : 3), rd = c.pick(3), two = c.flip();
  double B = c.pick({-1.0, 1.0}) * base[c.pick(7)];
  RT x(two ? Sh{2, n} : Sh{n}), t(Sh{n});
  for (int i = 0; i < n; i++) t.v[i] = B + i;
  std::vector<double> d;
  for (size_t i = 0; i < x.v.size(); i++) { double e = i < 3 ? diff[c.pick(5)] : diff[i % 5]; x.v[i] = t.v[i % n] + e; d.push_back((double)((float)x.v[i]) - t.v[i % n]); }
  c.desc("mseLoss of %s vs %s %s%s", str(x.v).c_str(), str(t.v).c_str(), redName(rd), two ? " two rows" : ""); c.site("mseLoss");
  RT e(x.s), g(x.s); double sum = 0, N = (double)d.size();
  for (size_t i = 0; i < d.size(); i++) { e.v[i] = d[i] * d[i]; sum += e.v[i]; g.v[i] = 2 * d[i] / (rd == 1 ? N : 1); }
  Tensor tx = mk(x, DType::Float32, true), tt = mk(t);
  Tensor l = function::mseLoss(tx, tt, red(rd));
  expect(c, std::string("mse-close-value-") + redName(rd), l, rd == 0 ? e : RT(Sh{}, {rd == 1 ? sum / N : sum}), 1e-5, 1e-5);
  (rd == 0 ? l.sum() : l).backward();
  if (!tx.grad().defined()) c.fail("mse-gradient", "no gradient");
  expect(c, std::string("mse-close-gradient-") + redName(rd), tx.grad(), g, 1e-5, 1e-5);
  c.outcome(mix(hashRT(g), hashRT(e))); if (B) c.nontrivial();
}
void nll(Ctx& c, int64_t B, int64_t C, const std::vector<int>& tg, int rd, int use, DType dt, int prov, bool module) {
  RT x(Sh{B, C}), t(Sh{B});
  for (size_t i = 0; i < x.v.size(); i++) x.v[i] = -0.25 * (double)((i * 5 + 3) % 13) - 0.125;
  for (int64_t i = 0; i < B; i++) t.v[i] = tg[i];
  c.desc("nllLoss%s %ldx%ld targets %s %s %s %s %s", module ? " module" : "", (long)B, (long)C, str(t.v).c_str(), redName(rd), un[use], dtName(dt), provName(prov)); c.site("nllLoss");
  RT e(Sh{B}); double sum = 0;
  for (int64_t i = 0; i < B; i++) { e.v[i] = -x.v[i * C + tg[i]]; sum += e.v[i]; }
  RT want = rd == 0 ? e : RT(Sh{}, {rd == 1 ? sum / (double)B : sum});
  std::vector<Tensor> keep;
  Tensor tx = mk(x, dt, true), tt = mk(t, DType::Int64, false, prov, &keep);
  nn::NLLLoss m(red(rd));
  auto f = [&] { return module ? m(tx, tt) : function::nllLoss(tx, tt, red(rd)); };
  Tensor loss = f();
  double T = tol(dt);
  expect(c, std::string("nll-value-") + redName(rd), loss, want, T * 2, T * 2);
  if (!loss.requiresGrad()) c.fail("nll-flag", "the loss does not require gradients");
  RT fac = apply(c, loss, want, use, dt, f);
  RT g(Sh{B, C});
  for (int64_t i = 0; i < B; i++) g.v[i * C + tg[i]] = -(rd == 0 ? fac.v[i] : fac.v[0] / (rd == 1 ? (double)B : 1));
  if (!tx.grad().defined()) c.fail("nll-gradient", "no gradient");
  expect(c, std::string("nll-gradient-") + redName(rd), tx.grad(), g, T * 6, T * 6);
  expect(c, "nll-input-changed", tx, x); expect(c, "nll-target-changed", tt, t);
  expect(c, "nll-value-changed", loss, want, T * 2, T * 2);
  c.outcome(mix(hashRT(g), hashRT(want))); if (B > 1) c.nontrivial();
}
void fNll(Ctx& c) {
  int64_t B = 1 + c.pick(c.thorough() ? 4 : 3), C = 1 + c.pick(3);
  std::vector<int> t; for (int64_t i = 0; i < B; i++) t.push_back(c.pick((int)C));
  nll(c, B, C, t, c.pick(3), c.pick(NU), DType::Float32, Fresh, false);
}
void fNllTypes(Ctx& c) {
  int64_t B = c.pick({1, 2, 5, 16}), C = c.pick({2, 4, 10});
  std::vector<int> t; for (int64_t i = 0; i < B; i++) t.push_back((int)((i * 3 + 1) % C));
  int rd = c.pick(3), use = c.pick(NU); DType dt = c.pick({DType::Float32, DType::Float16, DType::BFloat16}); int prov = c.pick(3); bool module = c.flip();
  nll(c, B, C, t, rd, use, dt, prov, module);
}
// the loss at the end of a computation: the input is not a leaf, and both losses may share it
void fChain(Ctx& c) {
  int64_t B = 1 + c.pick(3), C = 2 + c.pick(2); int rd = c.pick(3), rd2 = c.pick(3), how = c.pick(4);
  double ka = c.pick({1.0, -2.0, 0.25});
  std::vector<int> tg; for (int64_t i = 0; i < B; i++) tg.push_back(c.pick((int)C));
  RT x(Sh{B, C}), t(Sh{B, C}), ti(Sh{B});
  for (size_t i = 0; i < x.v.size(); i++) { x.v[i] = 0.25 * (double)((i * 5 + 3) % 13) - 1; t.v[i] = 0.125 * (double)((i * 7) % 9); }
  for (int64_t i = 0; i < B; i++) ti.v[i] = tg[i];
  c.desc("log-softmax -> nll %s and mse %s, %ldx%ld, factor %g, form %d", redName(rd), redName(rd2), (long)B, (long)C, ka, how); c.site("chain");
  Tensor tx = mk(x, DType::Float32, true);
  Tensor ls = function::logSoftmax(tx, 1);
  Tensor l1 = function::nllLoss(ls, mk(ti, DType::Int64), red(rd)), l2 = function::mseLoss(how < 2 ? tx : ls, mk(t), red(rd2));
  Tensor s1 = rd == 0 ? l1.sum() : l1, s2 = rd2 == 0 ? l2.sum() : l2;
  if (how % 2 == 0) { Tensor y = s1 + s2 * Scalar((float)ka); y.backward(); }
  else { s1.backward(); Tensor y = s2 * Scalar((float)ka); y.backward(); }
  RT g(Sh{B, C}), lv(Sh{B, C});
  for (int64_t i = 0; i < B; i++) {
    double S = 0; for (int64_t j = 0; j < C; j++) S += std::exp(x.v[i * C + j]);
    std::vector<double> dl(C, 0); double tot = 0;
    for (int64_t j = 0; j < C; j++) {
      lv.v[i * C + j] = x.v[i * C + j] - std::log(S);
      dl[j] = j == tg[i] ? -(rd == 1 ? 1.0 / B : 1) : 0;
      double dm = ka * 2 * ((how < 2 ? x.v[i * C + j] : lv.v[i * C + j]) - t.v[i * C + j]) / (rd2 == 1 ? (double)(B * C) : 1);
      if (how < 2) g.v[i * C + j] += dm; else dl[j] += dm;
      tot += dl[j];
    }
    for (int64_t j = 0; j < C; j++) g.v[i * C + j] += dl[j] - std::exp(lv.v[i * C + j]) * tot;
  }
  expect(c, "chain-gradient", tx.grad(), g, 1e-4, 1e-4);
  c.outcome(hashRT(g)); c.nontrivial();
}
struct Reg { Reg() {
  add("mse", "mse: shapes x reductions x nine uses of the loss x types x provenance x module or function", fMse, 2);
  add("mse-broadcast", "mse with broadcast operands, every pair of shapes", fMseBroadcast, 2);
  add("mse-close", "mse of predictions close to targets from 0 to 8e6, every pattern of small differences, value and gradient", fMseClose, 3);
  add("nll", "nll: every target assignment up to 3x3 (4x3), reductions, nine uses", fNll, 3);
  add("nll-types", "nll: larger batches, types, provenance, module or function", fNllTypes, 2);
  add("chain", "log-softmax, nll and mse together: every target assignment, reduction pair, factor and order of backward calls", fChain, 3);
} } reg;
}  // namespace
