// A04: gradients of the layers.  linear and conv2d are linear in each argument, so the derivative along one element is the
// exact difference of two evaluations of the reference; pooling routes to the greatest element; dropout to the kept ones.
#include "dual.h"
#include "refnn.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
using namespace mc;

namespace {
RT gradLike(const Sh& s, int salt) { RT g(s); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 0.25 * (double)((i * 7 + salt * 3) % 11) - 1; return g; }
double dot(const RT& a, const RT& b) { double s = 0; for (size_t i = 0; i < a.v.size(); i++) s += a.v[i] * b.v[i]; return s; }
// derivative of <g, f(args)> along every element of argument k, f linear (affine) in it
RT linGrad(std::vector<RT> a, size_t k, const RT& g, const std::function<RT(const std::vector<RT>&)>& f) {
  RT base = f(a), o(a[k].s);
  for (size_t j = 0; j < o.v.size(); j++) {
    double keep = a[k].v[j]; a[k].v[j] = keep + 1;
    RT y = f(a); a[k].v[j] = keep;
    for (size_t i = 0; i < y.v.size(); i++) o.v[j] += g.v[i] * (y.v[i] - base.v[i]);
  }
  return o;
}
void eqGrad(Ctx& c, const char* key, const Tensor& t, bool req, const RT& want, double rel = 1e-5, double ab = 1e-4) {
  if (!req) { if (t.requiresGrad()) c.fail(std::string(key) + "-flag", "an input started to require gradients"); return; }
  const Tensor& g = t.grad();
  if (!g.defined()) { for (double x : want.v) if (x != 0) c.fail(key, "no gradient, expected %s", str(want.v).c_str()); return; }
  expect(c, key, g, want, rel, ab);
  if (g.requiresGrad()) c.fail(std::string(key) + "-flag", "the gradient requires gradients");
}
std::vector<Tensor> make(const std::vector<RT>& a, int mask, DType dt = DType::Float32) {
  std::vector<Tensor> t; for (size_t k = 0; k < a.size(); k++) t.push_back(mk(a[k], dt, mask >> k & 1)); return t;
}
// runs y = f(t...) one or two times over the same parameters, one backward per call or one for the sum
void bilinear(Ctx& c, const char* key, const std::vector<RT>& a, int mask, int reuse, const std::function<Tensor(std::vector<Tensor>&)>& f, const std::function<RT(const std::vector<RT>&)>& ref) {
  auto t = make(a, mask);
  c.site(key);
  Tensor y = f(t);
  RT w = ref(a);
  expect(c, std::string(key) + "-forward", y, w, 1e-5, 1e-4);
  if (y.requiresGrad() != (mask != 0)) c.fail(std::string(key) + "-flag", "the result %s gradients", y.requiresGrad() ? "requires" : "does not require");
  if (!mask) return;
  RT g = gradLike(w.s, 1);
  std::vector<RT> want; for (size_t k = 0; k < a.size(); k++) want.push_back(linGrad(a, k, g, ref));
  Tensor tg = mk(g);
  if (reuse == 0) y.backward(tg);
  else {
    // the same parameters (arguments 1..) with another input
    std::vector<RT> a2 = a; for (auto& x : a2[0].v) x = 0.5 - x;
    std::vector<Tensor> t2 = t; t2[0] = mk(a2[0], DType::Float32, mask & 1);
    RT g2 = gradLike(w.s, 4);
    for (size_t k = 1; k < a.size(); k++) { RT q = linGrad(a2, k, reuse == 1 ? g2 : g, ref); for (size_t i = 0; i < q.v.size(); i++) want[k].v[i] += q.v[i]; }
    RT w0 = linGrad(a2, 0, reuse == 1 ? g2 : g, ref);
    Tensor y2 = f(t2);
    if (reuse == 1) { y.backward(tg); y2.backward(mk(g2)); }
    else if (reuse == 2) { Tensor z = y + y2; z.backward(tg); }
    else { y.backward(tg); y.backward(tg); for (size_t k = 0; k < a.size(); k++) { RT q = linGrad(a, k, g, ref); want[k] = q; for (auto& x : want[k].v) x *= 2; } }
    if (reuse < 3) eqGrad(c, (std::string(key) + "-other-input").c_str(), t2[0], mask & 1, w0);
  }
  static const char* an[] = {"input", "weight", "bias"};
  for (size_t k = 0; k < a.size(); k++) {
    eqGrad(c, (std::string(key) + "-" + an[k]).c_str(), t[k], mask >> k & 1, want[k]);
    expect(c, std::string(key) + "-changed-" + an[k], t[k], a[k]);
  }
  expect(c, std::string(key) + "-incoming-changed", tg, g);
  expect(c, std::string(key) + "-forward-changed", y, w, 1e-5, 1e-4);
  uint64_t h = 1; for (auto& x : want) h = mix(h, hashRT(x));
  c.outcome(h); c.nontrivial();
}
void fLinear(Ctx& c) {
  int rank = 1 + c.pick(4);
  int64_t in = 1 + c.pick(3), out = 1 + c.pick(3);
  bool bias = c.flip();
  int mask = c.pick(bias ? 8 : 4), reuse = c.pick(4);
  Sh xs; for (int k = 0; k + 1 < rank; k++) xs.push_back(rank == 2 ? c.pick({1, 2, 3, 0}) : c.pick({1, 2}));
  xs.push_back(in);
  std::vector<RT> a = {RT(xs, vals(numelOf(xs), 1)), RT(Sh{out, in}, vals(in * out, 2))};
  if (bias) a.push_back(RT(Sh{out}, vals(out, 3)));
  c.desc("linear %s weight %s bias %d requires %d reuse %d", str(xs).c_str(), str(a[1].s).c_str(), bias, mask, reuse);
  bilinear(c, "linear", a, mask, reuse, [&](std::vector<Tensor>& t) { return function::linear(t[0], t[1], bias ? t[2] : Tensor()); }, [&](const std::vector<RT>& r) {
    Sh s = r[0].s; s.back() = out; RT o(s);
    int64_t rows = numelOf(xs) / in;
    for (int64_t i = 0; i < rows; i++) for (int64_t j = 0; j < out; j++) {
      double q = bias ? r[2].v[j] : 0; for (int64_t k = 0; k < in; k++) q += r[0].v[i * in + k] * r[1].v[j * in + k];
      o.v[i * out + j] = q;
    }
    return o; });
}
void conv(Ctx& c, const Sh& xs, const Sh& ks, bool bias, int mask, int reuse, int64_t sh, int64_t sw, int64_t ph, int64_t pw) {
  if (ks[2] > xs[2] + 2 * ph || ks[3] > xs[3] + 2 * pw) c.skip();
  std::vector<RT> a = {RT(xs, vals(numelOf(xs), 1)), RT(ks, vals(numelOf(ks), 2))};
  if (bias) a.push_back(RT(Sh{ks[0]}, vals(ks[0], 3)));
  c.desc("conv2d %s weight %s bias %d requires %d reuse %d stride %ld,%ld pad %ld,%ld", str(xs).c_str(), str(ks).c_str(), bias, mask, reuse, (long)sh, (long)sw, (long)ph, (long)pw);
  bilinear(c, "conv2d", a, mask, reuse, [&](std::vector<Tensor>& t) { return function::conv2d(t[0], t[1], bias ? t[2] : Tensor(), Dim2D(sh, sw), Dim2D(ph, pw)); },
           [&](const std::vector<RT>& r) { return refConv(r[0], r[1], bias ? &r[2] : nullptr, sh, sw, ph, pw); });
}
void fConv(Ctx& c) {   // geometry
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2}), co = c.pick({1, 2});
  int64_t h = 1 + c.pick(4), w = 1 + c.pick(c.thorough() ? 4 : 3), kh = 1 + c.pick(3), kw = 1 + c.pick(2), sh = 1 + c.pick(2), sw = 1 + c.pick(2), ph = c.pick(2), pw = c.pick(2);
  conv(c, {n, ci, h, w}, {co, ci, kh, kw}, true, 7, 0, sh, sw, ph, pw);
}
void fConvFlags(Ctx& c) {
  bool bias = c.flip();
  int mask = c.pick(bias ? 8 : 4), reuse = c.pick(4), geo = c.pick(3);
  static const Sh xs[] = {{2, 2, 3, 3}, {1, 1, 4, 2}, {2, 3, 2, 3}}, ks[] = {{2, 2, 2, 2}, {3, 1, 3, 1}, {1, 3, 2, 2}};
  conv(c, xs[geo], ks[geo], bias, mask, reuse, 1 + (geo == 1), 1, geo == 2, geo != 0);
}
void fPool(Ctx& c) {
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2}), h = 1 + c.pick(4), w = 1 + c.pick(4), kh = 1 + c.pick(3), kw = 1 + c.pick(3), sh = 1 + c.pick(3), sw = 1 + c.pick(2), ph = c.pick(2), pw = c.pick(2);
  bool three = n == 1 && c.flip(), twice = c.flip(); int neg = c.pick(2);
  Sh xs{n, ci, h, w};
  if (kh > h + 2 * ph || kw > w + 2 * pw || 2 * ph > kh || 2 * pw > kw) c.skip();
  RT x(xs); int64_t m = x.numel(), st = 1;
  for (int64_t q : {7, 11, 5, 3}) if (m % q) { st = q; break; }
  for (int64_t i = 0; i < m; i++) x.v[i] = (double)((i * st + 3) % m) * 0.5 - (neg ? m : 1);      // all different
  c.desc("maxPool2d %s%s kernel %ld,%ld stride %ld,%ld pad %ld,%ld %s%s", str(xs).c_str(), three ? " (3-d)" : "", (long)kh, (long)kw, (long)sh, (long)sw, (long)ph, (long)pw, neg ? "negative" : "mixed", twice ? ", backward twice" : "");
  c.site("maxPool2d");
  RT y = refPool(x, kh, kw, sh, sw, ph, pw), g = gradLike(y.s, 2), want(xs);
  int64_t p = 0;
  forEach(y.s, [&](const Sh& i) {
    for (int64_t a = 0; a < kh; a++) for (int64_t b = 0; b < kw; b++) {
      int64_t r = i[2] * sh + a - ph, q = i[3] * sw + b - pw;
      if (r >= 0 && q >= 0 && r < h && q < w && get(x, i[0], i[1], r, q) == y.v[p]) want.v[((i[0] * ci + i[1]) * h + r) * w + q] += g.v[p] * (twice ? 2 : 1);
    }
    p++;
  });
  RT xv = x;
  if (three) { xv.s = {ci, h, w}; y.s.erase(y.s.begin()); g.s.erase(g.s.begin()); want.s = xv.s; }
  Tensor t = mk(xv, DType::Float32, true);
  Tensor o = function::maxPool2d(t, Dim2D(kh, kw), Dim2D(sh, sw), Dim2D(ph, pw));
  expect(c, "maxPool2d-forward", o, y);
  Tensor tg = mk(g);
  o.backward(tg); if (twice) o.backward(tg);
  eqGrad(c, "maxPool2d-input", t, true, want);
  expect(c, "maxPool2d-changed", t, xv); expect(c, "maxPool2d-incoming-changed", tg, g);
  c.outcome(hashRT(want)); c.nontrivial();
}
// ties: the gradient of a window goes to greatest elements only and is passed on entirely
void fPoolTies(Ctx& c) {
  int64_t ci = c.pick({1, 2}), kh = 1 + c.pick(2), kw = 1 + c.pick(3), oh = 1 + c.pick(2), ow = 1 + c.pick(2);
  int bits = c.pick(1 << (kh * kw));
  Sh xs{1, ci, kh * oh, kw * ow}; RT x(xs), y(Sh{1, ci, oh, ow});
  forEach(xs, [&](const Sh& i) { int64_t k = (i[2] % kh) * kw + i[3] % kw; x.v[((i[1]) * xs[2] + i[2]) * xs[3] + i[3]] = (bits >> ((k + i[1]) % (kh * kw)) & 1) ? 2 : 1; });
  y = refPool(x, kh, kw, kh, kw, 0, 0);
  RT g = gradLike(y.s, 5);
  c.desc("maxPool2d with ties %s kernel %ld,%ld pattern %d", str(xs).c_str(), (long)kh, (long)kw, bits); c.site("maxPool2d");
  Tensor t = mk(x, DType::Float32, true);
  Tensor o = function::maxPool2d(t, Dim2D(kh, kw), Dim2D(kh, kw));
  o.backward(mk(g));
  RT r = rt(t.grad());
  if (r.s != xs) c.fail("maxPool2d-input", "gradient of shape %s", str(r.s).c_str());
  int64_t p = 0;
  forEach(y.s, [&](const Sh& i) {
    double s = 0;
    for (int64_t a = 0; a < kh; a++) for (int64_t b = 0; b < kw; b++) {
      double gv = get(r, 0, i[1], i[2] * kh + a, i[3] * kw + b); s += gv;
      if (gv != 0 && get(x, 0, i[1], i[2] * kh + a, i[3] * kw + b) != y.v[p]) c.fail("maxPool2d-tie", "an element below the maximum received gradient %g", gv);
    }
    if (std::fabs(s - g.v[p]) > 1e-5) c.fail("maxPool2d-tie", "window %ld passed on %g of %g", (long)p, s, g.v[p]);
    p++;
  });
  c.outcome(hashRT(r)); c.nontrivial();
}
void fDropout(Ctx& c) {
  static const Sh ss[] = {{5}, {2, 3}, {2, 2, 2}, {1}, {}, {0}, {3, 40}};
  Sh s = ss[c.pick(7)]; double p = c.pick({0.0, 0.25, 0.5, 0.9, 1.0}); bool train = c.flip(), module = c.flip(); int seed = c.pick(c.thorough() ? 40 : 8);
  int twice = c.pick(3);
  manualSeed(seed);
  RT x(s); for (size_t i = 0; i < x.v.size(); i++) x.v[i] = 0.5 + 0.25 * (double)(i % 9) * (i % 2 ? -1 : 1) + (i % 2 ? -1 : 0);
  c.desc("dropout%s %s p %g %s seed %d mode %d", module ? " module" : "", str(s).c_str(), p, train ? "training" : "evaluation", seed, twice); c.site("dropout");
  Tensor t = mk(x, DType::Float32, true), y, y2;
  nn::Dropout m((float)p);
  if (module) { if (train) m.train(); else m.eval(); y = m(t); } else y = function::dropout(t, (float)p, train);
  if (shapeOf(y) != s) c.fail("dropout-shape", "shape %s", str(shapeOf(y)).c_str());
  RT o = rt(y), f(s); int kept = 0;
  for (size_t i = 0; i < o.v.size(); i++) {
    double scale = !train ? 1 : p < 1 ? 1 / (1 - p) : 0;
    bool z = o.v[i] == 0;
    if (!z && std::fabs(o.v[i] - x.v[i] * scale) > 1e-5 * std::fabs(x.v[i] * scale)) c.fail("dropout-value", "element %zu is %g, the input %g", i, o.v[i], x.v[i]);
    if (z && (!train || p == 0)) c.fail("dropout-value", "element %zu was dropped", i);
    if (!z && p == 1 && train) c.fail("dropout-value", "element %zu was kept", i);
    f.v[i] = z ? 0 : scale; kept += !z;
  }
  RT g = gradLike(s, 3), want(s);
  for (auto& q : g.v) if (q == 0) q = 0.125;
  for (size_t i = 0; i < f.v.size(); i++) want.v[i] = f.v[i] * g.v[i];
  Tensor tg = mk(g);
  if (twice == 2) { y2 = module ? m(t) : function::dropout(t, (float)p, train); }   // another mask in between
  y.backward(tg);
  if (twice == 1) { y.backward(tg); for (auto& q : want.v) q *= 2; }
  eqGrad(c, "dropout-input", t, true, want);
  expect(c, "dropout-incoming-changed", tg, g); expect(c, "dropout-changed", t, x);
  c.outcome(mix(hashRT(f), kept)); if (train) c.nontrivial();
}
void fSoftmax(Ctx& c) {
  static const Sh ss[] = {{1}, {3}, {2, 3}, {3, 1}, {1, 2}, {2, 3, 2}, {2, 1, 3}, {2, 2, 2, 2}};
  Sh s = ss[c.pick(8)]; int64_t d = (int64_t)c.pick((int)s.size() * 2) - (int64_t)s.size(); bool lg = c.flip(); int pat = c.pick(4), twice = c.pick(2), gk = c.pick(3);
  c.desc("%s %s dim %ld values %d grad %d%s", lg ? "logSoftmax" : "softmax", str(s).c_str(), (long)d, pat, gk, twice ? " twice" : ""); c.site("softmax");
  RT x(s, vals(numelOf(s), pat)); if (pat == 2) for (auto& q : x.v) q *= 20; if (pat == 3) for (auto& q : x.v) q = 100;
  size_t n = x.v.size();
  DT y = dSoftmax(dLeaf(x, 0, n), d < 0 ? d + (int64_t)s.size() : d, lg, n);
  RT g = gradLike(s, 2); if (gk == 1) for (auto& q : g.v) q = 1; if (gk == 2) for (size_t i = 0; i < n; i++) g.v[i] = i == n / 2;
  RT want(s);
  for (size_t j = 0; j < n; j++) for (size_t i = 0; i < n; i++) want.v[j] += g.v[i] * y.e[i].d[j] * (twice ? 2 : 1);
  Tensor t = mk(x, DType::Float32, true), tg = mk(g);
  Tensor o;
  if (pat == 1) { if (lg) o = function::logSoftmax(t, d); else { nn::Softmax m(d); o = m(t); } } else o = lg ? function::logSoftmax(t, d) : function::softmax(t, d);
  expect(c, "softmax-forward", o, y.val(), 1e-5, 1e-5);
  o.backward(tg); if (twice) o.backward(tg);
  eqGrad(c, lg ? "logSoftmax-input" : "softmax-input", t, true, want, 1e-4, 2e-5);
  expect(c, "softmax-incoming-changed", tg, g); expect(c, "softmax-changed", t, x);
  c.outcome(hashRT(want)); if (n > 1) c.nontrivial();
}
// layers in a row: conv -> relu -> pool -> flatten -> linear -> logSoftmax through the modules, against forward-mode
void fNet(Ctx& c) {
  int64_t n = c.pick({1, 2}), ci = c.pick({1, 2}), co = c.pick({1, 2}); int pad = c.pick(2), stride = 1 + c.pick(2); bool pool = c.flip(); int act = c.pick(3), head = c.pick(3); bool shareInput = c.flip();
  int64_t H = 4, W = 4, k = 2;
  RT x(Sh{n, ci, H, W}, vals(n * ci * H * W, 1)), kw(Sh{co, ci, k, k}, vals(co * ci * k * k, 2)), kb(Sh{co}, vals(co, 3));
  int64_t oh = (H + 2 * pad - k) / stride + 1, ow = oh, fh = pool ? oh / 2 : oh, fw = fh, F = co * fh * fw, out = 3;
  if (fh < 1) c.skip();
  RT lw(Sh{out, F}, vals(out * F, 4)), lb(Sh{out}, vals(out, 5));
  size_t N = 0; size_t bx = N; N += x.v.size(); size_t bk = N; N += kw.v.size(); size_t bb = N; N += kb.v.size(); size_t bl = N; N += lw.v.size(); size_t bd = N; N += lb.v.size();
  c.desc("net n %ld ci %ld co %ld pad %d stride %d pool %d act %d head %d%s", (long)n, (long)ci, (long)co, pad, stride, pool, act, head, shareInput ? " two passes" : ""); c.site("net");
  // reference: values and derivative vectors
  DT dx = dLeaf(x, bx, N), dk = dLeaf(kw, bk, N), db = dLeaf(kb, bb, N), dl = dLeaf(lw, bl, N), dd = dLeaf(lb, bd, N);
  auto fma_ = [&](DV& o, const DV& a, const DV& b) { o.v += a.v * b.v; for (size_t q = 0; q < N; q++) o.d[q] += a.d[q] * b.v + a.v * b.d[q]; };
  DT y; y.s = {n, co, oh, ow};
  forEach(y.s, [&](const Sh& i) {
    DV o = db.e[i[1]];
    for (int64_t cc = 0; cc < ci; cc++) for (int64_t a = 0; a < k; a++) for (int64_t b = 0; b < k; b++) {
      int64_t r = i[2] * stride + a - pad, q = i[3] * stride + b - pad; if (r < 0 || q < 0 || r >= H || q >= W) continue;
      fma_(o, dx.e[((i[0] * ci + cc) * H + r) * W + q], dk.e[((i[1] * ci + cc) * k + a) * k + b]);
    }
    y.e.push_back(o);
  });
  bool tie = false;
  if (act == 0) for (auto& e : y.e) { if (std::fabs(e.v) < 1e-3) tie = true; if (e.v < 0) e = DV(0, N); }
  else if (act == 1) y = dUnary(y, [](double v) { return std::pair<double, double>(std::sin(v), std::cos(v)); });
  if (pool) {
    DT z; z.s = {n, co, fh, fw};
    forEach(z.s, [&](const Sh& i) {
      const DV* best = nullptr;
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { const DV& e = y.e[((i[0] * co + i[1]) * oh + i[2] * 2 + a) * ow + i[3] * 2 + b]; if (best && std::fabs(best->v - e.v) < 1e-4) { if (best->d != e.d) tie = true; } if (!best || e.v > best->v) best = &e; }
      z.e.push_back(*best);
    });
    y = z;
  }
  if (tie) c.skip();
  DT o; o.s = {n, out};
  for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < out; j++) { DV q = dd.e[j]; for (int64_t f = 0; f < F; f++) fma_(q, y.e[i * F + f], dl.e[j * F + f]); o.e.push_back(q); }
  if (head == 1) o = dSoftmax(o, 1, true, N); else if (head == 2) o = dSoftmax(o, 0, false, N);
  Tensor tx = mk(x, DType::Float32, true);
  nn::Conv2D cv(ci, co, Dim2D(k, k), Dim2D(stride, stride), Dim2D(pad, pad), true); nn::Linear li(F, out, true); nn::MaxPool2D mp(Dim2D(2, 2)); nn::Flatten fl(1); nn::Relu re; nn::LogSoftmax ls(1);
  cv.weight().copy_(mk(kw)); cv.bias().copy_(mk(kb)); li.weight().copy_(mk(lw)); li.bias().copy_(mk(lb));
  auto run = [&] { Tensor h = cv(tx); if (act == 0) h = re(h); else if (act == 1) h = h.sin(); if (pool) h = mp(h); h = li(fl(h)); if (head == 1) h = ls(h); else if (head == 2) h = function::softmax(h, 0); return h; };
  Tensor r = run();
  expect(c, "net-forward", r, o.val(), 1e-4, 1e-4);
  RT g = gradLike(o.s, 1);
  double times = 1;
  if (shareInput) { Tensor r2 = run(); Tensor z = r + r2; z.backward(mk(g)); times = 2; } else r.backward(mk(g));
  struct P { const char* n; Tensor* t; Sh s; size_t b; } ps[] = {{"input", &tx, x.s, bx}, {"conv-weight", &cv.weight(), kw.s, bk}, {"conv-bias", &cv.bias(), kb.s, bb}, {"linear-weight", &li.weight(), lw.s, bl}, {"linear-bias", &li.bias(), lb.s, bd}};
  uint64_t h = 0;
  for (auto& p : ps) {
    RT w(p.s); for (size_t j = 0; j < w.v.size(); j++) for (size_t i = 0; i < o.e.size(); i++) w.v[j] += times * g.v[i] * o.e[i].d[p.b + j];
    eqGrad(c, (std::string("net-") + p.n).c_str(), *p.t, true, w, 1e-3, 2e-4); h = mix(h, hashRT(w));
  }
  c.outcome(h); c.nontrivial();
}
struct Reg { Reg() {
  add("linear", "every linear call of rank 1 to 4, features 1 to 3, every set of gradient-requiring arguments, parameters used once, twice with separate backward calls, twice in one sum, and backward twice", fLinear, 3);
  add("conv-geometry", "every conv2d geometry with images up to 4x4, kernels up to 3x2, strides and padding up to 2 and 1, channels and batch up to 2", fConv, 3);
  add("conv-flags", "conv2d: every set of gradient-requiring arguments and every way of reuse", fConvFlags, 2);
  add("pool", "every maxPool2d geometry on different values, batched and unbatched, once and twice", fPool, 3);
  add("pool-ties", "every pattern of equal maxima in non-overlapping windows", fPoolTies, 2);
  add("dropout", "dropout function and module over probabilities, modes and seeds, with the observed mask", fDropout, 2);
  add("softmax", "softmax and logSoftmax over every dimension of shapes up to rank 4", fSoftmax, 2);
  add("net", "conv, activation, pool, flatten, linear, softmax in a row through the modules, against forward-mode derivatives", fNet, 3);
} } reg;
}  // namespace
