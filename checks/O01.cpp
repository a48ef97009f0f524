// O01: every history of gradients, steps and user changes leaves each parameter where the update rule puts it.
#include <memory>
#include "../mc/tt.h"
#include "Optimizer.h"
#include "Scheduler.h"
using namespace mc;
using namespace tinytorch::optim;
namespace {
enum Kind { kSGD, kAdagrad, kRMS, kDelta, kAdam, kAdamW };
struct Cfg {
  Kind k = kSGD; float lr = 0.1f, wd = 0, mom = 0, damp = 0, lrDecay = 0, initAcc = 0, eps = 1e-8f, alpha = 0.99f, b1 = 0.9f, b2 = 0.999f;
  bool nesterov = false, centered = false, ams = false;
  std::string str() const {
    char b[256];
    static const char* n[] = {"SGD", "Adagrad", "RMSprop", "AdaDelta", "Adam", "AdamW"};
    switch (k) {
      case kSGD: snprintf(b, sizeof b, "SGD(lr=%g,momentum=%g,dampening=%g,wd=%g,nesterov=%d)", lr, mom, damp, wd, nesterov); break;
      case kAdagrad: snprintf(b, sizeof b, "Adagrad(lr=%g,lrDecay=%g,wd=%g,initAcc=%g,eps=%g)", lr, lrDecay, wd, initAcc, eps); break;
      case kRMS: snprintf(b, sizeof b, "RMSprop(lr=%g,alpha=%g,eps=%g,wd=%g,momentum=%g,centered=%d)", lr, alpha, eps, wd, mom, centered); break;
      case kDelta: snprintf(b, sizeof b, "AdaDelta(lr=%g,rho=%g,eps=%g,wd=%g)", lr, alpha, eps, wd); break;
      default: snprintf(b, sizeof b, "%s(lr=%g,betas=%g/%g,eps=%g,wd=%g,amsgrad=%d)", n[k], lr, b1, b2, eps, wd, ams); break;
    }
    return b;
  }
};
std::unique_ptr<Optimizer> make(const Cfg& f, std::vector<TensorPtr> ps) {
  switch (f.k) {
    case kSGD: return std::make_unique<SGD>(std::move(ps), f.lr, f.mom, f.damp, f.wd, f.nesterov);
    case kAdagrad: return std::make_unique<Adagrad>(std::move(ps), f.lr, f.lrDecay, f.wd, f.initAcc, f.eps);
    case kRMS: return std::make_unique<RMSprop>(std::move(ps), f.lr, f.alpha, f.eps, f.wd, f.mom, f.centered);
    case kDelta: return std::make_unique<AdaDelta>(std::move(ps), f.lr, f.alpha, f.eps, f.wd);
    case kAdam: return std::make_unique<Adam>(std::move(ps), f.lr, std::pair<float, float>{f.b1, f.b2}, f.eps, f.wd, f.ams);
    default: return std::make_unique<AdamW>(std::move(ps), f.lr, std::pair<float, float>{f.b1, f.b2}, f.eps, f.wd, f.ams);
  }
}
// one scalar element of one parameter
struct El { double p = 0, a = 0, b = 0, m = 0; };
struct Par { RT init; std::vector<El> e; int n = 0; bool ill = false; };  // n: updates so far; ill: variance lost to cancellation, not comparable
void rule(const Cfg& f, double lr, Par& P, const std::vector<double>& grad) {
  P.n++;
  for (size_t i = 0; i < P.e.size(); i++) {
    El& e = P.e[i]; double g = grad[i];
    if (f.k == kAdamW) e.p *= 1 - lr * f.wd; else g += (double)f.wd * e.p;
    switch (f.k) {
      case kSGD:
        if (f.mom != 0) { e.a = P.n == 1 ? g : f.mom * e.a + (1 - (double)f.damp) * g; g = f.nesterov ? g + f.mom * e.a : e.a; }
        e.p -= lr * g; break;
      case kAdagrad:
        if (P.n == 1) e.a = f.initAcc;
        e.a += g * g; e.p -= lr / (1 + (P.n - 1) * (double)f.lrDecay) * g / (std::sqrt(e.a) + f.eps); break;
      case kRMS: {
        e.a = f.alpha * e.a + (1 - (double)f.alpha) * g * g;
        double v = e.a;
        if (f.centered) { e.b = f.alpha * e.b + (1 - (double)f.alpha) * g; v -= e.b * e.b; if (v < 1e-2 * e.a) P.ill = true; }
        double d = std::sqrt(v) + f.eps;
        if (f.mom != 0) { e.m = f.mom * e.m + g / d; e.p -= lr * e.m; } else e.p -= lr * g / d;
        break;
      }
      case kDelta: {
        e.a = f.alpha * e.a + (1 - (double)f.alpha) * g * g;
        double d = std::sqrt(e.b + f.eps) / std::sqrt(e.a + f.eps) * g;
        e.b = f.alpha * e.b + (1 - (double)f.alpha) * d * d;
        e.p -= lr * d; break;
      }
      default: {
        e.a = f.b1 * e.a + (1 - (double)f.b1) * g;
        e.b = f.b2 * e.b + (1 - (double)f.b2) * g * g;
        double vh = e.b / (1 - std::pow((double)f.b2, P.n));
        if (f.ams) vh = e.m = std::max(e.m, vh);
        e.p -= lr * (e.a / (1 - std::pow((double)f.b1, P.n))) / (std::sqrt(vh) + f.eps);
      }
    }
  }
}
enum Act { aBack0, aBack1, aStep, aZero, aBackBoth, aClear0, aSet0, aLr, aTouch, aNeg0, aMutHeld, aZeroOne, NA, aFreeze0, aFreeze1 };
const char* an[] = {"backward(p0)", "backward(p1)", "step", "zeroGrad", "backward(p0,p1)", "p0.grad=none", "p0.grad=set", "setLr", "p0+=c", "backward(-p0)", "held-grad*=2", "p0.zeroGrad", "", "freeze/unfreeze p0", "freeze/unfreeze p1"};

struct World { std::vector<Tensor> p; std::vector<Par> m; std::unique_ptr<Optimizer> o, o2; Cfg f; double lr; bool isFrozen[2] = {false, false}; int steps = 0; };
void gradOf(const Tensor& p, bool& has, std::vector<double>& v) { has = p.requiresGrad() && p.grad().defined(); v = has ? rawValues(p.grad()) : std::vector<double>(); }
void doBack(World& w, int i, double s) {
  if (!w.p[i].requiresGrad()) return;
  Tensor k = mk(shapeOf(w.p[i]), [&] { auto v = jumble(w.p[i].numel(), (int)(s * 7) + i); for (auto& x : v) x = x * 0.25 * s; return v; }());
  Tensor y = function::sum(function::mul(w.p[i], k));
  y.backward();
}
void check(Ctx& c, World& w, const char* after) {
  for (size_t i = 0; i < w.p.size(); i++) {
    if (w.m[i].ill) c.skip();
    RT want(w.m[i].init.s); for (size_t j = 0; j < want.v.size(); j++) want.v[j] = w.m[i].e[j].p;
    char key[96]; snprintf(key, sizeof key, "%s:param-value", after);
    expect(c, key, w.p[i], want, 1e-4, 2e-5);
    if (w.p[i].requiresGrad() == w.isFrozen[i] || (!w.isFrozen[i] && !w.p[i].isLeaf())) c.fail("leaf", "parameter %zu is no longer a leaf with the requires-gradient setting it had after %s", i, after);
  }
}
bool act(Ctx& c, World& w, int a, int s) {
  switch (a) {
    case aBack0: doBack(w, 0, 1 + s % 3); return true;
    case aNeg0: doBack(w, 0, -1.5); return true;
    case aBack1: doBack(w, 1, 1 + s % 2); return true;
    case aBackBoth: doBack(w, 0, 0.5); doBack(w, 1, -1); return true;
    case aZero: case aZeroOne:
      if (a == aZero) w.o->zeroGrad(); else w.p[0].zeroGrad();
      for (size_t i = 0; i < (a == aZero ? w.p.size() : 1); i++) if (w.p[i].requiresGrad() && w.p[i].grad().defined()) for (double x : rawValues(w.p[i].grad())) if (x != 0) c.fail("zero-grad", "gradient of parameter %zu is %g after zeroing", i, x);
      return true;
    case aClear0: if (!w.p[0].grad().defined()) return false; w.p[0].setGrad(Tensor()); return true;
    case aSet0: w.p[0].setGrad(mk(shapeOf(w.p[0]), jumble(w.p[0].numel(), s))); return true;
    case aLr: w.lr = w.lr == (double)w.f.lr ? 0.25 : (double)w.f.lr; w.o->setLr((float)w.lr); if (w.o->getLr() != (float)w.lr) c.fail("lr", "getLr %g after setLr(%g)", w.o->getLr(), w.lr); return true;
    case aTouch: { NoGradGuard ng; w.p[0] += Scalar(0.5f); for (auto& e : w.m[0].e) e.p += 0.5; return true; }
    case aMutHeld: { if (!w.p[0].grad().defined()) return false; NoGradGuard ng; w.p[0].grad() *= Scalar(2.f); return true; }
    case aFreeze0: case aFreeze1: { int i = a == aFreeze1; w.isFrozen[i] = !w.isFrozen[i]; w.p[i].setRequiresGrad(!w.isFrozen[i]); return true; }
    case aStep: {
      size_t n = w.p.size();
      std::vector<bool> has(n); std::vector<std::vector<double>> g(n); std::vector<Tensor> held(n);
      for (size_t i = 0; i < n; i++) { bool h; gradOf(w.p[i], h, g[i]); has[i] = h; if (h) held[i] = w.p[i].grad(); }
      auto before = rawValues(w.p[0]), before1 = rawValues(w.p[1]);
      w.o->step(); w.steps++;
      for (size_t i = 0; i < n; i++) {
        bool h; std::vector<double> v; gradOf(w.p[i], h, v);
        if (h != has[i] || v != g[i]) c.fail("grad-modified", "step changed the gradient of parameter %zu: %s -> %s", i, str(g[i]).c_str(), str(v).c_str());
        if (h && rawValues(held[i]) != g[i]) c.fail("grad-modified", "step changed a held gradient of parameter %zu", i);
        if (has[i]) rule(w.f, w.lr, w.m[i], g[i]);
        else if (rawValues(w.p[i]) != (i ? before1 : before)) c.fail("no-grad-touched", "parameter %zu has no gradient but a step changed it", i);
      }
      return true;
    }
  }
  return false;
}
uint64_t hash(World& w) {
  uint64_t h = 1;
  auto q = [&](double x) { h = mix(h, (uint64_t)(int64_t)std::llround(x * 65536)); };
  for (size_t i = 0; i < w.p.size(); i++) { h = mix(h, w.m[i].n); for (auto& e : w.m[i].e) { q(e.p); q(e.a); q(e.b); q(e.m); } bool hh; std::vector<double> v; gradOf(w.p[i], hh, v); h = mix(h, hh); for (double x : v) q(x); }
  h = mix(h, w.isFrozen[0] * 2 + w.isFrozen[1]);
  q(w.lr); return h;
}
void run(Ctx& c, const Cfg& f, const std::vector<int>& acts, int depth, const std::vector<Sh>& shapes) {
  auto up = std::make_unique<World>(); World& w = *up; w.f = f; w.lr = f.lr;
  std::vector<TensorPtr> ps;
  w.p.reserve(shapes.size());
  for (size_t i = 0; i < shapes.size(); i++) {
    auto v = jumble(numelOf(shapes[i]), (int)i * 3 + 1); for (auto& x : v) x = x * 0.25;
    w.p.push_back(mk(shapes[i], v, DType::Float32, true));
    Par P; P.init = RT(shapes[i], v); for (double x : v) { El e; e.p = x; P.e.push_back(e); } w.m.push_back(P);
  }
  for (auto& t : w.p) ps.push_back(&t);
  w.o = make(f, ps);
  c.desc("%s ", f.str().c_str());
  for (int s = 0; s < depth; s++) {
    int a = s == depth - 1 ? aStep : acts[c.pick((int)acts.size())];
    c.desc("%s;", an[a]); c.site(an[a]);
    if (!act(c, w, a, s)) c.skip();
    check(c, w, an[a]);
    c.transition(); c.state(hash(w));
  }
  int upd = 0; for (auto& m : w.m) upd += m.n;
  if (upd > 1) c.nontrivial();
  c.trace(); c.outcome(hash(w));
}
// configurations: every combination of the listed option values
Cfg pickCfg(Ctx& c, bool wide) {
  Cfg f; f.k = (Kind)c.pick(6);
  f.wd = c.pick({0.f, 0.2f});
  switch (f.k) {
    case kSGD: f.mom = c.pick({0.f, 0.9f}); if (f.mom != 0) { f.nesterov = c.flip(); if (!f.nesterov) f.damp = c.pick({0.f, 0.5f}); } break;
    case kAdagrad: f.lrDecay = c.pick({0.f, 0.3f}); f.initAcc = c.pick({0.f, 0.5f}); f.eps = wide ? c.pick({1e-10f, 0.1f}) : 1e-3f; break;
    case kRMS: f.mom = c.pick({0.f, 0.5f}); f.centered = c.flip(); f.alpha = wide ? c.pick({0.9f, 0.5f}) : 0.8f; f.eps = wide ? c.pick({1e-8f, 0.1f}) : 1e-2f; break;
    case kDelta: f.alpha = wide ? c.pick({0.9f, 0.5f}) : 0.8f; f.eps = wide ? c.pick({1e-6f, 0.1f}) : 1e-2f; break;
    default: f.ams = c.flip(); if (wide ? c.flip() : false) { f.b1 = 0.5f; f.b2 = 0.7f; } else if (!wide) { f.b1 = 0.8f; f.b2 = 0.6f; } f.eps = wide ? c.pick({1e-8f, 0.1f}) : 1e-2f; break;
  }
  return f;
}
void fWide(Ctx& c) { static std::vector<int> a = [] { std::vector<int> v; for (int i = 0; i < NA; i++) v.push_back(i); return v; }(); Cfg f = pickCfg(c, false); run(c, f, a, c.thorough() ? 5 : 4, {{2}, {2, 1}}); }
void fCore(Ctx& c) { Cfg f = pickCfg(c, true); run(c, f, {aBack0, aBack1, aStep, aZero}, c.thorough() ? 8 : 6, {{2}, {2, 1}}); }
void fSteps(Ctx& c) { Cfg f = pickCfg(c, false); run(c, f, {aStep, aNeg0, aBack0}, c.thorough() ? 11 : 8, {{2}, {2, 1}}); }
void fFrozen(Ctx& c) { Cfg f = pickCfg(c, false); run(c, f, {aStep, aBackBoth, aFreeze0, aFreeze1, aZero}, c.thorough() ? 7 : 6, {{2}, {2, 1}}); }
void fLong(Ctx& c) {  // long runs of identical steps: bias correction, decay and accumulation far from the start
  Cfg f = pickCfg(c, true);
  auto up = std::make_unique<World>(); World& w = *up; w.f = f; w.lr = f.lr;
  int which = c.pick(3);
  Sh sh = c.pick(std::vector<Sh>{{}, {1}, {0}, {3}, {2, 2}});
  int n = c.pick({1, 2, 10, 60});
  c.desc("%s shape %s, %d steps, gradients %s", f.str().c_str(), str(sh).c_str(), n, which == 0 ? "constant" : which == 1 ? "alternating" : "shrinking");
  auto v = jumble(numelOf(sh), 5); for (auto& x : v) x *= 0.25;
  w.p = {mk(sh, v, DType::Float32, true), mk(Sh{1}, {1}, DType::Float32, true)};
  for (auto& t : w.p) { Par P; P.init = rt(t); for (double x : P.init.v) { El e; e.p = x; P.e.push_back(e); } w.m.push_back(P); }
  w.o = make(f, {&w.p[0], &w.p[1]});
  for (int s = 0; s < n; s++) {
    double k = which == 0 ? 1 : which == 1 ? (s % 2 ? -0.5 : 1) : std::pow(0.8, s);
    auto g = jumble(numelOf(sh), 9); for (auto& x : g) x *= k;
    w.p[0].setGrad(mk(sh, g));
    if (s % 3 == 0) w.p[1].setGrad(mk(Sh{1}, {k})); else w.p[1].setGrad(Tensor());
    act(c, w, aStep, s);
    if (w.m[0].ill || w.m[1].ill) break;
    for (size_t i = 0; i < 2; i++) {
      RT want(w.m[i].init.s); for (size_t j = 0; j < want.v.size(); j++) want.v[j] = w.m[i].e[j].p;
      expect(c, "long-run", w.p[i], want, 1e-3, 1e-4 * (s + 1));
    }
    c.transition();
  }
  if (n > 2) c.nontrivial();
}
// two optimizers over the same parameter, and optimizers whose parameter list is a subset
void fTwo(Ctx& c) {
  Cfg f = pickCfg(c, false), g = pickCfg(c, false);
  Tensor a = mk(Sh{2}, {0.5, -1}, DType::Float32, true), b = mk(Sh{2}, {2, 0.25}, DType::Float32, true), other = mk(Sh{1}, {3}, DType::Float32, true);
  World A, B; A.f = f; A.lr = f.lr; B.f = g; B.lr = g.lr;
  c.desc("%s on a, %s on b", f.str().c_str(), g.str().c_str());
  auto par = [](const Tensor& t) { Par P; P.init = rt(t); for (double x : P.init.v) { El e; e.p = x; P.e.push_back(e); } return P; };
  Par pa = par(a), pb = par(b);
  auto oa = make(f, {&a}), ob = make(g, {&b});
  for (int s = 0; s < 4; s++) {
    Tensor y = function::sum(function::add(function::mul(a, b), function::mul(other, other)));
    y.backward();
    auto ga = rawValues(a.grad()), gb = rawValues(b.grad());
    bool first = (s & 1) == 0;
    if (first) { oa->step(); rule(f, f.lr, pa, ga); if (s) { ob->step(); rule(g, g.lr, pb, gb); } }
    else { ob->step(); rule(g, g.lr, pb, gb); oa->zeroGrad(); }
    for (auto& pr : {std::make_pair(&a, &pa), std::make_pair(&b, &pb)}) { RT w(Sh{2}); for (int j = 0; j < 2; j++) w.v[j] = pr.second->e[j].p; expect(c, "two", *pr.first, w, 1e-3, 1e-4); }
    if (rawValues(other) != std::vector<double>{3}) c.fail("other", "a tensor that is not a parameter was changed");
    c.transition();
  }
  c.nontrivial();
}
struct Reg { Reg() {
  add("wide", "every optimizer configuration x every history of 4 (5) actions over backward, step, zeroing, clearing/setting/scaling gradients, changing lr and the parameter", fWide, 3);
  add("core", "every optimizer configuration (wider constants) x every history of 6 (8) actions over backward on either parameter, step, zeroGrad", fCore, 3);
  add("steps", "every optimizer configuration x every history of 8 (11) actions over two gradients and step", fSteps, 3);
  add("frozen", "every optimizer configuration x every history of 6 (7) actions over step, backward, zeroGrad and freezing or unfreezing either parameter", fFrozen, 3);
  add("long", "every configuration x 5 shapes x 3 gradient patterns x 1, 2, 10, 60 steps", fLong, 3);
  add("two", "every pair of configurations on two parameters of one expression, steps interleaved", fTwo, 3);
} } reg;
}  // namespace
