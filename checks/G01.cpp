// G01: the CUDA backend against the CPU backend, on an emulated GPU (mc/cuemu.h).  Every case is a small program
// that runs twice: on the CPU in float32, and on the GPU in the case's type under one of the schedules of threads,
// blocks and queued work.  Whatever it hands to out() must agree; no access of a GPU thread may be out of bounds,
// out of life time, misaligned or unordered with a conflicting one; no memory may stay allocated.
#include "../mc/cuemu.h"
#include "../mc/tt.h"
#include "Functions.h"
#include "Modules.h"
#include "Operations.h"
#include "Optimizer.h"
#include "Serializer.h"
#include "Tensor/CachedAllocator.h"
#include "Utils/CUDAUtils.h"
#include "Utils/RandomGenerator.h"
#include <set>
#include <unistd.h>
using namespace tinytorch;
using namespace mc;
namespace {
typedef std::vector<Tensor> TL;
const std::vector<DType> kF = {DType::Float32, DType::Float16, DType::BFloat16};
bool isF(DType t) { return t == DType::Float32 || t == DType::Float16 || t == DType::BFloat16; }

enum Kind { Mixed, Pos, Ties, Neg, Unit, Minf };
double value(int64_t i, int salt, Kind k) {
  int64_t j = (i * 37 + salt * 13);
  switch (k) {
    case Mixed: return (double)(j % 101 - 50) / 16 + 1.0 / 32;
    case Pos: return (double)(j % 61 + 2) / 16;
    case Ties: return (double)((i * 7 + salt) % 5) - 2;
    case Neg: return -(double)(j % 61 + 2) / 16;
    case Unit: return (double)(j % 31) / 64 + 1.0 / 4;
    case Minf: return -INFINITY;
  }
  return 0;
}

struct X {
  Ctx& c; bool gpu; DType dt; int prov; int dev = 0;
  bool ints = false;
  std::vector<Tensor> results, keep;
  std::vector<std::string> names;
  std::vector<double> scale;

  DType type(DType d) const { return gpu || !isF(d) ? d : DType::Float32; }
  Device device() const { return gpu ? Device(DeviceType::CUDA, (DeviceIndex)dev) : Device(DeviceType::CPU); }
  Options opt(DType d) const { Options o = options::dtype(type(d)); return gpu ? o.device(device()) : o; }
  Options opt() const { return opt(dt); }
  Tensor put(const Sh& s, std::vector<double> v, DType d) {
    if (isF(d)) for (auto& x : v) x = roundTo(x, d);
    if (!gpu) return mk(s, v, type(d), false, prov, &keep);
    if (prov == OffsetView && !s.empty() && s[0] > 0) {
      Sh big = s; big[0] += 2;
      int64_t row = numelOf(s) / s[0];
      std::vector<double> b((size_t)row, kPoison);
      b.insert(b.end(), v.begin(), v.end());
      b.insert(b.end(), (size_t)row, kPoison);
      keep.push_back(mk(big, b, d).to(device()));
      return keep.back().narrow(0, 1, s[0]);
    }
    Tensor t = mk(s, v, d).to(device());
    if (prov == CloneShared) { keep.push_back(t); return t.clone(); }
    return t;
  }
  Tensor f(const Sh& s, int salt = 0, Kind k = Mixed) {
    std::vector<double> v((size_t)numelOf(s));
    for (size_t i = 0; i < v.size(); i++) v[i] = value((int64_t)i, salt, k);
    return put(s, v, dt);
  }
  Tensor ix(const Sh& s, int64_t mod, int salt = 0, bool wrap = false) {
    std::vector<double> v((size_t)numelOf(s));
    for (size_t i = 0; i < v.size(); i++) { v[i] = (double)((i * 5 + salt * 3 + i / 7) % mod); if (wrap && i % 2) v[i] -= (double)mod; }
    return put(s, v, DType::Int64);
  }
  Tensor bo(const Sh& s, int salt = 0) {
    std::vector<double> v((size_t)numelOf(s));
    for (size_t i = 0; i < v.size(); i++) v[i] = (i * 5 + salt * 3 + i / 7) % 3 == 0;
    return put(s, v, DType::Bool);
  }
  Tensor num(double v) { return Tensor::scalar(Scalar((float)roundTo(v, dt)), opt()); }
  void out(const std::string& n, const Tensor& t, double sc = 1) {
    if (!t.defined()) { names.push_back(n + " (undefined)"); results.emplace_back(); scale.push_back(sc); return; }
    names.push_back(n);
    results.push_back(t); scale.push_back(sc);
  }
  void out(const std::string& n, const TensorPair& p, double sc = 1) { out(n + ".first", p.first, sc); out(n + ".second", p.second, sc); }
};

struct Sched { const char* n; bool lazy, td, bd, ties; };
const Sched kSched[] = {{"first to last", false, false, false, false}, {"last to first, queued", true, true, true, true}, {"threads last to first", false, true, false, true}, {"queued", true, false, true, false}};

void setMode(int s) { cuemu::mode.lazy = kSched[s].lazy; cuemu::mode.threadsDown = kSched[s].td; cuemu::mode.blocksDown = kSched[s].bd; cuemu::mode.tiesDown = kSched[s].ties; }
// what a GPU tensor holds
RT fetch(const Tensor& t) { return rt(t.device().type == DeviceType::CPU ? t : t.to(Device(DeviceType::CPU))); }
void after(Ctx& c, size_t live) {
  cuemu::finish();
  if (!cuemu::problem().empty()) c.fail("gpu-access", "%s", cuemu::problem().c_str());
  if (cuemu::liveBytes() != live) c.fail("gpu-leak", "%zu bytes of device memory stay allocated", cuemu::liveBytes() - live);
}
int schedule(Ctx& c) { return c.pick(c.thorough() ? 4 : 2); }
// runs f on both sides
void both(Ctx& c, DType dt, int prov, int sched, const std::function<void(X&)>& f, double loose = 1, bool freed = true) {
  X cpu{c, false, dt, prov};
  f(cpu);
  setMode(sched);
  cuemu::reset();
  size_t live = cuemu::liveBytes();
  {
    X gpu{c, true, dt, prov};
    f(gpu);
    if (gpu.results.size() != cpu.results.size()) c.fail("count", "%zu results on the GPU, %zu on the CPU", gpu.results.size(), cpu.results.size());
    for (size_t i = 0; i < gpu.keep.size() && i < cpu.keep.size(); i++) { gpu.out("bystander", gpu.keep[i]); cpu.out("bystander", cpu.keep[i]); }
    for (size_t i = 0; i < gpu.results.size(); i++) {
      const Tensor &g = gpu.results[i], &w = cpu.results[i];
      const char* n = cpu.names[i].c_str();
      if (g.defined() != w.defined()) c.fail(n, "defined on one side only");
      if (!g.defined()) continue;
      DType wt = w.dtype() == DType::Float32 && g.dtype() == dt ? dt : w.dtype();
      if (g.dtype() != wt) c.fail(std::string(n) + "-type", "%s on the GPU, expected %s", dtName(g.dtype()), dtName(wt));
      RT a = fetch(g), b = rt(w);
      if (!cuemu::problem().empty()) c.fail("gpu-access", "%s", cuemu::problem().c_str());
      if (a.s != b.s) c.fail(std::string(n) + "-shape", "shape %s on the GPU, %s on the CPU", str(a.s).c_str(), str(b.s).c_str());
      double rel = 0, ab = 0, k = loose * cpu.scale[i];
      if (isF(wt)) { rel = (wt == DType::Float32 ? 2e-5 : wt == DType::Float16 ? 4e-3 : 3e-2) * k; ab = (wt == DType::Float32 ? 1e-5 : wt == DType::Float16 ? 2e-3 : 1.5e-2) * k; }
      for (size_t j = 0; j < a.v.size(); j++) {
        double e = wt == DType::Float16 ? roundTo(b.v[j], wt) : b.v[j];
        if (!sameD(a.v[j], e, rel, ab)) c.fail(n, "element %zu is %.9g on the GPU, %.9g on the CPU; GPU %s CPU %s", j, a.v[j], e, str(a.v).c_str(), str(b.v).c_str());
      }
      uint64_t h = 0;
      for (size_t j = 0; j < a.v.size(); j += 1 + a.v.size() / 8) h = mix(h, (uint64_t)(int64_t)(a.v[j] * 1024));
      c.outcome(h);
    }
  }
  cpu.results.clear(); cpu.keep.clear();
  after(c, freed ? live : cuemu::liveBytes());
  c.transition(cuemu::launches());
}
const std::vector<Sh> kShapes = {{}, {1}, {5}, {3, 4}, {2, 3, 2}, {515}, {0}, {2, 0}};

// ---- element-wise
struct Un { const char* n; Kind k; Tensor (*f)(const Tensor&); void (*o)(Tensor&, const Tensor&); void (*i)(Tensor&); };
#define U(N, K) {#N, K, [](const Tensor& a) { return op::N(a); }, [](Tensor& o, const Tensor& a) { op::N##Out(o, a); }, [](Tensor& a) { op::N##Inplace(a); }}
const Un kUn[] = {U(abs, Mixed), U(neg, Mixed), U(sign, Ties), U(sqrt, Pos), U(square, Mixed), U(exp, Mixed), U(log, Pos), U(sin, Mixed), U(cos, Mixed), U(sigmoid, Mixed), U(tanh, Mixed), U(relu, Mixed), U(gelu, Mixed), U(silu, Mixed)};
#undef U
void unary(Ctx& c) {
  const Un& u = kUn[c.pick((int)(sizeof kUn / sizeof *kUn))];
  DType dt = c.pick(kF);
  int form = c.pick(3);
  Sh s = c.pick(kShapes);
  int prov = c.pick(3), sc = schedule(c);
  c.desc("%s form %d of %s %s %s, %s", u.n, form, str(s).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(s, 1, u.k);
    if (form == 0) x.out(u.n, u.f(a));
    else if (form == 1) { Tensor o = x.f(s, 2); u.o(o, a); x.out(u.n, o); }
    else u.i(a);
    x.out("self", a);
  });
}
struct Bi { const char* n; bool i64; Tensor (*f)(const Tensor&, const Tensor&); void (*o)(Tensor&, const Tensor&, const Tensor&); void (*i)(Tensor&, const Tensor&); bool cmp = false; Kind k = Mixed; };
#define B(N, I) {#N, I, [](const Tensor& a, const Tensor& b) { return op::N(a, b); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::N##Out(o, a, b); }, [](Tensor& a, const Tensor& b) { op::N##Inplace(a, b); }}
#define BN(N, I, C) {#N, I, [](const Tensor& a, const Tensor& b) { return op::N(a, b); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::N##Out(o, a, b); }, nullptr, C, Ties}
#define BA(N) {#N, false, [](const Tensor& a, const Tensor& b) { return op::N(a, b, Scalar(2)); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::N##Out(o, a, b, Scalar(2)); }, [](Tensor& a, const Tensor& b) { op::N##Inplace(a, b, Scalar(2)); }}
const Bi kBi[] = {BA(add), BA(sub), B(mul, false), {"div", false, [](const Tensor& a, const Tensor& b) { return op::div(a, b); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::divOut(o, a, b); }, [](Tensor& a, const Tensor& b) { op::divInplace(a, b); }, false, Pos},
  {"pow", false, [](const Tensor& a, const Tensor& b) { return op::pow(a, b); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::powOut(o, a, b); }, [](Tensor& a, const Tensor& b) { op::powInplace(a, b); }, false, Pos},
  BN(maximum, true, false), BN(minimum, true, false), B(clampMin, true), B(clampMax, true), BN(eq, true, true), BN(ne, true, true), BN(lt, true, true), BN(le, true, true), BN(gt, true, true), BN(ge, true, true)};
void binary(Ctx& c) {
  const Bi& u = kBi[c.pick((int)(sizeof kBi / sizeof *kBi))];
  std::vector<DType> ts = kF;
  if (u.i64) ts.push_back(DType::Int64);
  DType dt = c.pick(ts);
  int form = c.pick(u.i ? 3 : 2);
  static const std::vector<std::pair<Sh, Sh>> P = {{{}, {}}, {{5}, {5}}, {{5}, {}}, {{}, {5}}, {{3, 4}, {4}}, {{4}, {3, 4}}, {{3, 1}, {1, 4}}, {{2, 3, 4}, {3, 1}}, {{515}, {515}}, {{515}, {1}}, {{2, 300}, {300}}, {{0}, {0}}, {{0, 3}, {3}}, {{1}, {2, 1}}};
  auto p = c.pick(P);
  int prov = c.pick(3), sc = schedule(c);
  c.desc("%s form %d of %s and %s %s %s, %s", u.n, form, str(p.first).c_str(), str(p.second).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  Sh big = p.first.size() >= p.second.size() ? p.first : p.second;
  if (p.first == Sh{3, 1}) big = {3, 4};
  if (form == 2 && big != p.first) c.skip();
  if (form == 1 && u.cmp) c.skip();   // no such operation on the CPU
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    auto in = [&](const Sh& s, int salt) { return dt == DType::Int64 ? x.ix(s, 5, salt) : x.f(s, salt, u.k); };
    Tensor a = in(p.first, 1), b = in(p.second, 2);
    if (form == 0) x.out(u.n, u.f(a, b));
    else if (form == 1) { Tensor o = u.cmp ? x.bo(big, 1) : in(big, 3); u.o(o, a, b); x.out(u.n, o); }
    else u.i(a, b);
    x.out("self", a); x.out("other", b);
  }, 2);
}
void logic(Ctx& c) {
  int k = c.pick(3), form = c.pick(3);
  static const std::vector<std::pair<Sh, Sh>> P = {{{5}, {5}}, {{}, {}}, {{3, 4}, {4}}, {{515}, {}}, {{0}, {0}}};
  auto p = c.pick(P);
  int prov = c.pick(3), sc = schedule(c);
  if (k == 2 && form) c.skip();
  c.desc("logic %d form %d of %s and %s %s, %s", k, form, str(p.first).c_str(), str(p.second).c_str(), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, DType::Float32, prov, sc, [&](X& x) {
    Tensor a = x.bo(p.first, 1), b = x.bo(p.second, 2), o = x.bo(p.first, 3);
    if (k == 0) { if (form == 0) x.out("not", op::logicNot(a)); else if (form == 1) { op::logicNotOut(o, a); x.out("not", o); } else op::logicNotInplace(a); }
    if (k == 1) { if (form == 0) x.out("and", op::logicAnd(a, b)); else if (form == 1) { op::logicAndOut(o, a, b); x.out("and", o); } else op::logicAndInplace(a, b); }
    if (k == 2) x.out("or", op::logicOr(a, b));
    x.out("self", a); x.out("other", b);
  });
}
void ternary(Ctx& c) {
  int k = c.pick(2), form = c.pick(3);
  DType dt = c.pick(kF);
  static const std::vector<std::vector<Sh>> P = {{{5}, {5}, {5}}, {{3, 4}, {}, {}}, {{3, 4}, {4}, {3, 1}}, {{515}, {515}, {}}, {{}, {}, {}}, {{0}, {0}, {0}}, {{4}, {3, 4}, {3, 1}}};
  auto p = c.pick(P);
  int prov = c.pick(3), sc = schedule(c);
  if (form && p[0].size() < p[1].size()) c.skip();
  c.desc("%s form %d of %s %s %s %s %s, %s", k ? "addcmul" : "clamp", form, str(p[0]).c_str(), str(p[1]).c_str(), str(p[2]).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(p[0], 1), l = x.f(p[1], 2, k ? Mixed : Neg), h = x.f(p[2], 3, k ? Mixed : Pos);
    Tensor o = x.f(p[0].size() >= p[1].size() ? p[0] : p[1], 5);
    if (k == 0) { if (form == 0) x.out("clamp", op::clamp(a, l, h)); else if (form == 1) { op::clampOut(o, a, l, h); x.out("clamp", o); } else op::clampInplace(a, l, h); }
    else { Scalar v(0.5f); if (form == 0) x.out("addcmul", op::addcmul(a, l, h, v)); else if (form == 1) { op::addcmulOut(o, a, l, h, v); x.out("addcmul", o); } else op::addcmulInplace(a, l, h, v); }
    x.out("self", a); x.out("p1", l); x.out("p2", h);
  }, 2);
}

// ---- gradients
struct Gr { const char* n; int ins; std::function<TL(X&, TL&)> f; std::vector<Sh> s; Kind k = Pos; };
TL L(Tensor t) { return {std::move(t)}; }
TL L(TensorPair p) { return {p.first, p.second}; }
const std::vector<Gr>& graphs() {
  using namespace function;
#define G(N, K, E, ...) {N, K, [](X& x, TL& a) -> TL { return E; }, {__VA_ARGS__}}
  static const std::vector<Sh> two = {{2, 3}, {2, 3}};
  static const std::vector<Gr> v = {
    G("add", 2, L(a[0] + a[1]), {2, 3}, {3}), G("sub", 2, L(a[0] - a[1]), {2, 3}, {2, 1}), G("mul", 2, L(a[0] * a[1]), {2, 3}, {1, 3}), G("div", 2, L(a[0] / a[1]), {2, 3}, {}),
    G("pow", 2, L(a[0].pow(a[1])), {2, 3}, {2, 3}), G("pow-scalar", 1, L(a[0].pow(Scalar(2))), {2, 3}), G("rsub", 1, L(1.f - a[0]), {515}), G("rdiv", 1, L(1.f / a[0]), {515}), G("sin", 1, L(a[0].sin()), {5}), G("cos", 1, L(a[0].cos()), {5}), G("sqrt", 1, L(a[0].sqrt()), {5}),
    G("maximum", 2, L(function::maximum(a[0], a[1])), {2, 3}, {2, 3}), G("minimum", 2, L(function::minimum(a[0], a[1])), {2, 3}, {2, 3}),
    G("relu", 1, L(relu(a[0] - 1.5f)), {2, 3}), G("gelu", 1, L(gelu(a[0] - 1.5f)), {2, 3}), G("silu", 1, L(silu(a[0] - 1.5f)), {2, 3}),
    G("softmax", 1, L(softmax(a[0], 1)), {3, 5}), G("softmax-0", 1, L(softmax(a[0], 0)), {3, 5}), G("softmax-mid", 1, L(softmax(a[0], 1)), {2, 4, 3}), G("softmax-long", 1, L(softmax(a[0], 1)), {2, 1030}), G("softmax-long-mid", 1, L(softmax(a[0], 0)), {1030, 2}),
    G("logSoftmax", 1, L(logSoftmax(a[0], -1)), {3, 5}), G("logSoftmax-0", 1, L(logSoftmax(a[0], 0)), {3, 5}), G("logSoftmax-long", 1, L(logSoftmax(a[0], 1)), {2, 1030}), G("logSoftmax-33", 1, L(logSoftmax(a[0], 1)), {2, 33}), G("softmax-1025", 1, L(softmax(a[0], 0)), {1025}),
    G("mse", 1, L(mseLoss(a[0], x.f({2, 3}, 7))), {2, 3}), G("mse-sum", 1, L(mseLoss(a[0], x.f({2, 3}, 7), LossReduction::SUM)), {2, 3}), G("mse-none", 1, L(mseLoss(a[0], x.f({2, 3}, 7), LossReduction::NONE)), {2, 3}), G("mse-big", 1, L(mseLoss(a[0], x.f({30, 40}, 7))), {30, 40}),
    G("nll", 1, L(nllLoss(a[0], x.ix({4}, 3))), {4, 3}), G("nll-sum", 1, L(nllLoss(a[0], x.ix({4}, 3), LossReduction::SUM)), {4, 3}), G("nll-none", 1, L(nllLoss(a[0], x.ix({4}, 3), LossReduction::NONE)), {4, 3}), G("nll-big", 1, L(nllLoss(a[0], x.ix({600}, 3))), {600, 3}), G("nll-scaled", 1, L(nllLoss(a[0], x.ix({4}, 3)) * Scalar(3.f)), {4, 3}),
    G("matmul", 2, L(a[0].matmul(a[1])), {2, 3}, {3, 4}), G("matmul-tt", 2, L(a[0].matmul(a[1], true, true)), {3, 2}, {4, 3}), G("linear", 3, L(linear(a[0], a[1], a[2])), {5, 3}, {4, 3}, {4}), G("linear-nobias", 2, L(linear(a[0], a[1])), {5, 3}, {4, 3}),
    G("conv2d", 3, L(conv2d(a[0], a[1], a[2])), {2, 2, 5, 4}, {3, 2, 3, 2}, {3}), G("conv2d-stride", 2, L(conv2d(a[0], a[1], {}, Dim2D(2), Dim2D(1))), {1, 2, 5, 4}, {2, 2, 3, 3}), G("maxPool2d", 1, L(maxPool2d(a[0], Dim2D(2), Dim2D(2))), {2, 2, 4, 4}), G("maxPool2d-pad", 1, L(maxPool2d(a[0] - 3.f, Dim2D(3), Dim2D(2), Dim2D(1))), {1, 2, 5, 5}),
    G("min", 1, L(a[0].min()), {2, 3}), G("max", 1, L(a[0].max()), {2, 3}), G("min-dim", 1, L(a[0].min(1).first), {4, 5}), G("max-dim", 1, L(a[0].max(0, true).first), {4, 5}),
    G("sum", 1, L(a[0].sum()), {4, 5}), G("sum-dim", 1, L(a[0].sum(0)), {4, 5}), G("sum-dims", 1, L(a[0].sum({0, 2}, false)), {4, 5, 2}), G("mean", 1, L(a[0].mean()), {4, 5}), G("mean-dim", 1, L(a[0].mean(1, true)), {4, 5}), G("mean-dims", 1, L(a[0].mean({0, 1})), {4, 5}),
    G("var", 1, L(a[0].var()), {4, 5}), G("var-dim", 1, L(a[0].var(1, true)), {4, 5}), G("var-dims", 1, L(a[0].var({0, 2}, true, true)), {4, 5, 2}), G("varMean", 1, L(varMean(a[0], false)), {4, 5}), G("varMean-dim", 1, L(varMean(a[0], 0, true, false)), {4, 5}),
    G("reshape", 1, L(a[0].reshape({3, 2}) * a[0].reshape({3, 2})), {2, 3}), G("permute", 1, L(a[0].permute({2, 0, 1})), {2, 3, 4}), G("permuteAll", 1, L(a[0].permute()), {2, 3, 4}), G("transpose", 1, L(a[0].transpose(0, 2)), {2, 3, 4}), G("t", 1, L(a[0].t()), {40, 35}), G("squeeze", 1, L(a[0].unsqueeze(1).squeeze(1)), {2, 3}),
    G("tril", 1, L(a[0].tril(1)), {2, 3, 4}), G("triu", 1, L(a[0].triu(-1)), {4, 3}), G("split", 1, a[0].split(2, 0), {4, 3}), G("split-1", 1, a[0].split({1, 3}, 1), {2, 4}), G("chunk", 1, a[0].chunk(2, 1), {2, 4}),
    G("concat", 2, L([&] { Tensor t[2] = {a[0], a[1]}; return function::concat(ArrayView<Tensor>(t, 2), 1); }()), {2, 3}, {2, 2}), G("stack", 2, L([&] { Tensor t[2] = {a[0], a[1]}; return function::stack(ArrayView<Tensor>(t, 2), 1); }()), {2, 3}, {2, 3}),
    G("vstack", 2, L([&] { Tensor t[2] = {a[0], a[1]}; return function::vstack(ArrayView<Tensor>(t, 2)); }()), {3}, {3}), G("hstack", 2, L([&] { Tensor t[2] = {a[0], a[1]}; return function::hstack(ArrayView<Tensor>(t, 2)); }()), {2, 3}, {2, 1}),
    G("narrow", 1, L(a[0].narrow(1, 1, 2)), {3, 4}), G("gather", 1, L(function::gather(a[0], 1, x.ix({3, 2}, 4))), {3, 4}), G("indexSelect", 1, L(function::indexSelect(a[0], 1, x.ix({6}, 4))), {3, 4}), G("scatter", 2, L(function::scatter(a[0], 0, x.put({1, 4}, {2, 0, 1, 2}, DType::Int64), a[1])), {3, 4}, {1, 4}),
    G("expand", 1, L(function::expand(a[0], IntArrayView{2, 3, 4})), {3, 1}), G("repeatInterleave", 1, L(function::repeatInterleave(a[0], 2, 0)), {3, 2}), G("repeatInterleave-1", 1, L(function::repeatInterleave(a[0], 3, 1)), {3, 2}),
    G("dropout-eval", 1, L(dropout(a[0], 0.5f, false)), {2, 3}), G("composite", 3, L((linear(a[0], a[1], a[2])).pow(Scalar(2)).sum()), {2, 3}, {4, 3}, {4}),
  };
  return v;
}
// operations without a derivative: forward only
bool noBackward(const std::string& n) {
  static const std::set<std::string> v = {"sqrt", "maximum", "minimum", "gelu", "silu", "matmul", "matmul-tt", "min", "max", "min-dim", "max-dim", "sum-dim", "sum-dims", "mean", "mean-dim", "mean-dims", "var", "var-dim", "var-dims", "varMean", "varMean-dim", "transpose", "t", "tril", "triu", "split", "split-1", "chunk", "concat", "stack", "vstack", "hstack", "narrow", "gather", "indexSelect", "scatter", "expand", "repeatInterleave", "repeatInterleave-1"};
  return v.count(n) > 0;
}
void gradients(Ctx& c) {
  const Gr& g = c.pick(graphs());
  const bool nb = noBackward(g.n);
  int mask = c.pick((1 << g.ins) - 1) + 1, prov = c.pick(2), sc = schedule(c);
  if (nb && mask != (1 << g.ins) - 1) c.skip();
  c.desc("%s, gradients for %d %s, %s", g.n, mask, provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, DType::Float32, prov, sc, [&](X& x) {
    TL in;
    for (int k = 0; k < g.ins; k++) { in.push_back(x.f(g.s[k], k + 1, g.k)); if (!nb && mask >> k & 1) in.back().setRequiresGrad(true); }
    TL o = g.f(x, in);
    int n = 0;
    for (auto& t : o) {
      x.out(std::string(g.n) + "-forward", t, 3);
      n++;
      if (t.requiresGrad()) { Sh s = shapeOf(t); t.backward(x.f(s, 11 + n, Mixed)); }
    }
    for (int k = 0; k < g.ins; k++) if (!nb && mask >> k & 1) x.out(std::string(g.n) + "-gradient", in[k].grad(), 8);
  });
}
void halves(Ctx& c) {   // the same graphs in the other types
  const Gr& g = c.pick(graphs());
  DType dt = c.pick({DType::Float16, DType::BFloat16});
  int sc = schedule(c);
  c.desc("%s %s, %s", g.n, dtName(dt), kSched[sc].n);
  c.nontrivial();
  both(c, dt, Fresh, sc, [&](X& x) {
    TL in;
    for (int k = 0; k < g.ins; k++) { in.push_back(x.f(g.s[k], k + 1, Unit)); }
    for (auto& t : g.f(x, in)) x.out(std::string(g.n) + "-forward", t, 6);
  });
}

// ---- reductions
void reduceAll(Ctx& c) {
  int o = c.pick(7);
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{}, {1}, {2}, {31}, {33}, {3, 4}, {513}, {2, 1025}, {3000}, {600, 1000}});
  Kind k = c.pick({Mixed, Neg, Ties, Minf});
  int prov = c.pick(2), sc = schedule(c);
  static const char* n[] = {"sum", "mean", "min", "max", "argmin", "argmax", "varMean"};
  if (numelOf(s) > 100000 && (k != Mixed || prov || dt != DType::Float32 || sc > 1 || o == 1 || o == 5)) c.skip();
  if (k == Minf && (o == 0 || o == 1 || o == 6)) c.skip();
  if (o == 6 && numelOf(s) < 2) c.skip();
  c.desc("%s of %s kind %d %s %s, %s", n[o], str(s).c_str(), k, dtName(dt), provName(prov), kSched[sc].n);
  if (numelOf(s) > 1) c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(s, 1, k);
    double sc = 1 + sqrt((double)numelOf(s)) / 2;
    if (numelOf(s) > 100000) sc = 1e3;
    switch (o) {
      case 0: x.out(n[o], op::sum(a), sc); break;
      case 1: x.out(n[o], op::mean(a), 2); break;
      case 2: x.out(n[o], op::min(a)); break;
      case 3: x.out(n[o], op::max(a)); break;
      case 4: x.out(n[o], op::argmin(a)); break;
      case 5: x.out(n[o], op::argmax(a)); break;
      case 6: x.out(n[o], op::varMean(a, true), std::max(4., sc / 20)); x.out(n[o], op::varMean(a, false), std::max(4., sc / 20)); break;
    }
  });
}
void reduceDim(Ctx& c) {
  int o = c.pick(5);
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{1}, {7}, {513}, {1025}, {3, 4}, {2, 33}, {33, 2}, {2, 3, 4}, {5, 600}, {600, 5}, {2, 600, 3}, {2, 2000}, {2000, 2}, {2, 2, 2, 3}});
  int d = c.pick((int)s.size());
  bool keep = c.flip();
  Kind k = c.pick({Mixed, Neg, Ties, Minf});
  int prov = c.pick(2), sc = schedule(c);
  static const char* n[] = {"sumOnDim", "meanOnDim", "minOnDim", "maxOnDim", "varMeanOnDim"};
  if (k == Minf && (o == 0 || o == 1 || o == 4)) c.skip();
  if (o == 4 && s[d] < 2) c.skip();
  if (numelOf(s) > 500 && (keep || prov) && !c.thorough()) c.skip();
  bool neg = keep && d > 0;
  c.desc("%s of %s on %d keep %d kind %d %s %s, %s", n[o], str(s).c_str(), d, keep, k, dtName(dt), provName(prov), kSched[sc].n);
  if (s.size() > 1) c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(s, 1, k);
    int64_t dd = neg ? d - (int64_t)s.size() : d;
    double sl = 1 + sqrt((double)s[d]) / 2;
    switch (o) {
      case 0: x.out(n[o], op::sumOnDim(a, dd, keep), sl); break;
      case 1: x.out(n[o], op::meanOnDim(a, dd, keep), 2); break;
      case 2: x.out(n[o], op::minOnDim(a, dd, keep)); break;
      case 3: x.out(n[o], op::maxOnDim(a, dd, keep)); break;
      case 4: x.out(n[o], op::varMeanOnDim(a, dd, true, keep), 4); x.out(n[o], op::varMeanOnDim(a, dd, false, keep), 4); break;
    }
  });
}
void reduceDims(Ctx& c) {
  int o = c.pick(3);
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{7}, {3, 4}, {2, 3, 4}, {30, 20}, {5, 2, 60}, {2, 3, 2, 2}, {3, 1, 5}, {520, 2}, {2, 520}});
  int m = c.pick((1 << s.size()) - 1) + 1;
  bool keep = c.flip();
  int prov = c.pick(2), sc = schedule(c);
  Sh ds; int64_t cnt = 1;
  for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) { ds.push_back((int64_t)i); cnt *= s[i]; }
  if (ds.size() > 1 && keep) { std::reverse(ds.begin(), ds.end()); ds[0] -= (int64_t)s.size(); }
  static const char* n[] = {"sumOnDims", "meanOnDims", "varMeanOnDims"};
  if (o == 2 && cnt < 2) c.skip();
  c.desc("%s of %s on %s keep %d %s %s, %s", n[o], str(s).c_str(), str(ds).c_str(), keep, dtName(dt), provName(prov), kSched[sc].n);
  if (s.size() > 1) c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(s, 1);
    switch (o) {
      case 0: x.out(n[o], op::sumOnDims(a, iv(ds), keep), 1 + sqrt((double)cnt)); break;
      case 1: x.out(n[o], op::meanOnDims(a, iv(ds), keep), 2); break;
      case 2: x.out(n[o], op::varMeanOnDims(a, iv(ds), true, keep), 4); x.out(n[o], op::varMeanOnDims(a, iv(ds), false, keep), 4); break;
    }
  });
}

// ---- filling, conversion
const std::vector<DType> kAll = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
Tensor any(X& x, const Sh& s, DType d, int salt) {
  std::vector<double> v((size_t)numelOf(s));
  for (size_t i = 0; i < v.size(); i++) v[i] = d == DType::Bool ? (double)((i + salt) % 2) : isF(d) ? value((int64_t)i, salt, Mixed) : (double)((int64_t)(i * 7 + salt) % 11 - 5);
  return x.put(s, v, d);
}
void filling(Ctx& c) {
  int o = c.pick(6);
  DType dt = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{}, {5}, {3, 4}, {515}, {0}});
  int prov = c.pick(3), sc = schedule(c);
  static const char* n[] = {"fill", "fillOffset", "fillMasked", "fillMaskedOut", "fillMaskedInplace", "linspace"};
  c.desc("%s of %s %s %s, %s", n[o], str(s).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = any(x, s, dt, 1);
    Scalar v = dt == DType::Bool ? Scalar(true) : isF(dt) ? Scalar(1.5f) : Scalar((int64_t)3);
    Tensor m = x.bo(s, 1);
    switch (o) {
      case 0: op::fill(a, v); break;
      case 1: if (numelOf(s) >= 4) { Tensor w = any(x, {}, dt, 2); op::fillOffset(a, w, 1, 3); } break;
      case 2: x.out(n[o], op::fillMasked(a, m, v)); break;
      case 3: { Tensor q = any(x, s, dt, 4); op::fillMaskedOut(q, a, m, v); x.out(n[o], q); break; }
      case 4: op::fillMaskedInplace(a, m, v); break;
      case 5: if (dt != DType::Bool && s.size() == 1) { op::fillLinSpace(a, isF(dt) ? Scalar(0.25f) : Scalar((int64_t)2), isF(dt) ? Scalar(0.125f) : Scalar((int64_t)3), numelOf(s)); } break;
    }
    x.out("self", a); x.out("mask", m);
  });
}
void creating(Ctx& c) {
  int o = c.pick(9);
  DType dt = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{}, {5}, {3, 4}, {515}, {0}});
  int sc = schedule(c);
  c.desc("creation %d of %s %s, %s", o, str(s).c_str(), dtName(dt), kSched[sc].n);
  both(c, dt, Fresh, sc, [&](X& x) {
    Scalar v = dt == DType::Bool ? Scalar(true) : isF(dt) ? Scalar(1.5f) : Scalar((int64_t)3);
    Tensor a = any(x, s, dt, 1);
    switch (o) {
      case 0: x.out("zeros", Tensor::zeros(iv(s), x.opt())); break;
      case 1: x.out("ones", Tensor::ones(iv(s), x.opt())); break;
      case 2: x.out("full", Tensor::full(iv(s), v, x.opt())); break;
      case 3: x.out("scalar", Tensor::scalar(v, x.opt())); break;
      case 4: x.out("onesLike", Tensor::onesLike(a)); x.out("zerosLike", Tensor::zerosLike(a)); x.out("fullLike", Tensor::fullLike(a, v)); break;
      case 5: if (dt == DType::Float32) { x.out("arange", Tensor::arange<float>(1.f, 4.f, 0.5f, x.opt())); x.out("linspace", Tensor::linspace<float>(-1.f, 1.f, 5, x.opt())); } if (dt == DType::Int64) x.out("arange", Tensor::arange<int64_t>(0, 10, 3, x.opt())); break;
      case 6: if (dt == DType::Float32) { Tensor t(Array2d<float>{{1, 2, 3}, {4, 5, 6}}, x.opt()); x.out("values", t); } break;
      case 7: x.out("clone", a.clone()); x.out("to", a.to(x.device())); break;
      case 8: if (s == Sh{}) { Tensor b = any(x, s, dt, 3); x.out("item", Tensor::scalar(Scalar(isF(dt) ? b.to(DType::Float32).item<float>() : (float)b.to(DType::Int64).item<int64_t>()), options::dtype(DType::Float32)), isF(dt) ? 1 : 1); } break;
    }
  });
}
void casting(Ctx& c) {
  DType a = c.pick(kAll), b = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{}, {6}, {515}, {0}});
  int prov = c.pick(3), sc = schedule(c), way = c.pick(2);
  c.desc("%s %s to %s %s way %d, %s", str(s).c_str(), dtName(a), dtName(b), provName(prov), way, kSched[sc].n);
  c.nontrivial();
  setMode(sc);
  cuemu::reset();
  size_t live = cuemu::liveBytes();
  {
    // value by value: the CPU's conversion of the same tensor
    std::vector<double> v((size_t)numelOf(s));
    static const double f[] = {0, -0.0, 1, -1, 0.5, 1.75, -2.25, 3, 100, -7, 0.0999755859375, 60000, 1.0009765625};
    for (size_t i = 0; i < v.size(); i++) v[i] = a == DType::Bool ? (double)(i % 2) : isF(a) ? f[i % 13] : (double)((int64_t)(i * 7) % 23 - 9);
    X x{c, true, a, prov};
    Tensor t = x.put(s, v, a), u = mk(s, v, a).to(b);
    Tensor g = way ? t.to(b, Device(DeviceType::CPU)) : t.to(b);
    RT got = fetch(g), want = rt(u), self = fetch(t), was = rt(mk(s, v, a));
    if (g.dtype() != b || got.s != want.s) c.fail("cast-type", "type or shape differs");
    for (size_t i = 0; i < want.v.size(); i++) {
      if (!sameD(got.v[i], want.v[i], 0, 0)) c.fail("cast", "element %zu of %s becomes %.9g on the GPU, %.9g on the CPU", i, dtName(a), got.v[i], want.v[i]);
      if (!sameD(self.v[i], was.v[i], 0, 0)) c.fail("cast-self", "the source changed");
    }
  }
  after(c, live);
}
void randoms(Ctx& c) {
  int o = c.pick(4), draws = c.pick(3) - 1;
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{}, {5}, {3, 4}, {1030}, {0}});
  float lo = c.pick({0.f, -2.f, 3.f}), p = c.pick({0.f, 0.3f, 1.f});
  int sc = schedule(c);
  if (o != 0 && lo) c.skip();
  if (o != 2 && o != 3 && p != 0.f) c.skip();
  c.desc("random %d draws %d of %s from %g p %g %s, %s", o, draws, str(s).c_str(), lo, p, dtName(dt), kSched[sc].n);
  c.nontrivial();
  setMode(sc);
  cuemu::mode.draws = draws;
  struct Back { ~Back() { cuemu::mode.draws = 0; } } back;
  cuemu::reset();
  size_t live = cuemu::liveBytes();
  {
    auto make = [&](uint64_t seed, bool again) {
      manualSeed(seed);
      X x{c, true, dt, Fresh};
      RT r;
      for (int k = 0; k <= again; k++) {
        Tensor t;
        if (o == 0) t = Tensor::uniform(iv(s), lo, lo + 2, x.opt());
        if (o == 1) t = Tensor::randn(iv(s), x.opt());
        if (o == 2) t = Tensor::bernoulli(iv(s), p, x.opt());
        if (o == 3) {
          Tensor a = x.f(s, 1, Pos);
          t = function::dropout(a, p, true);
          RT b = fetch(a), q = fetch(t);
          for (size_t i = 0; i < b.v.size(); i++)
            if (q.v[i] != 0 && !sameD(q.v[i], b.v[i] / (1 - (double)p), 2e-2, 0)) c.fail("dropout", "element %zu of value %g becomes %g with p %g", i, b.v[i], q.v[i], p);
          if (p == 0) for (size_t i = 0; i < b.v.size(); i++) if (q.v[i] != b.v[i]) c.fail("dropout-0", "element %zu dropped with p 0", i);
        }
        r = fetch(t);
        if (t.dtype() != dt || r.s != s) c.fail("random-shape", "type or shape differs");
      }
      return r;
    };
    RT a = make(5, false), b = make(5, false), d = make(6, false), e = make(5, true);
    if (a.v != b.v) c.fail("random-seed", "the same seed gives different numbers");
    size_t n = a.v.size();
    if (n > 1000 && !draws && (o < 2 || (p > 0 && p < 1))) {
      if (a.v == d.v) c.fail("random-other-seed", "another seed gives the same numbers");
      if (a.v == e.v) c.fail("random-next", "the next call gives the same numbers");
      double m = 0, q = 0; int same = 0;
      for (size_t i = 0; i < n; i++) { m += a.v[i]; q += a.v[i] * a.v[i]; same += i && o < 2 && a.v[i] == a.v[i - 1]; }
      m /= (double)n; q = q / (double)n - m * m;
      double wm = o == 0 ? lo + 1 : o == 1 ? 0 : o == 2 ? p : 0, wv = o == 0 ? 1 / 3.0 : o == 1 ? 1 : p * (1 - p);
      if (o < 3 && (fabs(m - wm) > 0.15 || fabs(q - wv) > 0.2)) c.fail("random-law", "mean %g variance %g, expected %g and %g", m, q, wm, wv);
      if (o < 2 && same > (dt == DType::BFloat16 ? 100 : 30)) c.fail("random-repeats", "%d of %zu neighbours are equal", same, n);
      if (o == 3) { int z = 0; for (auto v : a.v) z += v == 0; if (fabs(z / (double)n - p) > 0.1) c.fail("dropout-rate", "%d of %zu dropped with p %g", z, n, p); }
    }
    for (double v : a.v) {
      if (o == 0 && !(v >= lo && v <= lo + 2)) c.fail("uniform-range", "%.9g outside [%g, %g]", v, lo, lo + 2);
      if (o == 1 && !(fabs(v) < 7)) c.fail("normal-range", "%g", v);
      if (o == 2 && v != 0 && v != 1) c.fail("bernoulli-value", "%g", v);
      if (o == 2 && p == 1 && v != 1) c.fail("bernoulli-1", "0 with p 1");
      if (o == 2 && p == 0 && v != 0) c.fail("bernoulli-0", "1 with p 0");
    }
  }
  after(c, live);
}

// ---- linear algebra
void matmuls(Ctx& c) {
  DType dt = c.pick(kF);
  static const std::vector<std::pair<Sh, Sh>> P = {{{3}, {3}}, {{2, 3}, {3}}, {{3}, {3, 4}}, {{2, 3}, {3, 4}}, {{1, 5}, {5, 1}}, {{2, 2, 3}, {3, 4}}, {{2, 2, 3}, {2, 3, 4}}, {{1, 2, 3}, {3, 3, 4}}, {{2, 3}, {2, 3, 4}}, {{2, 1, 2, 3}, {1, 3, 3, 2}}, {{2, 3, 2, 3}, {3, 3, 2}}, {{3, 2, 3}, {1, 3, 2}}, {{33, 17}, {17, 20}}, {{2, 0}, {0, 3}}, {{0, 3}, {3, 2}}, {{2, 2, 3}, {3}}, {{1, 1}, {1, 1}}};
  auto p = c.pick(P);
  bool ta = c.flip(), tb = c.flip();
  int prov = c.pick(2), sc = schedule(c);
  auto tr = [](Sh s) { if (s.size() > 1) std::swap(s[s.size() - 1], s[s.size() - 2]); return s; };
  if ((p.first.size() < 2 && ta) || (p.second.size() < 2 && tb)) c.skip();
  c.desc("matmul of %s%s and %s%s %s %s, %s", str(p.first).c_str(), ta ? "^T" : "", str(p.second).c_str(), tb ? "^T" : "", dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(ta ? tr(p.first) : p.first, 1), b = x.f(tb ? tr(p.second) : p.second, 2);
    x.out("matmul", op::matmul(a, b, ta, tb), 6);
    if (p.first.size() == 1 && p.second.size() == 1) x.out("dot", op::dot(a, b), 6);
    x.out("a", a); x.out("b", b);
  });
}
void images(Ctx& c) {
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{1, 1, 3, 3}, {2, 3, 5, 4}, {1, 2, 6, 7}, {2, 1, 4, 4}});
  Dim2D k(c.pick({1, 2, 3}), c.pick({1, 2, 3})), st(c.pick({1, 2}), c.pick({1, 2})), pd(c.pick({0, 1}), c.pick({0, 1}));
  int sc = schedule(c);
  if (!c.thorough() && dt == DType::BFloat16) c.skip();
  if (pd.h * 2 > k.h || pd.w * 2 > k.w) c.skip();
  c.desc("im2col and back of %s kernel %ldx%ld stride %ldx%ld padding %ldx%ld %s, %s", str(s).c_str(), (long)k.h, (long)k.w, (long)st.h, (long)st.w, (long)pd.h, (long)pd.w, dtName(dt), kSched[sc].n);
  c.nontrivial();
  both(c, dt, Fresh, sc, [&](X& x) {
    Tensor a = x.f(s, 1);
    Tensor m = op::im2col(a, k, st, pd);
    x.out("im2col", m);
    Tensor g = x.f(shapeOf(m), 3);
    x.out("col2im", op::col2im(g, iv(s), k, st, pd), 4);
  });
}

// ---- layers
void softmaxes(Ctx& c) {
  bool lg = c.flip(); int form = c.pick(3);
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{1}, {7}, {3, 4}, {33, 2}, {2, 3, 5}, {1024}, {2, 1025}, {1025, 2}, {2, 1100, 2}, {3, 2048}, {4200}, {66000, 2}, {2, 66000}, {2, 2, 66000}});
  int d = c.pick((int)s.size());
  Kind k = c.pick({Mixed, Ties, Minf});
  int prov = c.pick(3), sc = schedule(c);
  if (numelOf(s) > 500 && (prov || k != Mixed) && !(form == 1 && prov == CloneShared && numelOf(s) < 3000)) c.skip();
  if (numelOf(s) > 60000 && (dt != DType::Float32 || sc || (lg && form != 2) || form == 1)) c.skip();
  if (numelOf(s) > 60000 && !c.thorough() && (s != Sh{2, 66000} || d)) c.skip();
  if (form == 2 && k == Minf) c.skip();
  c.desc("%s form %d of %s on %d kind %d %s %s, %s", lg ? "logSoftmax" : "softmax", form, str(s).c_str(), d, k, dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    const char* n = lg ? "logSoftmax" : "softmax";
    Tensor a = x.f(s, 1, k);
    if (k == Minf) { // one slice has a finite value, others are all minus infinity
      std::vector<double> v((size_t)numelOf(s), -INFINITY); v[0] = 1; a = x.put(s, v, dt);
    }
    int64_t dd = form ? d : d - (int64_t)s.size();
    if (form == 0) x.out(n, lg ? op::logSoftmax(a, dd) : op::softmax(a, dd), 2);
    if (form == 1) { Tensor o = x.f(s, 4); if (lg) op::logSoftmaxOut(o, a, dd); else op::softmaxOut(o, a, dd); x.out(n, o, 2); }
    if (form == 2) { Tensor g = x.f(s, 2, Unit), o = x.f(s, 3, lg ? Neg : Unit); double z = 3 + sqrt((double)s[d]); x.out(n, lg ? op::logSoftmaxBackward(g, o, dd) : op::softmaxBackward(g, o, dd), z); }
    x.out("self", a);
  });
}
void norms(Ctx& c) {
  bool rms = c.flip();
  DType dt = c.pick(kF);
  static const std::vector<std::pair<Sh, Sh>> P = {{{4}, {4}}, {{3, 5}, {5}}, {{2, 3, 4}, {4}}, {{2, 33}, {33}}, {{1, 1}, {1}}, {{2, 1024}, {1024}}, {{2, 1025}, {1025}}, {{2, 1600}, {1600}}, {{40, 3}, {3}}, {{3, 2100}, {2100}}, {{0, 4}, {4}}};
  auto p = c.pick(P);
  int wb = c.pick(3), prov = c.pick(2), sc = schedule(c);
  if (wb == 1 && rms) c.skip();
  c.desc("%s of %s over %s weights %d %s %s, %s", rms ? "rmsNorm" : "layerNorm", str(p.first).c_str(), str(p.second).c_str(), wb, dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = x.f(p.first, 1), w, b;
    if (wb) w = x.f(p.second, 2, Pos);
    if (wb == 2) b = x.f(p.second, 3);
    if (rms) x.out("rmsNorm", op::rmsNorm(a, iv(p.second), w, 1e-5f), 4);
    else x.out("layerNorm", op::layerNorm(a, iv(p.second), w, b, 1e-5f), 4);
  });
}
void attention(Ctx& c) {
  int o = c.pick(4);
  DType dt = c.pick(kF);
  int v = c.pick(4), sc = schedule(c);
  c.desc("layer %d variant %d %s, %s", o, v, dtName(dt), kSched[sc].n);
  c.nontrivial();
  using namespace function;
  both(c, dt, Fresh, sc, [&](X& x) {
    if (o == 0) {   // rotary embedding
      static const Sh ss[] = {{1, 1, 3, 4}, {2, 2, 5, 8}, {1, 3, 1, 2}, {2, 1, 7, 6}};
      Tensor r = op::ropeInit(ss[v][3], (int64_t)16, 10000.f, std::optional<RopeScalingConfig>(), x.opt(DType::Float32));
      x.out("ropeInit", r, 2);
      x.out("ropeApply", op::ropeApply(x.f(ss[v], 1), r, (int64_t)(v % 2 ? 3 : 0)), 3);
      RopeScalingConfig q(8.f, 4.f, 1.f, 8);
      x.out("ropeInit-scaled", op::ropeInit(ss[v][3], (int64_t)16, 500.f, std::optional<RopeScalingConfig>(q), x.opt(DType::Float32)), 2);
    }
    if (o == 1) {   // attention
      Tensor q = x.f({2, 4, 3, 4}, 1, Unit), k = x.f({2, 4, 5, 4}, 2, Unit), w = x.f({2, 4, 5, 4}, 3);
      if (v == 0) x.out("sdp", sdpAttention(q, k, w), 3);
      if (v == 1) x.out("sdp-causal", sdpAttention(q, k, w, true), 3);
      if (v == 2) { std::vector<double> m(15, 1); m[2] = m[7] = m[10] = 0; x.out("sdp-mask", sdpAttention(q, k, w, false, x.put({3, 5}, m, DType::Bool)), 3); }
      if (v == 3) x.out("sdp-scale", sdpAttention(q, k, w, false, {}, 0.f, 0.5f), 3);
    }
    if (o == 2) {   // embedding, fused
      x.out("embedding", embedding(x.ix({v + 1, 2}, 5), x.f({5, 3 + v}, 1)));
      static const Sh ss[] = {{2}, {3, 4}, {2, 2, 6}, {3, 1030}};
      x.out("siluMul", siluMul(x.f(ss[v], 1)), 3);
    }
    if (o == 3) {   // dropout with a given mask
      static const Sh ss[] = {{5}, {3, 4}, {515}, {}};
      Tensor m = x.bo(ss[v], 1).to(x.type(dt));
      x.out("dropoutMasked", op::dropoutMasked(x.f(ss[v], 2), m, 0.25f), 2);
    }
  });
}

// ---- sampling
void sorting(Ctx& c) {
  int o = c.pick(3);
  DType dt = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{1}, {7}, {3, 4}, {2, 3, 5}, {40}, {3, 33}, {0}});
  int d = c.pick((int)s.size());
  bool flag = c.flip(), distinct = c.flip();
  int sc = schedule(c), prov = c.pick(2);
  if (dt == DType::Bool && (o != 1 || distinct)) c.skip();
  if (o == 0 && numelOf(s) == 0) c.skip();   // nothing to choose from
  c.desc("%s of %s on %d flag %d %s values %s %s, %s", o == 0 ? "topk" : o == 1 ? "sort" : "cumsum", str(s).c_str(), d, flag, distinct ? "distinct" : "equal", dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    std::vector<double> v((size_t)numelOf(s));
    for (size_t i = 0; i < v.size(); i++) v[i] = dt == DType::Bool ? (double)(i % 2) : distinct ? (double)((i * 37 + 5) % 101) - 50 : (double)((i * 7) % 3);
    Tensor a = x.put(s, v, dt);
    if (o == 2) { x.out("cumsum", op::cumsum(a, (int64_t)d), 1 + (double)s[d] / 4); return; }
    TensorPair p = o == 1 ? op::sort(a, (int64_t)d, flag) : op::topk(a, std::min<int64_t>(3, s[d]), (int64_t)d, flag, true);
    x.out(o ? "sort" : "topk", p.first);
    if (distinct) x.out(o ? "sort-index" : "topk-index", p.second);
    else {   // equal values: any order, but the indices belong to the values and are different
      x.out("indexed", op::gather(a, (int64_t)d, p.second));
      TensorPair q = op::sort(p.second, (int64_t)d, false);
      if (s[d] > 1 && numelOf(s) > 0) {
        int64_t n = shapeOf(q.first)[d];
        if (n > 1) { RT r = fetch(function::narrow(q.first, d, 1, n - 1)), t = fetch(function::narrow(q.first, d, 0, n - 1)); for (size_t i = 0; i < r.v.size(); i++) if (r.v[i] == t.v[i]) c.fail("sort-index-twice", "an index occurs twice"); }
      }
    }
    x.out("self", a);
  });
}
void sampling(Ctx& c) {
  bool repl = c.flip();
  DType dt = c.pick(kF);
  Sh s = c.pick(std::vector<Sh>{{1}, {5}, {3, 4}, {2, 40}, {600, 3}});
  int n = c.pick({1, 2, 3}), draws = c.pick(3) - 1, pat = c.pick(3), sc = schedule(c);
  int64_t w = s.back(), rows = numelOf(s) / w;
  std::vector<double> v((size_t)numelOf(s));
  std::vector<int> pos((size_t)rows, 0);
  for (size_t i = 0; i < v.size(); i++) {
    size_t r = i / w, k = i % w;
    v[i] = pat == 0 ? (double)(1 + (i * 5) % 7) : pat == 1 ? (double)((k + r) % 2) : (k == 0 || (int64_t)k == w - 1 ? 0 : 1);
  }
  for (size_t i = 0; i < v.size(); i++) pos[i / w] += v[i] > 0;
  for (int q : pos) if (q < (repl ? 1 : n)) c.skip();
  c.desc("multinomial of %s pattern %d, %d samples %s draws %d %s, %s", str(s).c_str(), pat, n, repl ? "with" : "without", draws, dtName(dt), kSched[sc].n);
  c.nontrivial();
  setMode(sc);
  cuemu::mode.draws = draws;
  struct Back { ~Back() { cuemu::mode.draws = 0; } } back;
  cuemu::reset();
  size_t live = cuemu::liveBytes();
  {
    X x{c, true, dt, Fresh};
    std::vector<std::vector<double>> all;
    for (int seed = 0; seed < 3; seed++) {
      manualSeed(5 + (seed == 2));
      Tensor a = x.put(s, v, dt), t = op::multinomial(a, (int64_t)n, repl);
      RT r = fetch(t);
      Sh want = s; want.back() = n;
      if (t.dtype() != DType::Int64 || r.s != want) c.fail("multinomial-shape", "%s", str(r.s).c_str());
      std::vector<int> cnt((size_t)w, 0);
      for (size_t i = 0; i < r.v.size(); i++) {
        int64_t k = (int64_t)r.v[i];
        if (k < 0 || k >= w) c.fail("multinomial-range", "category %ld", (long)k);
        if (v[i / n * w + k] == 0) c.fail("multinomial-zero", "category %ld of probability 0 drawn", (long)k);
        if (!repl) for (size_t j = i / n * n; j < i; j++) if (r.v[j] == r.v[i]) c.fail("multinomial-twice", "category %ld drawn twice", (long)k);
        cnt[k]++;
      }
      if (s == Sh{600, 3} && n == 1 && pat == 0 && !draws) for (int q : cnt) if (q < 60) c.fail("multinomial-law", "a category comes %d times of 600", q);
      all.push_back(r.v);
      RT b = fetch(a);
      for (size_t i = 0; i < v.size(); i++) if (b.v[i] != roundTo(v[i], dt)) c.fail("multinomial-self", "the probabilities changed");
    }
    if (all[0] != all[1]) c.fail("multinomial-seed", "the same seed gives different draws");
    if (s == Sh{600, 3} && !draws && n == 1 && pat == 0 && all[0] == all[2]) c.fail("multinomial-other-seed", "another seed gives the same draws");
  }
  after(c, live);
}

// ---- shapes and indices
void transforms(Ctx& c) {
  int o = c.pick(8);
  DType dt = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{5}, {3, 4}, {2, 3, 4}, {33, 40}, {2, 35, 33}, {2, 1, 3, 2}, {1, 1}, {0, 3}});
  int v = c.pick(4), prov = c.pick(2), sc = schedule(c);
  if (!c.thorough() && (dt == DType::BFloat16 || dt == DType::Int32)) c.skip();
  if ((o == 4 || o == 5) && numelOf(s) == 0) c.skip();
  int64_t r = (int64_t)s.size();
  c.desc("transform %d variant %d of %s %s %s, %s", o, v, str(s).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = any(x, s, dt, 1);
    if (o == 0) {   // permute
      Sh p; for (int64_t i = 0; i < r; i++) p.push_back(i);
      for (int k = 0; k < v; k++) if (!std::next_permutation(p.begin(), p.end())) break;
      if (v == 3) std::reverse(p.begin(), p.end());
      x.out("permute", op::permute(a, iv(p))); x.out("permuteAll", op::permuteAll(a));
    }
    if (o == 1) { if (r >= 2) { x.out("transpose", op::transpose(a, (int64_t)(v % r), (int64_t)((v + 1) % r))); x.out("transpose-neg", op::transpose(a, (int64_t)-1, (int64_t)-2)); if (r == 2) x.out("transpose2d", op::transpose2d(a)); } }
    if (o == 2) { if (r >= 2) { x.out("tril", op::tril(a, (int64_t)(v - 1))); x.out("triu", op::triu(a, (int64_t)(v - 2))); } }
    if (o == 3) { // gather, indexSelect
      int64_t d = v % r;
      if (s[d]) { Sh q = s; q[d] = v + 1; x.out("gather", op::gather(a, d, x.ix(q, s[d], v))); x.out("indexSelect", op::indexSelect(a, d - (v > 1 ? r : 0), x.ix({3 + v}, s[d], v))); }
    }
    if (o == 4) { // scatter
      int64_t d = v % r;
      if (s[d]) {
        Sh q = s; q[d] = 1; if (v > 1 && r > 1) q[(d + 1) % r] = 1;
        Tensor i = x.ix(q, s[d], v), w = any(x, q, dt, 5);
        x.out("scatter", op::scatter(a, d, i, w));
        Tensor b = any(x, s, dt, 7); op::scatterInplace(b, d, i, w); x.out("scatterInplace", b);
      }
    }
    if (o == 5) { Sh q = s; q.insert(q.begin(), (size_t)(v / 2), 2); Tensor b = a; if (v % 2 && r >= 1 && s[0]) { b = op::narrow(a, (int64_t)0, (int64_t)0, (int64_t)1); if (shapeOf(b)[0] == 1) q[v / 2] = 3; } x.out("expand", op::expand(b, iv(q))); }
    if (o == 6) x.out("repeatInterleave", op::repeatInterleave(a, (int64_t)(1 + v / 2), (int64_t)(v % r) - (v == 3 ? r : 0)));
    if (o == 7) {
      Tensor b = any(x, s, dt, 3); Tensor t[2] = {a, b};
      int64_t d = v % r;
      x.out("concat", op::concat(ArrayView<Tensor>(t, 2), d)); x.out("stack", op::stack(ArrayView<Tensor>(t, 2), (int64_t)(v % (r + 1)))); x.out("vstack", op::vstack(ArrayView<Tensor>(t, 2))); x.out("hstack", op::hstack(ArrayView<Tensor>(t, 2)));
      if (s[d] > 1) { if (s[d] % 2 == 0) { for (auto& u : op::split(a, (int64_t)2, d)) x.out("split", u); for (auto& u : op::chunk(a, (int64_t)2, d)) x.out("chunk", u); } int64_t k[2] = {1, s[d] - 1}; for (auto& u : op::splitSections(a, IntArrayView(k, 2), d)) x.out("sections", u); x.out("narrow", op::narrow(a, d, (int64_t)1, s[d] - 1)); }
    }
    x.out("self", a);
  });
}
void indexing(Ctx& c) {
  int o = c.pick(4);
  DType dt = c.pick(kAll);
  Sh s = c.pick(std::vector<Sh>{{5}, {3, 4}, {2, 3, 4}, {3, 200}});
  int v = c.pick(3), prov = c.pick(3), sc = schedule(c);
  int64_t r = (int64_t)s.size();
  if (v + 1 > r) c.skip();
  c.desc("indexing %d with %d indices of %s %s %s, %s", o, v + 1, str(s).c_str(), dtName(dt), provName(prov), kSched[sc].n);
  c.nontrivial();
  both(c, dt, prov, sc, [&](X& x) {
    Tensor a = any(x, s, dt, 1);
    Sh at; TL it;
    Sh rest(s.begin() + v + 1, s.end());
    for (int k = 0; k <= v; k++) { at.push_back(k == 1 ? -1 : (int64_t)(k + 1) % s[k]); }
    int64_t n = 2;
    for (int k = 0; k <= v; k++) { std::vector<double> q = {(double)(s[k] - 1), k == 1 ? -2.0 : 0.0}; it.push_back(x.put({n}, q, DType::Int64)); }
    if (o == 0) x.out("index", op::index(a, iv(at)));
    if (o == 1) x.out("indexAdvance", op::indexAdvance(a, ArrayView<Tensor>(it.data(), it.size())));
    if (o == 2) { Tensor w = any(x, rest, dt, 4); op::indexPut(a, iv(at), w); }
    if (o == 3) { Sh q = rest; q.insert(q.begin(), n); Tensor w = any(x, q, dt, 4); op::indexPutAdvance(a, ArrayView<Tensor>(it.data(), it.size()), w); x.out("value", w); }
    x.out("self", a);
  });
}

// ---- devices, queues, training
struct Current { explicit Current(int d) { cuda::setDevice(d); } ~Current() { cuda::setDevice(0); } };
const std::vector<Gr>& others() {   // what no graph has
  using namespace function;
  static const std::vector<Gr> v = {
    G("creating", 1, (TL{Tensor::zeros({2, 3}, x.opt()), Tensor::ones({515}, x.opt()), Tensor::full({3}, 2.5f, x.opt()), Tensor::scalar(Scalar(2.f), x.opt()), Tensor::onesLike(a[0]), Tensor::arange(0, 5, 1, x.opt()), Tensor::linspace(0, 1, 5, x.opt())}), {2, 3}),
    G("casting", 1, (TL{a[0].to(DType::Int64), a[0].to(DType::Bool), a[0].to(x.type(DType::Float16)).to(DType::Float32)}), {2, 3}),
    G("sort", 1, L(op::sort(a[0], (int64_t)1, true)), {3, 5}), G("topk", 1, L(op::topk(a[0], (int64_t)2, (int64_t)1, true, true)), {3, 5}), G("cumsum", 1, L(op::cumsum(a[0], (int64_t)0)), {3, 5}),
    G("argmax", 1, (TL{op::argmax(a[0]), op::argmin(a[0])}), {3, 5}), G("compare", 2, (TL{a[0] > a[1], a[0] == a[1], a[0] < Scalar(1.f)}), {3, 5}, {3, 5}),
    G("index", 1, (TL{op::index(a[0], IntArrayView{1}), op::indexAdvance(a[0], std::vector<Tensor>{x.ix({2}, 3)})}), {3, 5}),
    G("batched-matmul", 2, L(a[0].matmul(a[1])), {2, 3, 4}, {2, 4, 2}), G("broadcast-matmul", 2, L(a[0].matmul(a[1])), {2, 3, 2, 4}, {3, 4, 2}),
    G("layerNorm", 3, L(layerNorm(a[0], IntArrayView{5}, a[1], a[2], 1e-5f)), {3, 5}, {5}, {5}), G("rmsNorm", 2, L(rmsNorm(a[0], IntArrayView{5}, a[1], 1e-5f)), {3, 5}, {5}),
    G("attention", 3, L(sdpAttention(a[0], a[1], a[2], true)), {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}), G("embedding", 1, L(embedding(x.ix({4}, 5), a[0])), {5, 3}), G("rope", 1, L(op::ropeApply(a[0], op::ropeInit(4, (int64_t)8, 10000.f, std::optional<RopeScalingConfig>(), x.opt()), (int64_t)1)), {1, 1, 3, 4}),
    G("siluMul", 1, L(siluMul(a[0])), {3, 4}), G("in-place", 2, L([&] { a[0].fillMasked_(x.bo({2, 3}), 4.f); op::mulInplace(a[0], a[1]); op::clampMaxInplace(a[0], a[1]); Tensor t = a[0].clone(); t.fillZero_(); return t; }()), {2, 3}, {2, 3}),
    G("item", 2, L([&] { Tensor t = x.f({1}, 3); t.fill_(Scalar(a[0].max().item<float>() + 1.f)); return t; }()), {2, 3}, {2, 3}),
    G("random", 1, L([&] { manualSeed(3); Tensor t = Tensor::rand({4}, x.opt()), n = Tensor::randn({4}, x.opt()), b = Tensor::bernoulli({4}, 0.5f, x.opt()), d = dropout(a[0], 0.5f, true), m = op::multinomial(a[0], (int64_t)1, true); return Tensor::full({2}, (float)(t.numel() + n.numel() + b.numel() + d.numel() + m.numel()), x.opt()); }()), {3, 4}),
  };
  return v;
}
void devices(Ctx& c) {
  std::vector<const Gr*> all;
  for (auto& g : graphs()) all.push_back(&g);
  for (auto& g : others()) all.push_back(&g);
  const Gr& g = *c.pick(all);
  int dev = c.pick(2), cur = c.pick(2), sc = schedule(c);
  bool nb = noBackward(g.n) || &g >= others().data();
  c.desc("%s on device %d, current device %d, %s", g.n, dev, cur, kSched[sc].n);
  if (dev) c.nontrivial();
  Current now(cur);
  both(c, DType::Float32, Fresh, sc, [&](X& x) {
    x.dev = dev;
    TL in;
    for (int k = 0; k < g.ins; k++) { in.push_back(x.f(g.s[k], k + 1, g.k)); if (!nb) in.back().setRequiresGrad(true); }
    int n = 0;
    for (auto& t : g.f(x, in)) {
      x.out(std::string(g.n) + "-forward", t, 3);
      n++;
      if (t.requiresGrad()) t.backward(x.f(shapeOf(t), 11 + n, Mixed));
      if (x.gpu && !(t.device() == x.device())) c.fail("device", "the result is on device %d", t.device().index);
    }
    for (int k = 0; k < g.ins; k++) if (!nb) x.out(std::string(g.n) + "-gradient", in[k].grad(), 8);
  });
  if (!(cuda::getCurrentDevice() == Device::cuda((DeviceIndex)cur))) c.fail("current-device", "the current device became %d", cuda::getCurrentDevice().index);
}
// Every history of operations on tensors in ordinary, pinned and two devices' memory; queued work of either device runs
// at every moment it may.
void transfers(Ctx& c) {
  int n = c.thorough() ? 4 : 3;
  bool cached = c.flip();
  struct Back { bool on; Back(bool on) : on(on) { CachedAllocator::setCacheEnabled(on); } ~Back() { CachedAllocator::setCacheEnabled(false); } } back(cached);
  setMode(1);
  cuemu::reset();
  size_t live = cuemu::liveBytes();
  std::string log;
  {
    static const char* where[] = {"ordinary", "pinned", "device 0", "device 1"};
    auto opt = [&](int w) { Options o; if (w == 1) o.pinnedMemory(true); if (w >= 2) o.device(Device::cuda((DeviceIndex)(w - 2))); return o; };
    Tensor t[4];
    double v[4];
    for (int i = 0; i < 4; i++) { t[i] = Tensor::full({3}, (float)(i + 1), opt(i)); v[i] = i + 1; }
    cuemu::finish();
    Tensor old;
    for (int k = 0; k < n; k++) {
      int o = c.pick(k > 0 && k < n - 1 ? 5 : 4), i = c.pick(4);   // all are read at the end
      if (o == 0 || o == 1) {   // copies
        int j = c.pick(3); j += j >= i;
        if (o == 0) { t[j].copy_(t[i]); log += std::string(" copy from ") + where[i] + " to " + where[j] + ";"; }
        else if (i == 0 && j == 1) c.skip();   // to(device) does not pin
        else if (i == 1 && j == 0) c.skip();
        else {
          Tensor u = t[i].to(j < 2 ? Device::cpu() : Device::cuda((DeviceIndex)(j - 2)));
          t[j] = u;
          log += std::string(" new ") + where[j] + " from " + where[i] + ";";
        }
        v[j] = v[i];
      } else if (o == 2) {   // computing in place
        op::mulInplace(t[i], Tensor::scalar(Scalar(3.f), opt(i))); v[i] *= 3;
        log += std::string(" triple ") + where[i] + ";";
      } else if (o == 3) {   // a new tensor, the old one goes
        t[i] = Tensor(); t[i] = Tensor::full({3}, (float)(20 + k), opt(i)); v[i] = 20 + k;
        log += std::string(" replace ") + where[i] + ";";
      } else {   // reading
        RT r = fetch(t[i]);
        log += std::string(" read ") + where[i] + ";";
        for (double d : r.v) if (d != v[i]) c.fail("read", "%s holds %g instead of %g after:%s", where[i], d, v[i], log.c_str());
      }
      while (k < n - 1) {   // queued work
        std::vector<int> w = cuemu::waiting();
        if (w.empty()) break;
        int q = c.pick((int)w.size() + 1);
        if (!q) break;
        cuemu::step(w[(size_t)q - 1]);
        log += " [device work]";
        if (!c.thorough()) break;
      }
    }
    for (;;) { std::vector<int> w = cuemu::waiting(); if (w.empty()) break; cuemu::step(w[w.size() > 1 ? (size_t)c.pick((int)w.size()) : 0]); }
    c.desc("%s:%s", cached ? "cached" : "not cached", log.c_str());
    if (!cuemu::problem().empty()) c.fail("gpu-access", "%s after:%s", cuemu::problem().c_str(), log.c_str());
    uint64_t h = 0;
    for (int i = 0; i < 4; i++) {
      RT r = fetch(t[i]);
      h = mix(h, (uint64_t)v[i]);
      for (double d : r.v) if (d != v[i]) c.fail("content", "%s holds %g instead of %g after:%s", where[i], d, v[i], log.c_str());
    }
    c.nontrivial(); c.outcome(h); c.transition((uint64_t)n);
  }
  cuemu::finish();
  if (!cuemu::problem().empty()) c.fail("gpu-access", "%s", cuemu::problem().c_str());
  if (!cached && cuemu::liveBytes() != live) c.fail("gpu-leak", "%zu bytes of device memory stay allocated", cuemu::liveBytes() - live);
}
void training(Ctx& c) {
  struct Opt { const char* n; std::function<std::shared_ptr<optim::Optimizer>(std::vector<TensorPtr>&&)> f; };
#define O(N, E) {N, [](std::vector<TensorPtr>&& p) -> std::shared_ptr<optim::Optimizer> { return std::make_shared<optim::E; }}
  static const std::vector<Opt> opts = {
    O("SGD", SGD>(std::move(p), 0.1f)), O("SGD with momentum", SGD>(std::move(p), 0.1f, 0.9f, 0.1f, 0.01f)), O("SGD nesterov", SGD>(std::move(p), 0.1f, 0.9f, 0.f, 0.f, true)),
    O("Adagrad", Adagrad>(std::move(p), 0.1f, 0.01f, 0.01f, 0.1f)), O("RMSprop", RMSprop>(std::move(p), 0.01f, 0.9f, 1e-2f, 0.01f)), O("RMSprop centered", RMSprop>(std::move(p), 0.01f, 0.9f, 1e-2f, 0.f, 0.9f, true)),
    O("AdaDelta", AdaDelta>(std::move(p), 1.f, 0.9f, 1e-2f, 0.01f)), O("Adam", Adam>(std::move(p), 0.01f, std::make_pair(0.9f, 0.99f), 1e-2f, 0.01f)), O("Adam amsgrad", Adam>(std::move(p), 0.01f, std::make_pair(0.9f, 0.99f), 1e-2f, 0.f, true)), O("AdamW", AdamW>(std::move(p), 0.01f, std::make_pair(0.9f, 0.99f), 1e-2f, 0.1f, true))};
#undef O
  const Opt& o = c.pick(opts);
  int model = c.pick(3), dev = c.pick(2), how = c.pick(2), sc = schedule(c);
  bool cached = c.flip();
  int steps = c.thorough() ? 4 : 2;
  static const char* mn[] = {"two linear layers, mean square", "convolution, negative likelihood", "three layers without bias, sum of squares"};
  c.desc("%s, %s, device %d, model moved %d, %s, %s", o.n, mn[model], dev, how, cached ? "cached" : "not cached", kSched[sc].n);
  c.nontrivial();
  struct Back { Back(bool on) { CachedAllocator::setCacheEnabled(on); } ~Back() { CachedAllocator::setCacheEnabled(false); } } back(cached);
  auto body = [&](X& x) {
    x.dev = dev;
    using namespace nn;
    typedef std::shared_ptr<Module> M;
    Options od; if (x.gpu && how == 0) od.device(x.device());   // else built on the CPU and moved
    auto net = [&](const Options& w) -> std::shared_ptr<Sequential> {
      if (model == 0) return std::shared_ptr<Sequential>(new Sequential{M(new Linear(4, 6, true, w)), M(new Relu()), M(new Linear(6, 2, true, w))});
      if (model == 1) return std::shared_ptr<Sequential>(new Sequential{M(new Conv2D(1, 2, Dim2D(3), Dim2D(1), Dim2D(1), true, w)), M(new Relu()), M(new MaxPool2D(Dim2D(2), Dim2D(2))), M(new Flatten(1)), M(new Linear(8, 3, true, w)), M(new LogSoftmax(1))});
      return std::shared_ptr<Sequential>(new Sequential{M(new Linear(4, 5, false, w)), M(new Relu()), M(new Linear(5, 5, false, w)), M(new Softmax(1)), M(new Linear(5, 2, false, w))});
    };
    auto m = net(od);
    { NoGradGuard g; X cpu{c, false, DType::Float32, Fresh}; int k = 0; for (auto* p : m->parameters()) { k++; p->copy_(cpu.f(shapeOf(*p), k, Mixed)); op::mulInplace(*p, Tensor::scalar(Scalar(0.25f), p->options().noGrad())); } }
    std::shared_ptr<optim::Optimizer> opt;
    if (x.gpu && how == 1) m->to(x.device());
    opt = o.f(m->parameters());
    for (int k = 0; k < steps; k++) {
      opt->zeroGrad();
      Tensor in = model == 1 ? x.f({3, 1, 4, 4}, k, Mixed) : x.f({3, 4}, k, Mixed);
      Tensor y = (*m)(in), l = model == 1 ? function::nllLoss(y, x.ix({3}, 3, k)) : function::mseLoss(y, x.f({3, 2}, k + 5), model ? LossReduction::SUM : LossReduction::MEAN);
      l.backward();
      opt->step();
      x.out("loss", l.clone(), 60);
    }
    int k = 0;
    for (auto* p : m->parameters()) { x.out("parameter-" + std::to_string(k++), p->clone(), 60); x.out("gradient", p->grad().clone(), 60); }
    if (sc == 0) { // saved and loaded on the other side
      std::string path = "/tmp/g01." + std::to_string(getpid());
      Serializer::save(*m, path.c_str());
      for (int side = 0; side < 2; side++) {
        Options w; if (x.gpu && side) w.device(x.device());
        auto n = net(w);
        n->initParameters();
        if (!Serializer::load(*n, path.c_str())) c.fail("load", "the saved model does not load");
        for (auto* p : n->parameters()) x.out("loaded", *p, 60);
      }
      unlink(path.c_str());
    }
  };
  both(c, DType::Float32, Fresh, sc, body, 1, !cached);   // cached memory stays
}
// What streams and events promise: work of a stream in order, waiting for an event or a stream orders the work, synchronizing
// and querying tell the truth.
void streams(Ctx& c) {
  int n = c.thorough() ? 5 : 4;
  setMode(1);
  cuemu::reset();
  int dev = c.pick(2);
  std::string log;
  {
    using namespace cuda;
    CUDAStream s[2] = {createCUDAStream(dev), createCUDAStream(dev)};
    CUDAEvent e = createCUDAEvent(dev);
    std::vector<std::set<int>> before;   // per work: the works that come first
    std::set<int> front[2], rec; bool recorded = false;
    auto done = std::make_shared<std::vector<char>>();
    auto order = std::make_shared<std::vector<int>>();
    auto mustBeDone = [&](const std::set<int>& w, const char* what) { for (int k : w) if (!(*done)[k]) c.fail(what, "work %d has not been done after:%s", k, log.c_str()); };
    auto drain1 = [&](bool all) {
      for (;;) {
        std::vector<int> w = cuemu::waiting();
        if (w.empty()) break;
        int q = all ? (w.size() > 1 ? c.pick((int)w.size()) + 1 : 1) : c.pick((int)w.size() + 1);
        if (!q) break;
        cuemu::step(w[(size_t)q - 1]);
        log += " [device work]";
        if (!all) break;
      }
    };
    for (int k = 0; k < n; k++) {
      int o = c.pick(7), i = o > 4 || !k ? 0 : c.pick(2);   // the streams are alike
      if (o == 0) { int id = (int)before.size(); before.push_back(front[i]); front[i].insert(id); done->push_back(0); cuemu::serial(s[i].stream(), [=] { (*done)[(size_t)id] = 1; order->push_back(id); }); log += " work on " + std::to_string(i) + ";"; }
      else if (o == 1) { s[i].waitStream(s[1 - i]); front[i].insert(front[1 - i].begin(), front[1 - i].end()); log += " " + std::to_string(i) + " waits for the other;"; }
      else if (o == 2) { e.record(s[i]); rec = front[i]; recorded = true; log += " event on " + std::to_string(i) + ";"; }
      else if (o == 3) { e.block(s[i]); if (recorded) front[i].insert(rec.begin(), rec.end()); log += " " + std::to_string(i) + " waits for the event;"; }
      else if (o == 4) { log += " synchronize " + std::to_string(i) + ";"; s[i].synchronize(); mustBeDone(front[i], "synchronize"); }
      else if (o == 5) { CUDAStream t = std::move(s[i]); if (s[i].valid() || !t.valid() || t.deviceIdx() != dev) c.fail("move", "moving a stream"); s[i] = std::move(t); if (t.valid() || !s[i].valid()) c.fail("move", "moving a stream back"); CUDAEvent f = std::move(e); if (e.valid() || !f.valid()) c.fail("move", "moving an event"); if (e.query()) c.fail("move", "an event without state says it is done"); e = std::move(f); log += " moves;"; }
      else { log += " query;"; bool q = e.query(); if (q) mustBeDone(rec, "query"); else { bool all = true; for (int w : rec) all = all && (*done)[w]; if (!recorded) c.fail("query-empty", "an event with nothing before it is not done after:%s", log.c_str()); } }
      if (k < n - 1) drain1(false);
    }
    drain1(true);
    std::set<int> seen;
    for (int w : *order) { for (int b : before[(size_t)w]) if (!seen.count(b)) c.fail("order", "work %d ran before work %d after:%s", w, b, log.c_str()); seen.insert(w); }
    if (seen.size() != before.size()) c.fail("lost", "%zu of %zu works ran", seen.size(), before.size());
    for (auto& t : s) { t.synchronize(); }
    if (recorded && !e.query()) c.fail("query-end", "the event is not done at the end after:%s", log.c_str());
    c.desc("device %d:%s", dev, log.c_str());
    uint64_t h = 0; for (int w : *order) h = mix(h, (uint64_t)w);
    if (before.size() > 1) c.nontrivial();
    c.outcome(h); c.transition((uint64_t)n);
  }
  if (!cuemu::problem().empty()) c.fail("gpu-access", "%s", cuemu::problem().c_str());
}
int reg() {
  CachedAllocator::setCacheEnabled(false);
  add("unary", "every unary element-wise operation, form, type, shape and kind of storage", unary, 3);
  add("binary", "every binary element-wise operation, form, type, shape pair and kind of storage", binary, 3);
  add("logic", "logical operations", logic, 2);
  add("ternary", "clamp and addcmul", ternary, 3);
  add("gradients", "forward and backward of every differentiable operation", gradients, 2);
  add("halves", "the same operations in 16-bit types", halves, 2);
  add("reduce-all", "reductions of a whole tensor", reduceAll, 3);
  add("reduce-dim", "reductions of one dimension", reduceDim, 3);
  add("reduce-dims", "reductions of several dimensions", reduceDims, 3);
  add("filling", "filling in place", filling, 3);
  add("creating", "new tensors", creating, 2);
  add("casting", "conversions between all types", casting, 2);
  add("randoms", "random tensors, with typical and extreme draws", randoms, 3);
  add("matmul", "products", matmuls, 2);
  add("images", "im2col, col2im", images, 3);
  add("softmax", "softmax and logSoftmax, forward and backward", softmaxes, 4);
  add("norms", "layerNorm, rmsNorm", norms, 3);
  add("attention", "attention, rotary embedding, embedding, fused operations", attention, 3);
  add("sorting", "topk, sort, cumsum", sorting, 3);
  add("sampling", "multinomial, with typical and extreme draws", sampling, 4);
  add("transforms", "permutations, triangles, gathering, joining", transforms, 3);
  add("indexing", "indexed reads and writes", indexing, 3);
  add("devices", "every operation on either device, whichever is current", devices, 3);
  add("training", "models, every optimizer, either device, saving and loading", training, 3);
  add("streams", "every history of works, waits, events, and of device progress", streams, 4);
  add("transfers", "every history of copies and computations on memory of all kinds, every order of queued work", transfers, 4);
  return 0;
}
int r_ = reg();
}  // namespace
