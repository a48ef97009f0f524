// T07: reductions over everything, over one dimension, over every set of dimensions.
#include "refops.h"
using namespace mc;

namespace {
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};
double eps(DType t) { return t == DType::Float32 ? 1.2e-7 : t == DType::Float16 ? 9.8e-4 : 7.9e-3; }
const double inf = std::numeric_limits<double>::infinity();
enum Red { Sum, Mean, Min, Max, Argmin, Argmax, Var, VarB, NRed };
const char* rn[] = {"sum", "mean", "min", "max", "argmin", "argmax", "var", "var-biased"};
double apply(Red r, const std::vector<double>& g) {
  double s = 0, m; size_t k = 0;
  for (double x : g) s += x;
  switch (r) {
    case Sum: return s;
    case Mean: return s / g.size();
    case Min: case Argmin: for (size_t i = 1; i < g.size(); i++) if (g[i] < g[k]) k = i; return r == Min ? g[k] : (double)k;
    case Max: case Argmax: for (size_t i = 1; i < g.size(); i++) if (g[i] > g[k]) k = i; return r == Max ? g[k] : (double)k;
    default: m = s / g.size(); s = 0; for (double x : g) s += (x - m) * (x - m); return s / (g.size() - (r == Var ? 1.0 : 0.0));
  }
}
// relative and absolute tolerance for groups of n elements of magnitude at most mag
void tol(Red r, DType dt, int64_t n, double mag, double& rel, double& ab) {
  // whatever the element type, sums are accumulated in at least float
  double e = eps(DType::Float32); rel = dt == DType::Float32 ? 0 : eps(dt); ab = 0;
  if (r == Sum) ab = e * n * n * mag * 0.5;
  if (r == Mean) ab = e * (n + 3) * mag;
  if (r == Var || r == VarB) { rel += e * 8; ab = e * (n + 8) * mag * mag * 2; }
}
bool isIdx(Red r) { return r == Argmin || r == Argmax; }
void finish(Ctx& c, Red r, const char* form, const Tensor& got, const RT& in, const RT& want, DType dt, int64_t n) {
  double mag = 0; for (double x : in.v) if (!std::isinf(x)) mag = std::max(mag, std::fabs(x));
  double rel, ab; tol(r, dt, n, mag, rel, ab);
  expect(c, std::string(rn[r]) + form, got, want, rel, ab);
  DType w = isIdx(r) ? DType::Int64 : dt;
  if (got.dtype() != w) c.fail(std::string(rn[r]) + form + "-dtype", "%s expected %s", dtName(got.dtype()), dtName(w));
}
// the result must be private: overwriting it must leave the input alone
void isolated(Ctx& c, Red r, const char* form, Tensor got, const Tensor& a, const RT& in) {
  std::string key = std::string(rn[r]) + form;
  expect(c, key + "-input-changed", a, in);
  got.fill_(Scalar(0)); 
  expect(c, key + "-result-shares-input", a, in);
}

void checkAll(Ctx& c, const RT& in, DType dt, int prov, Red r) {
  std::vector<Tensor> keep;
  Tensor a = mk(in, dt, false, prov, &keep);
  int64_t n = in.numel();
  std::vector<bool> red(in.dim(), true);
  c.site(rn[r]);
  if (r == Var && n <= 1) c.skip();
  RT want = refReduce(in, red, false, [&](const std::vector<double>& g) { return roundTo(apply(r, g), isIdx(r) ? DType::Int64 : dt); });
  auto chk = [&](const char* form, const Tensor& got) { finish(c, r, form, got, in, want, dt, n); isolated(c, r, form, got, a, in); };
  switch (r) {
    case Sum: chk("", a.sum()); chk("-op", op::sum(a)); break;
    case Mean: chk("", a.mean()); chk("-op", op::mean(a)); break;
    case Min: chk("", a.min()); chk("-op", op::min(a)); break;
    case Max: chk("", a.max()); chk("-op", op::max(a)); break;
    case Argmin: chk("", a.argmin()); break;
    case Argmax: chk("", a.argmax()); break;
    default: {
      bool ub = r == Var;
      chk("", a.var(ub));
      auto vm = a.varMean(ub);
      chk("-pair", vm.first);
      RT wm = refReduce(in, red, false, [&](const std::vector<double>& g) { return roundTo(apply(Mean, g), dt); });
      finish(c, Mean, "-of-varMean", vm.second, in, wm, dt, n); isolated(c, Mean, "-of-varMean", vm.second, a, in);
    }
  }
  c.outcome(hashRT(want));
}
void checkDims(Ctx& c, const RT& in, DType dt, int prov, Red r, Sh dims, bool keepD) {
  std::vector<Tensor> keep;
  Tensor a = mk(in, dt, false, prov, &keep);
  std::vector<bool> red(in.dim(), false);
  for (auto d : dims) if (in.dim()) red[normDim(d, in.dim())] = true;
  int64_t n = 1; for (size_t i = 0; i < red.size(); i++) if (red[i]) n *= in.s[i];
  c.site(rn[r]);
  if (r == Var && n <= 1) c.skip();
  bool one = dims.size() == 1;
  if (!one && (r == Min || r == Max || isIdx(r))) c.skip();
  if (n == 0 && r != Sum) c.skip();
  RT want = refReduce(in, red, keepD, [&](const std::vector<double>& g) { return roundTo(apply(r, g), isIdx(r) ? DType::Int64 : dt); });
  if (in.dim() == 0) want = RT(Sh{}, {roundTo(apply(r, in.v), isIdx(r) ? DType::Int64 : dt)});
  auto chk = [&](const char* form, const Tensor& got) { finish(c, r, form, got, in, want, dt, n); isolated(c, r, form, got, a, in); };
  int64_t d = dims[0];
  switch (r) {
    case Sum: if (one) chk("-dim", a.sum(d, keepD)); chk("-dims", a.sum(iv(dims), keepD)); break;
    case Mean: if (one) chk("-dim", a.mean(d, keepD)); chk("-dims", a.mean(iv(dims), keepD)); break;
    case Min: case Argmin: {
      auto p = a.min(d, keepD); chk("-dim", r == Min ? p.first : p.second);
      if (r == Argmin) { chk("-dim-index", a.argmin(d, keepD)); chk("-function", function::argmin(a, d, keepD)); }
      break;
    }
    case Max: case Argmax: {
      auto p = a.max(d, keepD); chk("-dim", r == Max ? p.first : p.second);
      if (r == Argmax) { chk("-dim-index", a.argmax(d, keepD)); chk("-function", function::argmax(a, d, keepD)); }
      break;
    }
    default: {
      bool ub = r == Var;
      if (one) chk("-dim", a.var(d, ub, keepD));
      chk("-dims", a.var(iv(dims), ub, keepD));
      RT wm = refReduce(in, red, keepD, [&](const std::vector<double>& g) { return roundTo(apply(Mean, g), dt); });
      if (in.dim() == 0) wm = RT(Sh{}, in.v);
      auto pr = [&](TensorPair vm, const char* f1, const char* f2) {
        chk(f1, vm.first);
        finish(c, Mean, f2, vm.second, in, wm, dt, n); isolated(c, Mean, f2, vm.second, a, in);
      };
      if (one) pr(a.varMean(d, ub, keepD), "-dim-pair", "-of-varMean-dim");
      pr(a.varMean(iv(dims), ub, keepD), "-dims-pair", "-of-varMean-dims");
    }
  }
  c.outcome(hashRT(want));
}
std::vector<double> pattern(int64_t n, int p) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) switch (p) {
    case 0: v[i] = ((int)((i * 37 + 11) % 61) - 30) * 0.25; break;  // distinct, mixed signs
    case 1: v[i] = -(double)((i * 5) % 7) - 1; break;               // all negative, ties
    case 2: v[i] = (i * 3) % 4; break;                              // many ties
    case 3: v[i] = 2.5; break;                                      // constant
    case 4: v[i] = i % 3 == 1 ? inf : -inf; break;
    case 5: v[i] = inf; break;
    case 6: v[i] = -inf; break;
    default: v[i] = i % 4 == 2 ? -inf : (double)(i % 5) - 6; break;
  }
  return v;
}
const std::vector<Sh>& shapes() { static const auto s = [] { auto v = allShapes(0, 4, {1, 2, 3}); for (auto& x : allShapes(5, 5, {1, 2})) v.push_back(x); for (auto& x : std::vector<Sh>{{17}, {5, 7}, {7, 5}, {4, 1, 6}, {64}, {3, 33}}) v.push_back(x); return v; }(); return s; }

void fAll(Ctx& c) {
  Sh s = c.pick(shapes());
  Red r = (Red)c.pick((int)NRed);
  DType dt = c.pick(flts); int prov = c.pick(3); int pat = c.pick(8);
  if (pat >= 4 && r != Min && r != Max && !isIdx(r)) c.skip();
  c.desc("%s of %s %s %s pattern %d", rn[r], str(s).c_str(), dtName(dt), provName(prov), pat);
  if (s.size() > 1) c.nontrivial();
  checkAll(c, RT(s, pattern(numelOf(s), pat)), dt, prov, r);
}
void fDims(Ctx& c) {
  Sh s = c.pick(shapes());
  Red r = (Red)c.pick((int)NRed);
  int64_t n = (int64_t)s.size();
  Sh dims;
  if (n == 0) dims = {c.flip() ? 0 : -1};
  else {
    int set = 1 + c.pick((1 << n) - 1), form = c.pick(3);  // form: ascending, negative, descending
    for (int64_t d = 0; d < n; d++) if (set >> d & 1) dims.push_back(form == 1 ? d - n : d);
    if (form == 2) { if (dims.size() == 1) c.skip(); std::reverse(dims.begin(), dims.end()); }
  }
  bool keepD = c.flip();
  DType dt = c.pick(flts);
  int prov = n >= 4 && !c.thorough() ? 1 : c.pick(3);
  int pat = c.pick(8);
  if (pat >= 4 && r != Min && r != Max && !isIdx(r)) c.skip();
  if (n >= 4 && !c.thorough() && pat != 0 && pat != 2 && pat != 7) c.skip();
  c.desc("%s of %s over %s keep=%d %s %s pattern %d", rn[r], str(s).c_str(), str(dims).c_str(), keepD, dtName(dt), provName(prov), pat);
  if (s.size() > 1) c.nontrivial();
  checkDims(c, RT(s, pattern(numelOf(s), pat)), dt, prov, r, dims, keepD);
}
// zero-size: sums are zero
void fEmpty(Ctx& c) {
  static const auto ss = [] { std::vector<Sh> v; for (auto& s : allShapes(1, 3, {0, 1, 2})) if (numelOf(s) == 0) v.push_back(s); return v; }();
  Sh s = c.pick(ss); DType dt = c.pick(flts);
  c.desc("sum of empty %s", str(s).c_str());
  int64_t n = (int64_t)s.size();
  if (c.flip()) { checkAll(c, RT(s), dt, Fresh, Sum); return; }
  int set = 1 + c.pick((1 << n) - 1); Sh dims; for (int64_t d = 0; d < n; d++) if (set >> d & 1) dims.push_back(d);
  checkDims(c, RT(s), dt, Fresh, Sum, dims, c.flip());
}
// every value pattern over a small alphabet: ties, infinities, both signs of zero
void fValues(Ctx& c) {
  static const std::vector<double> al = {-inf, -2, -0.5, 0, 1, inf};
  int n = 1 + c.pick(c.thorough() ? 5 : 4);
  Sh s; int kind = c.pick(3);  // [n], [n,2] along 0, [2,n] along 1
  std::vector<double> v(n); for (auto& x : v) x = c.pick(al);
  s = kind == 0 ? Sh{n} : kind == 1 ? Sh{n, 2} : Sh{2, n};
  RT in(s);
  for (int i = 0; i < n; i++) { if (kind == 0) in.v[i] = v[i]; else if (kind == 1) { in.v[2 * i] = v[i]; in.v[2 * i + 1] = v[n - 1 - i]; } else { in.v[i] = v[i]; in.v[n + i] = v[n - 1 - i]; } }
  DType dt = c.pick(flts);
  bool fin = true; for (double x : v) if (std::isinf(x)) fin = false;
  c.desc("values %s kind %d %s", str(v).c_str(), kind, dtName(dt));
  c.nontrivial();
  for (int r = 0; r < NRed; r++) {
    if (!fin && r != Min && r != Max && !isIdx((Red)r)) continue;
    if (r == Var && n <= 1) continue;
    checkAll(c, in, dt, Fresh, (Red)r);
    checkDims(c, in, dt, Fresh, (Red)r, {kind == 2 ? 1 : 0}, false);
  }
}
// long rows: half-precision accumulation would stall
void fLong(Ctx& c) {
  int64_t n = c.pick({257, 300, 2049, 5000}); int kind = c.pick(3); DType dt = c.pick(flts); Red r = (Red)c.pick((int)NRed);
  Sh s = kind == 0 ? Sh{n} : kind == 1 ? Sh{n, 2} : Sh{2, n};
  RT in(s); for (int64_t i = 0; i < in.numel(); i++) in.v[i] = (double)((i * 5) % 3);
  c.desc("long %s of %s %s", rn[r], str(s).c_str(), dtName(dt)); c.nontrivial();
  if (c.flip()) checkAll(c, in, dt, Fresh, r); else checkDims(c, in, dt, Fresh, r, {kind == 2 ? 1 : 0}, c.flip());
}
struct Reg { Reg() {
  add("long", "rows of 257-5000 elements in every type", fLong, 2);
  add("all", "every shape x reduction x type x provenance x pattern, whole tensor", fAll, 3);
  add("dims", "every shape x non-empty set of dimensions (positive, negative, reversed) x keepdim", fDims, 3);
  add("empty", "zero-size shapes: sums", fEmpty, 2);
  add("values", "every value sequence over {-inf,-2,-.5,0,1,inf} up to length 4 (5 thorough)", fValues, 3);
} } reg;
}  // namespace
