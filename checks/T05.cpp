// T05: elementwise binary and ternary operations over every pair / triple of small broadcastable shapes,
// every form (operator, function, scalar operand, into a given output, in place), every float type.
#include "refops.h"
using namespace mc;

namespace {
double eps(DType t) { return t == DType::Float32 ? 2.4e-7 : t == DType::Float16 ? 2e-3 : t == DType::BFloat16 ? 1.6e-2 : 0; }
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};

struct BinOp {
  const char* name;
  double (*f)(double, double);
  Tensor (*out)(const Tensor&, const Tensor&);
  void (*inpl)(Tensor&, const Tensor&);
  void (*into)(Tensor&, const Tensor&, const Tensor&);
  Tensor (*oper)(const Tensor&, const Tensor&);
  Tensor (*scalR)(const Tensor&, const Scalar&);
  Tensor (*scalL)(const Scalar&, const Tensor&);
  void (*assign)(Tensor&, const Tensor&);
  void (*assignS)(Tensor&, const Scalar&);
  bool cmp, i64, posBase;
};
#define IN(o) [](Tensor& a, const Tensor& b) { op::o(a, b); }
#define TO(o) [](Tensor& r, const Tensor& a, const Tensor& b) { op::o(r, a, b); }
#define OUT(o) [](const Tensor& a, const Tensor& b) -> Tensor { return op::o(a, b); }
#define OPR(o) [](const Tensor& a, const Tensor& b) -> Tensor { return a o b; }
#define SR(o) [](const Tensor& a, const Scalar& b) -> Tensor { return a o b; }
#define SL(o) [](const Scalar& a, const Tensor& b) -> Tensor { return a o b; }
#define AS(o) [](Tensor& a, const Tensor& b) { a o b; }
#define ASS(o) [](Tensor& a, const Scalar& b) { a o b; }
const std::vector<BinOp> binOps = {
  {"add", [](double a, double b) { return a + b; }, [](const Tensor& a, const Tensor& b) -> Tensor { return op::add(a, b, Scalar(1)); },
   [](Tensor& a, const Tensor& b) { op::addInplace(a, b, Scalar(1)); }, [](Tensor& r, const Tensor& a, const Tensor& b) { op::addOut(r, a, b, Scalar(1)); },
   OPR(+), SR(+), SL(+), AS(+=), ASS(+=), false, false, false},
  {"sub", [](double a, double b) { return a - b; }, [](const Tensor& a, const Tensor& b) -> Tensor { return op::sub(a, b, Scalar(1)); },
   [](Tensor& a, const Tensor& b) { op::subInplace(a, b, Scalar(1)); }, [](Tensor& r, const Tensor& a, const Tensor& b) { op::subOut(r, a, b, Scalar(1)); },
   OPR(-), SR(-), SL(-), AS(-=), ASS(-=), false, false, false},
  {"mul", [](double a, double b) { return a * b; }, OUT(mul), IN(mulInplace), TO(mulOut), OPR(*), SR(*), SL(*), AS(*=), ASS(*=), false, false, false},
  {"div", [](double a, double b) { return a / b; }, OUT(div), IN(divInplace), TO(divOut), OPR(/), SR(/), SL(/), AS(/=), ASS(/=), false, false, false},
  {"pow", [](double a, double b) { return std::pow(a, b); }, OUT(pow), IN(powInplace), TO(powOut), [](const Tensor& a, const Tensor& b) { return a.pow(b); },
   [](const Tensor& a, const Scalar& b) { return a.pow(b); }, nullptr, nullptr, nullptr, false, false, true},
  {"maximum", [](double a, double b) { return a > b ? a : b; }, OUT(maximum), nullptr, TO(maximumOut), [](const Tensor& a, const Tensor& b) { return Tensor::maximum(a, b); }, nullptr, nullptr, nullptr, nullptr, false, true, false},
  {"minimum", [](double a, double b) { return a < b ? a : b; }, OUT(minimum), nullptr, TO(minimumOut), [](const Tensor& a, const Tensor& b) { return Tensor::minimum(a, b); }, nullptr, nullptr, nullptr, nullptr, false, true, false},
  {"eq", [](double a, double b) { return (double)(a == b); }, OUT(eq), nullptr, TO(eqOut), OPR(==), SR(==), nullptr, nullptr, nullptr, true, true, false},
  {"ne", [](double a, double b) { return (double)(a != b); }, OUT(ne), nullptr, TO(neOut), OPR(!=), SR(!=), nullptr, nullptr, nullptr, true, true, false},
  {"lt", [](double a, double b) { return (double)(a < b); }, OUT(lt), nullptr, TO(ltOut), OPR(<), SR(<), nullptr, nullptr, nullptr, true, true, false},
  {"le", [](double a, double b) { return (double)(a <= b); }, OUT(le), nullptr, TO(leOut), OPR(<=), SR(<=), nullptr, nullptr, nullptr, true, true, false},
  {"gt", [](double a, double b) { return (double)(a > b); }, OUT(gt), nullptr, TO(gtOut), OPR(>), SR(>), nullptr, nullptr, nullptr, true, true, false},
  {"ge", [](double a, double b) { return (double)(a >= b); }, OUT(ge), nullptr, TO(geOut), OPR(>=), SR(>=), nullptr, nullptr, nullptr, true, true, false},
  {"clampMin", [](double a, double b) { return a < b ? b : a; }, OUT(clampMin), IN(clampMinInplace), TO(clampMinOut), nullptr, nullptr, nullptr, nullptr, nullptr, false, true, false},
  {"clampMax", [](double a, double b) { return a > b ? b : a; }, OUT(clampMax), IN(clampMaxInplace), TO(clampMaxOut), nullptr, nullptr, nullptr, nullptr, nullptr, false, true, false},
};
// few distinct values so that equalities and orderings both ways occur
std::vector<double> vals(int64_t n, int salt, bool pos) {
  static const double base[] = {1, -2, 0.5, 3, 1, -0.25, 2, 4, -1, 1.5, -3};
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) { double x = base[(i * 5 + salt * 3) % 11]; v[i] = pos ? std::fabs(x) : x; }
  return v;
}
std::vector<double> ivals(int64_t n, int salt) { auto v = vals(n, salt, false); for (auto& x : v) x = std::floor(x * 2); return v; }

struct Pair { Sh a, b, o; };
std::vector<Pair> pairs(const std::vector<Sh>& ss) {
  std::vector<Pair> r;
  for (auto& a : ss) for (auto& b : ss) { Sh o; if (refBroadcast(a, b, o)) r.push_back({a, b, o}); }
  return r;
}
void typeOk(Ctx& c, const char* key, const Tensor& r, DType want) { if (r.dtype() != want) c.fail(std::string(key) + "-dtype", "element type %s, expected %s", dtName(r.dtype()), dtName(want)); }

void binCase(Ctx& c, const BinOp& o, const Pair& p, DType dt, int provA, int provB) {
  std::vector<Tensor> keep;
  bool isInt = dt == DType::Int64;
  RT ra(p.a, isInt ? ivals(numelOf(p.a), 1) : vals(numelOf(p.a), 1, o.posBase)), rb(p.b, isInt ? ivals(numelOf(p.b), 4) : vals(numelOf(p.b), 4, false));
  Tensor a = mk(ra, dt, false, provA, &keep), b = mk(rb, dt, false, provB, &keep);
  c.desc("%s %s%s %s%s %s", o.name, str(p.a).c_str(), provName(provA), str(p.b).c_str(), provName(provB), dtName(dt));
  RT want = refBinary(ra, rb, o.f);
  DType odt = o.cmp ? DType::Bool : dt;
  for (auto& x : want.v) x = roundTo(x, odt == DType::Bool ? DType::Bool : dt);
  double e = o.cmp ? 0 : eps(dt);
  std::string n = o.name;
  auto chk = [&](const char* form, const Tensor& r) { expect(c, n + form, r, want, e); typeOk(c, o.name, r, odt); };
  auto same = [&](const char* form) { expect(c, n + form + "-left-changed", a, ra); expect(c, n + form + "-right-changed", b, rb); };
  c.site(o.name);
  chk("", o.out(a, b));
  if (o.oper) chk("-operator", o.oper(a, b));
  same("");
  if (o.into && !o.cmp) {
    Tensor r = Tensor::empty(iv(p.o), options::dtype(odt)); r.fill_(Scalar(0));
    Tensor r2 = r.clone();
    o.into(r, a, b); chk("Out", r);
    expect(c, n + "Out-clone-of-output-changed", r2, RT(p.o, 0.0));
    same("Out");
  }
  if (p.o == p.a) {
    if (o.inpl) { Tensor w = a.clone(); o.inpl(w, b); chk("Inplace", w); same("Inplace"); }
    if (o.assign) { Tensor w = a.clone(); o.assign(w, b); chk("-assign", w); same("-assign"); }
  }
  c.outcome(hashRT(want));
  if (p.a != p.b) c.nontrivial();
}

void fShapes(Ctx& c) {
  static const auto ps = pairs(allShapes(0, 3, {1, 2, 3}));
  static const auto pz = [] { std::vector<Pair> r; for (auto& p : pairs(allShapes(0, 2, {0, 1, 3}))) if (numelOf(p.o) == 0) r.push_back(p); return r; }();
  static const auto p4 = pairs(allShapes(4, 4, {1, 2})); 
  int kind = c.pick(3);
  const Pair& p = kind == 0 ? ps[c.pick((int)ps.size())] : kind == 1 ? pz[c.pick((int)pz.size())] : p4[c.pick((int)p4.size())];
  const BinOp& o = binOps[c.pick((int)binOps.size())];
  DType dt = c.pick(o.i64 ? std::vector<DType>{DType::Float32, DType::Float16, DType::BFloat16, DType::Int64} : flts);
  int pv = c.pick(c.thorough() ? 9 : 3);
  if (!c.thorough()) pv *= 4;  // (fresh,fresh) (offset,offset) (clone,clone)
  binCase(c, o, p, dt, pv / 3, pv % 3);
}
// different ranks beyond 3
void fRanks(Ctx& c) {
  static const auto ps = [] {
    std::vector<Pair> r;
    auto big = allShapes(5, 5, {1, 2}), small = allShapes(0, 5, {1, 2});
    for (auto& a : big) for (auto& b : small) { Sh o; if (refBroadcast(a, b, o)) { r.push_back({a, b, o}); if (a.size() != b.size()) r.push_back({b, a, o}); } }
    return r;
  }();
  const Pair& p = ps[c.pick((int)ps.size())];
  const BinOp& o = binOps[c.pick({0, 1, 3, 9})];
  binCase(c, o, p, DType::Float32, OffsetView, Fresh);
}
void fScalar(Ctx& c) {
  static const auto ss = allShapes(0, 3, {0, 1, 2, 3});
  const BinOp& o = binOps[c.pick((int)binOps.size())];
  if (!o.scalR) c.skip();
  Sh s = c.pick(ss);
  DType dt = c.pick(o.i64 ? std::vector<DType>{DType::Float32, DType::Float16, DType::BFloat16, DType::Int64} : flts);
  int prov = c.pick(3);
  int kind = c.pick(4);  // float, int32, int64, bool scalar
  double v = kind == 0 ? (dt == DType::Int64 ? 2.0 : 1.5) : kind == 1 ? -2 : kind == 2 ? 3 : 1;
  Scalar sc = kind == 0 ? Scalar((float)v) : kind == 1 ? Scalar((int32_t)v) : kind == 2 ? Scalar((int64_t)v) : Scalar(true);
  std::vector<Tensor> keep;
  RT ra(s, dt == DType::Int64 ? ivals(numelOf(s), 2) : vals(numelOf(s), 2, o.posBase));
  Tensor a = mk(ra, dt, false, prov, &keep);
  c.desc("%s %s %s with scalar %g kind %d", o.name, str(s).c_str(), dtName(dt), v, kind);
  c.site(o.name);
  RT sv({}, {v});
  double e = o.cmp ? 0 : eps(dt);
  RT want = refBinary(ra, sv, o.f); for (auto& x : want.v) x = roundTo(x, o.cmp ? DType::Bool : dt);
  std::string n = o.name;
  expect(c, n + "-scalar", o.scalR(a, sc), want, e);
  if (o.scalL) { RT w = refBinary(sv, ra, o.f); for (auto& x : w.v) x = roundTo(x, dt); expect(c, n + "-scalar-left", o.scalL(sc, a), w, e); }
  if (o.assignS) { Tensor w = a.clone(); o.assignS(w, sc); expect(c, n + "-assign-scalar", w, want, e); }
  expect(c, n + "-scalar-operand-changed", a, ra);
  c.nontrivial(); c.outcome(hashRT(want));
}
void fAlpha(Ctx& c) {
  static const auto ps = pairs(allShapes(0, 2, {1, 2, 3}));
  const Pair& p = ps[c.pick((int)ps.size())];
  bool sub = c.flip(); DType dt = c.pick(flts); double al = c.pick({2.0, -0.5, 0.0, 3.0}); int form = c.pick(3); int prov = c.pick(2);
  std::vector<Tensor> keep;
  RT ra(p.a, vals(numelOf(p.a), 1, false)), rb(p.b, vals(numelOf(p.b), 4, false));
  Tensor a = mk(ra, dt, false, prov, &keep), b = mk(rb, dt, false, prov, &keep);
  c.desc("%s alpha %g %s %s %s form %d", sub ? "sub" : "add", al, str(p.a).c_str(), str(p.b).c_str(), dtName(dt), form);
  c.site("alpha");
  RT want = refBinary(ra, rb, [&](double x, double y) { return roundTo(sub ? x - al * y : x + al * y, dt); });
  double e = eps(dt);
  Scalar s((float)al);
  if (form == 0) { expect(c, "alpha-function", sub ? function::sub(a, b, s) : function::add(a, b, s), want, e, 12 * e); }
  else if (form == 1) { Tensor r = Tensor::empty(iv(p.o), options::dtype(dt)); if (sub) op::subOut(r, a, b, s); else op::addOut(r, a, b, s); expect(c, "alpha-out", r, want, e, 12 * e); }
  else { if (p.o != p.a) c.skip(); Tensor w = a.clone(); if (sub) op::subInplace(w, b, s); else op::addInplace(w, b, s); expect(c, "alpha-inplace", w, want, e, 12 * e); }
  expect(c, "alpha-left-changed", a, ra); expect(c, "alpha-right-changed", b, rb);
  c.nontrivial(); c.outcome(hashRT(want));
}
void fTernary(Ctx& c) {
  static const auto tri = [] {
    std::vector<std::array<Sh, 4>> r;
    auto ss = allShapes(0, 3, {1, 2}); for (auto& s : allShapes(1, 2, {3})) ss.push_back(s); ss.push_back({3, 1}); ss.push_back({2, 3}); ss.push_back({0});
    for (auto& a : ss) for (auto& b : ss) for (auto& d : ss) { Sh o, q; if (refBroadcast(a, b, o) && refBroadcast(o, d, q)) r.push_back({a, b, d, q}); }
    return r;
  }();
  auto& t = tri[c.pick((int)tri.size())];
  int which = c.pick(3);  // clamp, addcmul value 1, addcmul value -2
  int form = c.pick(3); DType dt = c.pick(flts); int prov = c.pick(2);
  std::vector<Tensor> keep;
  RT ra(t[0], vals(numelOf(t[0]), 1, false)), rb(t[1], vals(numelOf(t[1]), 4, false)), rc(t[2], vals(numelOf(t[2]), 7, false));
  double val = which == 2 ? -2 : 1;
  if (which == 0) { for (auto& x : rb.v) x = std::fabs(x) * -0.5; for (auto& x : rc.v) x = std::fabs(x) * 0.5; }  // min <= max
  Tensor a = mk(ra, dt, false, prov, &keep), b = mk(rb, dt, false, prov, &keep), d = mk(rc, dt, false, prov, &keep);
  c.desc("%s %s %s %s %s form %d", which ? "addcmul" : "clamp", str(t[0]).c_str(), str(t[1]).c_str(), str(t[2]).c_str(), dtName(dt), form);
  const char* n = which ? "addcmul" : "clamp"; c.site(n);
  RT want(t[3]); int64_t k = 0;
  forEach(t[3], [&](const Sh& i) {
    double x = bAt(ra, i), y = bAt(rb, i), z = bAt(rc, i);
    want.v[k++] = which ? x + val * y * z : x < y ? y : x > z ? z : x;
  });
  double e = which ? eps(dt) * 4 : 0, ab = which ? 30 * eps(dt) : 0;
  Scalar sv((float)val);
  std::string key = n;
  if (form == 0) expect(c, key, which ? op::addcmul(a, b, d, sv) : op::clamp(a, b, d), want, e, ab);
  else if (form == 1) {
    Tensor r = Tensor::empty(iv(t[3]), options::dtype(dt)); r.fill_(Scalar(0)); Tensor r2 = r.clone();
    if (which) op::addcmulOut(r, a, b, d, sv); else op::clampOut(r, a, b, d);
    expect(c, key + "Out", r, want, e, ab); expect(c, key + "Out-clone-of-output-changed", r2, RT(t[3], 0.0));
  } else {
    if (t[3] != t[0]) c.skip();
    Tensor w = a.clone(); if (which) op::addcmulInplace(w, b, d, sv); else op::clampInplace(w, b, d);
    expect(c, key + "Inplace", w, want, e, ab);
  }
  expect(c, key + "-1-changed", a, ra); expect(c, key + "-2-changed", b, rb); expect(c, key + "-3-changed", d, rc);
  c.nontrivial(); c.outcome(hashRT(want));
}
void fLogic(Ctx& c) {
  static const auto ps = pairs(allShapes(0, 3, {0, 1, 2, 3}));
  const Pair& p = ps[c.pick((int)ps.size())];
  int o = c.pick(2), form = c.pick(4), prov = c.pick(3), pat = c.pick(2);
  auto bv = [&](int64_t n, int salt) { std::vector<double> v(n); for (int64_t i = 0; i < n; i++) v[i] = ((i * 3 + salt + pat) % 5) < 2 || (i + salt + pat) % 4 == 1; return v; };
  std::vector<Tensor> keep;
  RT ra(p.a, bv(numelOf(p.a), 0)), rb(p.b, bv(numelOf(p.b), 3));
  Tensor a = mk(ra, DType::Bool, false, prov, &keep), b = mk(rb, DType::Bool, false, prov, &keep);
  const char* n = o ? "logicOr" : "logicAnd";
  c.desc("%s %s %s form %d", n, str(p.a).c_str(), str(p.b).c_str(), form); c.site(n);
  RT want = refBinary(ra, rb, [&](double x, double y) { return (double)(o ? (x || y) : (x && y)); });
  std::string key = n;
  if (form == 0) expect(c, key, o ? op::logicOr(a, b) : op::logicAnd(a, b), want);
  else if (form == 1) expect(c, key + "-operator", o ? a | b : a & b, want);
  else if (form == 2) { Tensor r = Tensor::empty(iv(p.o), options::dtype(DType::Bool)); if (o) op::logicOrOut(r, a, b); else op::logicAndOut(r, a, b); expect(c, key + "Out", r, want); }
  else { if (p.o != p.a) c.skip(); Tensor w = a.clone(); if (o) op::logicOrInplace(w, b); else op::logicAndInplace(w, b); expect(c, key + "Inplace", w, want); }
  expect(c, key + "-1-changed", a, ra); expect(c, key + "-2-changed", b, rb);
  c.nontrivial(); c.outcome(hashRT(want));
}
// special values: all pairs
void fValues(Ctx& c) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  static const std::vector<double> al = {0.0, -0.0, 1, -1, 0.5, -2, 3, inf, -inf, nan, 65504, -65504, 6.103515625e-05, 5.960464477539063e-08, 3.3895313892515355e38, 1e-38};
  const BinOp& o = binOps[c.pick((int)binOps.size())];
  DType dt = c.pick(flts);
  double x = c.pick(al), y = c.pick(al);
  bool order = !strncmp(o.name, "max", 3) || !strncmp(o.name, "min", 3) || !strncmp(o.name, "cla", 3);
  if (order && (std::isnan(x) || std::isnan(y))) c.skip();
  x = roundTo(x, dt); y = roundTo(y, dt);
  int form = c.pick(4); // scalar-scalar, vector-scalar, scalar-vector, vector-vector
  Sh sa = form & 1 ? Sh{3} : Sh{}, sb = form & 2 ? Sh{3} : Sh{};
  RT ra(sa, x), rb(sb, y);
  Tensor a = mk(ra, dt), b = mk(rb, dt);
  c.desc("%s(%g, %g) %s form %d", o.name, x, y, dtName(dt), form); c.site(o.name);
  RT want = refBinary(ra, rb, o.f);
  for (auto& v : want.v) v = roundTo(v, o.cmp ? DType::Bool : dt);
  double tiny = dt == DType::Float16 ? 6e-8 : 3e-45;
  if (dt == DType::BFloat16) tiny = 1e-40;
  expect(c, std::string(o.name) + "-special", o.out(a, b), want, o.cmp ? 0 : eps(dt), o.cmp ? 0 : tiny);
  c.nontrivial(); c.outcome(hashRT(want));
}
// 64-bit integers beyond the range of a double
void fInt64(Ctx& c) {
  static const std::vector<int64_t> al = {0, 1, -1, (1ll << 53), (1ll << 53) + 1, -(1ll << 53) - 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, (1ll << 24) + 1};
  int o = c.pick(10); int64_t x = c.pick(al), y = c.pick(al); bool vec = c.flip();
  std::vector<int64_t> xs(vec ? 3 : 1, x), ys(vec ? 3 : 1, y);
  Tensor a(xs), b(ys);
  c.desc("int64 op %d (%lld, %lld)", o, (long long)x, (long long)y); c.site("int64");
  int64_t want; Tensor r;
  switch (o) {
    case 0: r = op::maximum(a, b); want = std::max(x, y); break;
    case 1: r = op::minimum(a, b); want = std::min(x, y); break;
    case 2: r = a == b; want = x == y; break;
    case 3: r = a != b; want = x != y; break;
    case 4: r = a < b; want = x < y; break;
    case 5: r = a <= b; want = x <= y; break;
    case 6: r = a > b; want = x > y; break;
    case 7: r = a >= b; want = x >= y; break;
    case 8: r = op::clampMin(a, b); want = std::max(x, y); break;
    default: r = op::clampMax(a, b); want = std::min(x, y); break;
  }
  if (r.numel() != (int64_t)xs.size()) c.fail("int64-shape", "wrong size");
  for (int64_t i = 0; i < r.numel(); i++) {
    int64_t g = r.dtype() == DType::Bool ? (int64_t) * ((const uint8_t*)r.dataPtr<>() + i) : *((const int64_t*)r.dataPtr<>() + i);
    if (g != want) c.fail("int64", "got %lld expected %lld", (long long)g, (long long)want);
  }
  c.nontrivial(); c.outcome((uint64_t)want);
}
struct Reg { Reg() {
  add("shapes", "every broadcastable pair of shapes up to rank 4 x every operation, type, form", fShapes, 3);
  add("ranks", "rank 5 against ranks 0-5", fRanks, 2);
  add("scalar", "tensor with scalar operand of each kind, both sides", fScalar, 2);
  add("alpha", "scaled add / sub", fAlpha, 2);
  add("ternary", "every broadcastable triple: clamp, addcmul", fTernary, 2);
  add("logic", "logical and/or", fLogic, 2);
  add("values", "all pairs of special values", fValues, 3);
  add("int64", "all pairs of 64-bit integers beyond double range", fInt64, 2);
} } reg;
}  // namespace
