// T06: unary functions, fills and element-type conversion, over every 16-bit value and a dense grid of
// (thorough: all) 32-bit floats.
#include "refops.h"
using namespace mc;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};

struct Un {
  const char* name;
  double (*f)(double);
  Tensor (*out)(const Tensor&);
  void (*into)(Tensor&, const Tensor&);
  void (*inpl)(Tensor&);
  int ulps;      // allowed error in units of the last place
  double absTol; // absolute allowance for results of the scale of 1
  double lo, hi; // input range for which the definition is used
  bool nan;      // NaN inputs give NaN
};
#define O3(n) [](const Tensor& a) -> Tensor { return op::n(a); }, [](Tensor& r, const Tensor& a) { op::n##Out(r, a); }, [](Tensor& a) { op::n##Inplace(a); }
double geluRef(double a) { double t = 0.7978845608028654 * (a + 0.044715 * a * a * a); return a < -12 ? 0 : 0.5 * a * (1 + std::tanh(t)); }
const double INF = std::numeric_limits<double>::infinity();
const std::vector<Un> uns = {
  {"abs", [](double a) { return std::fabs(a); }, O3(abs), 0, 0, -INF, INF, true},
  {"neg", [](double a) { return -a; }, O3(neg), 0, 0, -INF, INF, true},
  {"sign", [](double a) { return a > 0 ? 1.0 : a < 0 ? -1.0 : 0.0; }, O3(sign), 0, 0, -INF, INF, false},
  {"sqrt", [](double a) { return std::sqrt(a); }, O3(sqrt), 1, 0, -INF, INF, true},
  {"square", [](double a) { return a * a; }, O3(square), 1, 0, -INF, INF, true},
  {"exp", [](double a) { return std::exp(a); }, O3(exp), 2, 0, -INF, INF, true},
  {"log", [](double a) { return std::log(a); }, O3(log), 2, 0, -INF, INF, true},
  {"sin", [](double a) { return std::sin(a); }, O3(sin), 2, 0, -1e30, 1e30, true},
  {"cos", [](double a) { return std::cos(a); }, O3(cos), 2, 0, -1e30, 1e30, true},
  {"sigmoid", [](double a) { return 1 / (1 + std::exp(-a)); }, O3(sigmoid), 8, 0, -80, INF, true},
  {"tanh", [](double a) { return std::tanh(a); }, O3(tanh), 3, 0, -INF, INF, true},
  {"relu", [](double a) { return a > 0 ? a : 0.0; }, O3(relu), 0, 0, -INF, INF, false},
  {"gelu", geluRef, O3(gelu), 8, 1e-6, -1e12, 1e12, true},
  {"silu", [](double a) { return a / (1 + std::exp(-a)); }, O3(silu), 8, 0, -80, 3e38, true},
};
double ulpOf(double v, DType t) {
  int mant = t == DType::Float32 ? 23 : t == DType::Float16 ? 10 : 7, emin = t == DType::Float16 ? -14 : -126;
  double a = std::fabs(v);
  if (std::isinf(a) || std::isnan(a)) return 0;
  int e; std::frexp(a, &e); e--;
  if (a == 0) e = emin;
  return std::ldexp(1.0, std::max(e, emin) - mant);
}
double maxOf(DType t) { return t == DType::Float16 ? 65504 : t == DType::Float32 ? 3.4028234663852886e38 : 3.3895313892515355e38; }
bool near(const Un& u, double x, double got, DType t) {
  if (std::isnan(x)) return u.nan ? std::isnan(got) : true;
  if (!(x >= u.lo && x <= u.hi)) return true;
  double w = u.f(x);
  if (std::isnan(w)) return std::isnan(got);
  double m = maxOf(t);
  if (std::isinf(got)) return std::fabs(w) > m * (1 - 1e-3) && std::signbit(w) == std::signbit(got);
  if (std::isnan(got)) return false;
  if (std::isinf(w) ) return got == w || (std::fabs(got) == m);
  double r = roundTo(w, t);
  if (std::isinf(r)) return false || std::fabs(got) >= m * (1 - 1e-2);
  // a half-ulp for the final rounding plus the stated allowance of the float computation
  double fu = ulpOf(w, DType::Float32);
  double tol = (u.ulps + 0.0) * fu + u.absTol * std::min(1.0, std::fabs(x));
  if (t != DType::Float32) tol += 0.5 * ulpOf(w, t) * 1.01; else tol += 0.5 * fu;
  if (u.ulps == 0 && u.absTol == 0) return got == r;
  if (std::fabs(got - w) <= tol) return true;
  // results below the smallest normal number
  return std::fabs(w) < 1.2e-38 && std::fabs(got - w) <= 1.5e-45 * 4;
}
void runUn(Ctx& c, const Un& u, Tensor& t, const std::vector<double>& x, DType dt) {
  c.site(u.name);
  auto bits0 = rawValues(t);
  Tensor a = u.out(t);
  Tensor b = Tensor::empty(t.shape(), options::dtype(dt)); b.fill_(Scalar(0));
  Tensor b2 = b.clone();
  u.into(b, t);
  Tensor w = t.clone(); u.inpl(w);
  if (a.dtype() != dt) c.fail(std::string(u.name) + "-dtype", "element type changed");
  if (shapeOf(a) != shapeOf(t)) c.fail(std::string(u.name) + "-shape", "shape changed");
  auto va = rawValues(a), vb = rawValues(b), vw = rawValues(w), v2 = rawValues(b2);
  auto bits1 = rawValues(t);
  for (size_t i = 0; i < x.size(); i++) {
    if (!near(u, x[i], va[i], dt)) c.fail(u.name, "%s(%.9g) = %.9g in %s, expected %.9g", u.name, x[i], va[i], dtName(dt), u.f(x[i]));
    if (!sameD(va[i], vb[i], 0, 0)) c.fail(std::string(u.name) + "Out", "at %.9g: %.9g, out-of-place %.9g", x[i], vb[i], va[i]);
    if (!sameD(va[i], vw[i], 0, 0)) c.fail(std::string(u.name) + "Inplace", "at %.9g: %.9g, out-of-place %.9g", x[i], vw[i], va[i]);
    if (v2[i] != 0) c.fail(std::string(u.name) + "Out-clone-of-output-changed", "a clone of the output tensor was changed");
    if (!sameD(bits0[i], bits1[i], 0, 0)) c.fail(std::string(u.name) + "-input-changed", "input changed");
  }
}
void fUn16(Ctx& c) {  // every 16-bit value
  int blk = c.pick(64); DType dt = c.pick({DType::Float16, DType::BFloat16}); const Un& u = uns[c.pick((int)uns.size())];
  std::vector<double> x(1024);
  Tensor t = Tensor::empty(iv({1024}), options::dtype(dt));
  for (int i = 0; i < 1024; i++) { uint16_t b = (uint16_t)(blk * 1024 + i); ((uint16_t*)t.dataPtr<>())[i] = b; x[i] = dt == DType::Float16 ? halfToD(b) : bf16ToD(b); }
  c.desc("%s %s bits %04x..", u.name, dtName(dt), blk * 1024);
  runUn(c, u, t, x, dt);
  c.executions(1023); c.nontrivial(); c.outcome(mix(blk, u.name[0]));
}
void fUn32(Ctx& c) {  // grid of 32-bit values: every sign and exponent x mantissa grid
  int e = c.pick(512); const Un& u = uns[c.pick((int)uns.size())];
  int n = c.thorough() ? 4096 : 256;
  std::vector<double> x(n);
  Tensor t = Tensor::empty(iv({n}));
  for (int i = 0; i < n; i++) {
    uint32_t m = (uint32_t)((uint64_t)i * (1u << 23) / n);
    if (i % 3 == 1) m |= 0x2a5; if (i % 3 == 2) m |= 0x7f; if (i == n - 1) m = 0x7fffff; if (i == 1) m = 1;
    uint32_t b = ((uint32_t)e << 23) | m;
    if ((e & 255) == 255 && i == 1) b = ((uint32_t)e << 23) | 0x400001;
    float f = bitsToFloat(b); ((float*)t.dataPtr<>())[i] = f; x[i] = f;
  }
  c.desc("%s f32 exponent field %d", u.name, e);
  runUn(c, u, t, x, DType::Float32);
  c.executions(n - 1); c.nontrivial(); c.outcome(mix(e, u.name[0]));
}
// shapes and provenance for the unary operations
void fUnShape(Ctx& c) {
  static const auto ss = allShapes(0, 4, {0, 1, 2, 3});
  Sh s = c.pick(ss); const Un& u = uns[c.pick((int)uns.size())]; int prov = c.pick(3); DType dt = c.pick(flts);
  std::vector<Tensor> keep;
  auto v = jumble(numelOf(s), 3);
  Tensor t = mk(s, v, dt, false, prov, &keep);
  c.desc("%s %s %s %s", u.name, str(s).c_str(), dtName(dt), provName(prov));
  for (auto& x : v) x = roundTo(x, dt);
  runUn(c, u, t, v, dt);
  for (auto& k : keep) for (double x : rawValues(k)) if (std::isnan(x)) c.fail("parent-changed", "parent changed");
  if (numelOf(s) > 1) c.nontrivial();
}
void fNot(Ctx& c) {
  static const auto ss = allShapes(0, 3, {0, 1, 2, 3});
  Sh s = c.pick(ss); int prov = c.pick(3), form = c.pick(4), ph = c.pick(3);
  std::vector<double> v(numelOf(s)); for (size_t i = 0; i < v.size(); i++) v[i] = (i * 7 + ph) % 3 == 0;
  Tensor t = mk(s, v, DType::Bool, false, prov);
  RT want(s, v); for (auto& x : want.v) x = !x;
  c.desc("logicNot %s form %d", str(s).c_str(), form); c.site("logicNot");
  if (form == 0) expect(c, "logicNot", op::logicNot(t), want);
  else if (form == 1) expect(c, "operator~", ~t, want);
  else if (form == 2) { Tensor r = Tensor::empty(iv(s), options::dtype(DType::Bool)); r.fill_(Scalar(0)); Tensor r2 = r.clone(); op::logicNotOut(r, t); expect(c, "logicNotOut", r, want); expect(c, "logicNotOut-clone-changed", r2, RT(s, 0.0)); }
  else { Tensor w = t.clone(); op::logicNotInplace(w); expect(c, "logicNotInplace", w, want); }
  expect(c, "logicNot-input-changed", t, RT(s, v));
  c.nontrivial();
}
// conversions -------------------------------------------------------------------------------
bool isNanBits(uint16_t b, DType t) { return t == DType::Float16 ? (b & 0x7fff) > 0x7c00 : (b & 0x7fff) > 0x7f80; }
void fFrom16(Ctx& c) {
  int blk = c.pick(64); DType dt = c.pick({DType::Float16, DType::BFloat16}); DType to = c.pick({DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool});
  Tensor t = Tensor::empty(iv({1024}), options::dtype(dt));
  std::vector<double> x(1024); std::vector<uint16_t> bits(1024);
  for (int i = 0; i < 1024; i++) {
    uint16_t b = (uint16_t)(blk * 1024 + i);
    double d = dt == DType::Float16 ? halfToD(b) : bf16ToD(b);
    if ((to == DType::Int32 && !(std::fabs(d) < 2147483648.0)) || (to == DType::Int64 && !(std::fabs(d) < 9.2e18))) { b = 0; d = 0; }
    ((uint16_t*)t.dataPtr<>())[i] = bits[i] = b; x[i] = d;
  }
  c.desc("%s -> %s bits %04x..", dtName(dt), dtName(to), blk * 1024); c.site("to");
  Tensor r = t.to(to);
  if (r.dtype() != to) c.fail("to-dtype", "wrong element type");
  auto v = rawValues(r);
  for (int i = 0; i < 1024; i++) {
    double w = to == DType::Bool ? (double)(x[i] != 0) : to == DType::Int32 || to == DType::Int64 ? std::trunc(x[i]) : roundTo(x[i], to);
    if (to == DType::Bool && std::isnan(x[i])) w = 1;
    if (!sameD(v[i], w, 0, 0)) c.fail(std::string("to-") + dtName(to), "%s %04x = %.9g -> %.9g, expected %.9g", dtName(dt), bits[i], x[i], v[i], w);
    if (to <= DType::BFloat16 && std::signbit(v[i]) != std::signbit(w) && !std::isnan(w)) c.fail(std::string("to-sign-") + dtName(to), "sign of zero lost for %04x", bits[i]);
  }
  if (to == DType::Float32) {
    Tensor back = r.to(dt);
    for (int i = 0; i < 1024; i++) {
      uint16_t g = ((const uint16_t*)back.dataPtr<>())[i];
      if (isNanBits(bits[i], dt) ? !isNanBits(g, dt) : g != bits[i]) c.fail("round-trip", "%s %04x became %04x via f32", dtName(dt), bits[i], g);
    }
  }
  c.executions(1023); c.nontrivial(); c.outcome(mix(blk, (int)to));
}
uint16_t refHalf(uint32_t b) {  // integer-only round to nearest even
  uint32_t s = (b >> 16) & 0x8000, e = (b >> 23) & 255, m = b & 0x7fffff;
  if (e == 255) return (uint16_t)(s | 0x7c00 | (m ? 0x200 : 0));
  int E = (int)e - 127 + 15;
  if (E >= 31) return (uint16_t)(s | 0x7c00);
  uint32_t full = e ? m | 0x800000 : m; int sh = E > 0 ? 13 : 14 - E;
  if (sh > 24) return (uint16_t)s;  // below half of the smallest subnormal (2^-25 exactly ties to even = 0)
  if (!e) return (uint16_t)s;
  uint32_t q = full >> sh, rem = full & ((1u << sh) - 1), half = 1u << (sh - 1);
  if (rem > half || (rem == half && (q & 1))) q++;
  if (E > 0) q += (uint32_t)(E - 1) << 10;  // implicit bit carries into the exponent
  return (uint16_t)(s | q);
}
uint16_t refBf(uint32_t b) {
  if ((b & 0x7fffffff) > 0x7f800000) return 0x7fc0;
  uint32_t q = b >> 16, rem = b & 0xffff;
  if (rem > 0x8000 || (rem == 0x8000 && (q & 1))) q++;
  return (uint16_t)q;
}
void f32to16(Ctx& c) {
  DType dt = c.pick({DType::Float16, DType::BFloat16});
  int hi = c.pick(4096);  // sign, exponent, top 3 mantissa bits
  const int N = 1 << 13; Tensor t = Tensor::empty(iv({N}));
  uint32_t* p = (uint32_t*)t.dataPtr<>();
  // quick: all 2^13 values of the next bits with the lowest 7 bits from a pattern; thorough: every value
  int reps = c.thorough() ? 128 : 4; static const int pat[] = {0, 1, 64, 127};
  c.desc("f32 -> %s top bits %03x", dtName(dt), hi);
  c.site("to");
  for (int r = 0; r < reps; r++) {
    uint32_t low = c.thorough() ? r : pat[r];
    for (int i = 0; i < N; i++) p[i] = ((uint32_t)hi << 20) | ((uint32_t)i << 7) | low;
    Tensor o = t.to(dt);
    const uint16_t* g = (const uint16_t*)o.dataPtr<>();
    for (int i = 0; i < N; i++) {
      uint16_t w = dt == DType::Float16 ? refHalf(p[i]) : refBf(p[i]);
      if (g[i] != w && !(isNanBits(w, dt) && isNanBits(g[i], dt))) c.fail(std::string("round-") + dtName(dt), "float bits %08x -> %04x, expected %04x", p[i], g[i], w);
    }
  }
  c.executions((uint64_t)N * reps - 1); c.nontrivial(); c.outcome(mix(hi, (int)dt));
}
void fConv(Ctx& c) {  // all pairs of types over an alphabet of values
  static const std::vector<DType> all = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
  static const std::vector<double> al = {0, 1, -1, 2, 0.5, -0.5, 1.5, 2.5, -2.75, 100, 255, 256, 257, 1e-5, -1e-5, 0.999, 127, 128, -128, 65504, 1000.5, 16777216, 2147483520.0, -2147483648.0, 1e15};
  DType from = c.pick(all), to = c.pick(all); int prov = c.pick(3); int rg = c.pick(2);
  std::vector<double> v;
  for (double x : al) {
    double y = from == DType::Bool ? (double)(x != 0) : from == DType::Int32 || from == DType::Int64 ? std::trunc(x) : roundTo(x, from);
    if (std::isinf(y)) continue;
    if (from == DType::Int32 && std::fabs(y) > 2147483648.0) continue;
    if (to == DType::Int32 && (y >= 2147483648.0 || y < -2147483648.0)) continue;
    v.push_back(y);
  }
  Sh s = {(int64_t)v.size()};
  bool rgOk = rg && (from == DType::Float32);
  Tensor t = mk(s, v, from, rgOk, prov);
  c.desc("%s -> %s %s", dtName(from), dtName(to), provName(prov)); c.site("to");
  if (rgOk && to != DType::Float32) c.skip();
  Tensor r = t.to(to);
  if (r.dtype() != to) c.fail("to-dtype", "wrong element type");
  RT want(s, v);
  for (auto& x : want.v) x = to == DType::Bool ? (double)(x != 0) : to == DType::Int32 || to == DType::Int64 ? std::trunc(x) : roundTo(x, to);
  expect(c, std::string("to-") + dtName(to), r, want);
  expect(c, "to-input-changed", t, RT(s, v));
  if (to == DType::Bool) for (int64_t i = 0; i < r.numel(); i++) if (((const uint8_t*)r.dataPtr<>())[i] > 1) c.fail("to-bool", "a boolean element holds %d", ((const uint8_t*)r.dataPtr<>())[i]);
  c.nontrivial(); c.outcome(hashRT(want));
}
// fills ------------------------------------------------------------------------------------
void fFill(Ctx& c) {
  static const std::vector<DType> all = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
  static const auto ss = allShapes(0, 4, {0, 1, 2, 3});
  Sh s = c.pick(ss); DType dt = c.pick(all); int how = c.pick(8); int sk = how >= 3 && how != 7 ? c.pick(8) : 0;
  static const Scalar sc[] = {Scalar(0.0f), Scalar(1.0f), Scalar(2.5f), Scalar(-3.0f), Scalar((int32_t)7), Scalar((int64_t)-9), Scalar(true), Scalar(0.25f)};
  static const double sv[] = {0, 1, 2.5, -3, 7, -9, 1, 0.25};
  double val = how == 0 ? 0 : how == 1 || how == 7 ? 1 : how == 2 ? 0 : sv[sk];
  double w = dt == DType::Bool ? (double)(val != 0) : dt == DType::Int32 || dt == DType::Int64 ? std::trunc(val) : roundTo(val, dt);
  Options o = options::dtype(dt);
  c.desc("fill %d %s %s %g", how, str(s).c_str(), dtName(dt), val); c.site("fill");
  Tensor like = Tensor::zeros(iv(s), o);
  Tensor r;
  switch (how) {
    case 0: r = Tensor::zeros(iv(s), o); break;
    case 1: r = Tensor::ones(iv(s), o); break;
    case 2: r = Tensor::zerosLike(like); break;
    case 3: r = Tensor::full(iv(s), sc[sk], o); break;
    case 4: r = Tensor::fullLike(like, sc[sk]); break;
    case 5: r = Tensor::empty(iv(s), o); r.fill_(sc[sk]); break;
    case 6: if (!s.empty()) c.skip(); r = Tensor::scalar(sc[sk], o); break;
    case 7: r = Tensor::onesLike(like); break;
  }
  if (r.dtype() != dt) c.fail("fill-dtype", "element type");
  expect(c, "fill", r, RT(s, w));
  if (dt == DType::Bool) for (int64_t i = 0; i < r.numel(); i++) if (((const uint8_t*)r.dataPtr<>())[i] > 1) c.fail("fill-bool", "a boolean element holds %d", ((const uint8_t*)r.dataPtr<>())[i]);
  if (r.requiresGrad()) c.fail("fill-grad", "unexpected gradient flag");
  if (numelOf(s) > 1) c.nontrivial();
  c.outcome(hashRT(RT(s, w)));
}
// what the caller asks for in the options, or leaves to the default, is what the tensor has
void fOptions(Ctx& c) {
  static const std::vector<DType> all = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
  static const std::vector<Sh> ss = {{}, {3}, {2, 0}, {2, 3}};
  Sh s = c.pick(ss); DType def = c.pick(all), want = def; int how = c.pick(9), maker = c.pick(7); DType ask = c.pick(all);
  bool grad = false;
  bool fp = def == DType::Float32 || def == DType::Float16 || def == DType::BFloat16;
  setDefaultDType(def);
  Options o;
  switch (how) {
    case 0: break;
    case 1: o = options::dtype(ask); want = ask; break;
    case 2: o = options::requiresGrad(); grad = true; break;
    case 3: o = options::requiresGrad(false); break;
    case 4: o = options::device(DeviceType::CPU); break;
    case 5: o = options::device(Device::cpu()).dtype(ask); want = ask; break;
    case 6: o = Options().dtype(ask).requiresGrad(false).device(Device::cpu()); want = ask; break;
    case 7: o = Options(Device::cpu(), ask, false); want = ask; break;
    case 8: o = Options(Device::cpu(), ask, true).noGrad(); want = ask; break;
  }
  bool fpw = want == DType::Float32 || want == DType::Float16 || want == DType::BFloat16;
  if ((grad && !fp) || (maker == 5 && !fpw) || (how < 1 && ask != DType::Float32) || (how > 1 && how < 5 && ask != DType::Float32)) { setDefaultDType(DType::Float32); c.skip(); }
  c.desc("default type %s, options form %d asking for %s, maker %d, %s", dtName(def), how, dtName(ask), maker, str(s).c_str()); c.site("options");
  Tensor t;
  switch (maker) {
    case 0: t = Tensor::zeros(iv(s), o); break;
    case 1: t = Tensor::ones(iv(s), o); break;
    case 2: t = Tensor::full(iv(s), Scalar(1.0f), o); break;
    case 3: t = Tensor::empty(iv(s), o); break;
    case 4: t = Tensor(iv(s), o); t.fill_(Scalar(2)); break;
    case 5: t = Tensor::rand(iv(s), o); break;
    case 6: t = Tensor::scalar(Scalar(1.0f), o); s = {}; break;
  }
  Tensor like = Tensor::zerosLike(t), copy = t.clone();
  setDefaultDType(DType::Float32);
  for (auto* x : {&t, &like, &copy}) {
    const char* n = x == &t ? "made" : x == &like ? "like" : "copy";
    if (x->dtype() != want) c.fail(std::string(n) + "-type", "element type %s, asked for %s", dtName(x->dtype()), dtName(want));
    if (!(x->device() == Device::cpu())) c.fail(std::string(n) + "-device", "another device");
    if (shapeOf(*x) != s) c.fail(std::string(n) + "-shape", "shape %s", str(shapeOf(*x)).c_str());
    if (x->numel() && x->nbytes() != x->numel() * (int64_t)dtypeSize(want)) c.fail(std::string(n) + "-bytes", "%ld bytes for %ld elements", (long)x->nbytes(), (long)x->numel());
  }
  if (t.requiresGrad() != grad) c.fail("made-grad", "requiresGrad is %d, asked for %d", t.requiresGrad(), grad);
  if (fpw && maker != 3) t.check();   // finite: must not stop the program
  c.nontrivial(); c.outcome(mix((uint64_t)want, (uint64_t)how * 7 + maker));
}
void fMask(Ctx& c) {
  static const std::vector<DType> all = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
  static const std::vector<Sh> ss = {{}, {1}, {0}, {3}, {2, 2}, {2, 3}, {1, 2, 2}, {3, 1, 2}, {2, 3, 1}};
  Sh s = c.pick(ss); int64_t n = numelOf(s); int m = c.pick(1 << n); DType dt = c.pick(all); int form = c.pick(4), prov = c.pick(3);
  double val = c.pick({0.0, 1.0, -2.0});
  std::vector<double> mv(n), xv(n); for (int i = 0; i < n; i++) { mv[i] = m >> i & 1; xv[i] = dt == DType::Bool ? i % 2 : i + 3; }
  std::vector<Tensor> keep;
  Tensor t = mk(s, xv, dt, false, prov, &keep), mask = mk(s, mv, DType::Bool, false, prov, &keep);
  double w = dt == DType::Bool ? (double)(val != 0) : val;
  RT want(s, xv); for (int i = 0; i < n; i++) if (mv[i]) want.v[i] = w;
  c.desc("masked fill %s %s mask %x form %d", str(s).c_str(), dtName(dt), m, form); c.site("fillMasked");
  Scalar sv((float)val);
  if (form == 0) expect(c, "fillMasked", op::fillMasked(t, mask, sv), want);
  else if (form == 1) { Tensor r = Tensor::zeros(iv(s), options::dtype(dt)); Tensor r2 = r.clone(); op::fillMaskedOut(r, t, mask, sv); expect(c, "fillMaskedOut", r, want); expect(c, "fillMaskedOut-clone-changed", r2, RT(s, 0.0)); }
  else if (form == 2) { Tensor k = t.clone(); k.fillMasked_(mask, sv); expect(c, "fillMasked_", k, want); }
  else { Tensor k = t.clone(); op::fillMaskedInplace(k, mask, sv); expect(c, "fillMaskedInplace", k, want); }
  expect(c, "fillMasked-input-changed", t, RT(s, xv)); expect(c, "fillMasked-mask-changed", mask, RT(s, mv));
  c.nontrivial(); c.outcome(hashRT(want));
}
template <class T> void arangeCase(Ctx& c, T a, T b, T st, bool dflt) {
  c.site("arange");
  Tensor r = dflt ? Tensor::arange<T>(a, b) : Tensor::arange<T>(a, b, st);
  double n = std::ceil(((double)b - (double)a) / (double)st);
  RT want({(int64_t)n});
  for (int64_t i = 0; i < want.numel(); i++) want.v[i] = (double)a + (double)i * (double)st;
  if (r.dtype() != TypeToDType_v<T>) c.fail("arange-dtype", "element type");
  expect(c, std::is_integral_v<T> ? "arange-int" : "arange", r, want, 1e-6, 1e-6);
  if (want.numel() > 1) c.nontrivial();
  c.outcome(hashRT(want));
}
void fArange(Ctx& c) {
  int ty = c.pick(3);
  if (ty < 2) {
    int a = c.pick(13) - 4, n = c.pick(12), st = c.pick(9) - 4; if (st == 0) c.skip();
    bool dflt = st == 1 && c.flip();
    int b = a + (st > 0 ? n : -n);
    c.desc("arange int %d..%d step %d", a, b, st);
    if (ty == 0) arangeCase<int64_t>(c, a, b, st, dflt); else arangeCase<int32_t>(c, a, b, st, dflt);
  } else {
    float a = c.pick({0.f, -1.f, 2.5f, 10.f}), st = c.pick({1.f, 0.5f, 2.f, 0.25f, -1.f, -0.75f, 3.f}); int n = c.pick(20); float fr = c.pick({0.f, 0.25f});
    float b = a + (n + (n ? fr : 0)) * st * 0.5f;
    c.desc("arange float %g..%g step %g", a, b, st);
    arangeCase<float>(c, a, b, st, false);
  }
}
void fLinspace(Ctx& c) {
  static const std::vector<double> al = {0, 1, -1, 10, -3.5, 0.125, 100};
  double a = c.pick(al), b = c.pick(al); int n = c.pick(24) + 1; int ty = c.pick(4);
  c.desc("linspace %g..%g %d type %d", a, b, n, ty); c.site("linspace");
  RT want({n});
  for (int i = 0; i < n; i++) want.v[i] = n == 1 ? a : a + (b - a) * i / (n - 1);
  double sc = std::max(std::fabs(a), std::fabs(b));
  if (ty == 0) expect(c, "linspace", Tensor::linspace<float>(a, b, n), want, 0, 4e-7 * sc * 4);
  else if (ty == 1) {
    int64_t ia = (int64_t)a, ib = (int64_t)b;
    bool div = n == 1 || (ib - ia) % (n - 1) == 0;
    for (int i = 0; i < n; i++) want.v[i] = n == 1 ? ia : (double)((ib - ia) * i / (n - 1)) + ia;
    if (n > 1) for (int i = 0; i < n; i++) want.v[i] = std::trunc(ia + (double)(ib - ia) * i / (n - 1));
    expect(c, div ? "linspace-int" : "linspace-int-uneven", Tensor::linspace<int64_t>(ia, ib, n), want);
  } else {
    DType dt = ty == 2 ? DType::Float16 : DType::BFloat16;
    Tensor r = ty == 2 ? Tensor::linspace<Half>(Half((float)a), Half((float)b), n) : Tensor::linspace<BFloat16>(BFloat16((float)a), BFloat16((float)b), n);
    if (r.dtype() != dt) c.fail("linspace-dtype", "element type");
    expect(c, "linspace16", r, want, 0, (ty == 2 ? 1e-3 : 8e-3) * sc * 4);
  }
  if (n > 1) c.nontrivial();
  c.outcome(hashRT(want));
}
struct Reg { Reg() {
  add("unary16", "every unary operation on all 65536 half and all 65536 bfloat16 bit patterns; plain, into-output and in-place forms", fUn16);
  add("unary32", "every unary operation on a grid of float bit patterns: every sign and exponent x mantissa grid", fUn32);
  add("unary-shape", "every shape up to rank 4 x operation x provenance", fUnShape);
  add("not", "logical not", fNot);
  add("from16", "all half and bfloat16 bit patterns to every type and back", fFrom16);
  add("to16", "float bit patterns to half and bfloat16: all 2^32 (thorough), all upper 25 bits x 4 low patterns (quick)", f32to16);
  add("convert", "all pairs of element types over an alphabet", fConv);
  add("fill", "every constructor and fill x shape x type x scalar kind", fFill);
  add("options", "every default type x form of options x requested type x maker: type, device, gradient flag and size are those asked for", fOptions);
  add("masked", "every mask over small shapes", fMask);
  add("arange", "start x length x step", fArange);
  add("linspace", "start x end x count", fLinspace);
} } reg;
}  // namespace
