// Reference tensors and comparison helpers for checks that drive the tensor library.
#pragma once
#include <algorithm>
#include <limits>
#include <sstream>

#include "mc.h"
#include "Functions.h"
#include "Operations.h"
#include "Tensor.h"
#include "Tensor/CachedAllocator.h"

namespace mc {
using namespace tinytorch;
typedef std::vector<int64_t> Sh;

// reference tensor: shape + values in double (int64 values used here all fit)
struct RT {
  Sh s;
  std::vector<double> v;
  int64_t dim() const { return (int64_t)s.size(); }
  int64_t numel() const { int64_t n = 1; for (auto d : s) n *= d; return n; }
  RT() = default;
  explicit RT(Sh sh, double fill = 0) : s(std::move(sh)) { v.assign(numel(), fill); }
  RT(Sh sh, std::vector<double> vals) : s(std::move(sh)), v(std::move(vals)) {}
  Sh strides() const { Sh st(s.size()); int64_t k = 1; for (int i = (int)s.size() - 1; i >= 0; i--) { st[i] = k; k *= s[i]; } return st; }
  double& at(const Sh& i) { int64_t o = 0; auto st = strides(); for (size_t k = 0; k < i.size(); k++) o += i[k] * st[k]; return v[o]; }
  double at(const Sh& i) const { return const_cast<RT*>(this)->at(i); }
};
inline int64_t numelOf(const Sh& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// next multi-index in row-major order; false after the last
inline bool step(Sh& i, const Sh& s) {
  for (int k = (int)s.size() - 1; k >= 0; k--) { if (++i[k] < s[k]) return true; i[k] = 0; }
  return false;
}
template <class F> void forEach(const Sh& s, F f) {
  if (numelOf(s) == 0) return;
  Sh i(s.size(), 0);
  do f(i); while (step(i, s));
}
inline std::string str(const Sh& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]);
  return o + "]";
}
inline std::string str(IntArrayView a) { return str(Sh(a.begin(), a.end())); }
inline std::string str(const std::vector<double>& v, size_t lim = 24) {
  std::ostringstream o; o.precision(9); o << "{";
  for (size_t i = 0; i < v.size() && i < lim; i++) o << (i ? "," : "") << v[i];
  if (v.size() > lim) o << ",...";
  o << "}";
  return o.str();
}
inline const char* dtName(DType t) {
  switch (t) {
    case DType::Float32: return "f32"; case DType::Float16: return "f16"; case DType::BFloat16: return "bf16";
    case DType::Int32: return "i32"; case DType::Int64: return "i64"; case DType::Bool: return "bool"; default: return "?";
  }
}
inline Sh shapeOf(const Tensor& t) { auto a = t.shape(); return Sh(a.begin(), a.end()); }

// raw element access independent of the conversion code under test
inline float bitsToFloat(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline uint32_t floatBits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline double halfToD(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023; double s = h & 0x8000 ? -1 : 1;
  if (e == 31) return m ? std::numeric_limits<double>::quiet_NaN() : s * std::numeric_limits<double>::infinity();
  if (e == 0) return s * std::ldexp((double)m, -24);
  return s * std::ldexp(1024.0 + m, e - 25);
}
inline double bf16ToD(uint16_t h) { return bitsToFloat((uint32_t)h << 16); }
// correctly rounded (nearest even) double -> half/bfloat16 bits
inline uint16_t roundSmall(double d, int mbits, int emin, int emax, uint16_t infBits, uint16_t nanBits) {
  uint16_t sg = std::signbit(d) ? 0x8000 : 0;
  if (std::isnan(d)) return sg | nanBits;
  double a = std::fabs(d);
  if (a == 0) return sg;
  if (std::isinf(a)) return sg | infBits;
  int e; std::frexp(a, &e); e -= 1;             // a in [2^e, 2^(e+1))
  int q = std::max(e, emin) - mbits;            // quantum exponent
  double r = std::nearbyint(std::ldexp(a, -q)); // round to nearest even (default mode)
  double x = std::ldexp(r, q);
  std::frexp(x, &e); e -= 1;
  if (x == 0) return sg;
  if (e > emax) return sg | infBits;
  if (e < emin) return sg | (uint16_t)r;        // subnormal
  uint16_t mant = (uint16_t)((int64_t)std::ldexp(x, mbits - e) - (1ll << mbits));
  return sg | (uint16_t)((e - emin + 1) << mbits) | mant;
}
inline uint16_t dToHalf(double d) { return roundSmall(d, 10, -14, 15, 0x7c00, 0x7e00); }
inline uint16_t dToBf16(double d) { return roundSmall(d, 7, -126, 127, 0x7f80, 0x7fc0); }
inline double roundTo(double d, DType t) {
  switch (t) {
    case DType::Float32: return (double)(float)d;
    case DType::Float16: return halfToD(dToHalf((double)(float)d));
    case DType::BFloat16: return bf16ToD(dToBf16((double)(float)d));
    default: return d;
  }
}

inline std::vector<double> rawValues(const Tensor& t) {
  std::vector<double> o((size_t)t.numel());
  const void* p = t.numel() ? t.dataPtr<>() : nullptr;
  for (size_t i = 0; i < o.size(); i++) switch (t.dtype()) {
    case DType::Float32: o[i] = ((const float*)p)[i]; break;
    case DType::Float16: o[i] = halfToD(((const uint16_t*)p)[i]); break;
    case DType::BFloat16: o[i] = bf16ToD(((const uint16_t*)p)[i]); break;
    case DType::Int32: o[i] = ((const int32_t*)p)[i]; break;
    case DType::Int64: o[i] = (double)((const int64_t*)p)[i]; break;
    case DType::Bool: o[i] = ((const uint8_t*)p)[i]; break;
    default: break;
  }
  return o;
}
inline RT rt(const Tensor& t) { return RT(shapeOf(t), rawValues(t)); }
inline IntArrayView iv(const Sh& s) { return IntArrayView(s.data(), s.size()); }

inline void rawStore(Tensor& t, const std::vector<double>& v) {
  if (t.numel() == 0) return;
  void* p = t.dataPtr<>();
  for (size_t i = 0; i < v.size(); i++) switch (t.dtype()) {
    case DType::Float32: ((float*)p)[i] = (float)v[i]; break;
    case DType::Float16: ((uint16_t*)p)[i] = dToHalf(v[i]); break;
    case DType::BFloat16: ((uint16_t*)p)[i] = dToBf16(v[i]); break;
    case DType::Int32: ((int32_t*)p)[i] = (int32_t)v[i]; break;
    case DType::Int64: ((int64_t*)p)[i] = (int64_t)v[i]; break;
    case DType::Bool: ((uint8_t*)p)[i] = v[i] != 0; break;
    default: break;
  }
}
// how the input tensor came to be: fresh storage, or a slice of a bigger tensor whose neighbours hold
// values that must never be seen
enum Prov { Fresh = 0, OffsetView = 1, CloneShared = 2, NumProv = 3 };
inline const char* provName(int p) { static const char* n[] = {"fresh", "offset-view", "cow-clone"}; return n[p]; }
constexpr double kPoison = 777;

inline Tensor mk(const Sh& s, const std::vector<double>& v, DType dt = DType::Float32, bool rg = false, int prov = Fresh,
                 std::vector<Tensor>* keep = nullptr) {
  Options o = options::dtype(dt);
  if (rg) o.requiresGrad(true);
  if (prov == OffsetView && !s.empty()) {
    Sh big = s; big[0] += 2;
    int64_t row = s[0] ? numelOf(s) / s[0] : 0;
    std::vector<double> bv;
    for (int64_t i = 0; i < row; i++) bv.push_back(kPoison);
    bv.insert(bv.end(), v.begin(), v.end());
    for (int64_t i = 0; i < row; i++) bv.push_back(kPoison);
    if (s[0] > 0) {
      Tensor b = Tensor::empty(iv(big), options::dtype(dt));
      rawStore(b, bv);
      Tensor t = b.narrow(0, 1, s[0]);
      if (keep) keep->push_back(b);
      if (rg) t.setRequiresGrad(true);
      return t;
    }
  }
  Tensor t = Tensor::empty(iv(s), o);
  rawStore(t, v);
  if (prov == CloneShared) {
    Tensor c = t.clone();
    if (keep) keep->push_back(t);
    return c;
  }
  return t;
}
inline Tensor mk(const RT& r, DType dt = DType::Float32, bool rg = false, int prov = Fresh, std::vector<Tensor>* keep = nullptr) {
  return mk(r.s, r.v, dt, rg, prov, keep);
}

inline bool sameD(double a, double b, double rel, double abs_) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
// compare a tensor with the expected shape and values
inline void expect(Ctx& c, const std::string& key, const Tensor& t, const RT& want, double rel = 0, double abs_ = 0) {
  if (!t.defined()) c.fail(key + "-undefined", "result is undefined, expected shape %s", str(want.s).c_str());
  Sh gs = shapeOf(t);
  if (gs != want.s) c.fail(key + "-shape", "shape %s, expected %s", str(gs).c_str(), str(want.s).c_str());
  if (t.numel() != want.numel()) c.fail(key + "-numel", "numel %ld, expected %ld", (long)t.numel(), (long)want.numel());
  auto got = rawValues(t);
  for (size_t i = 0; i < got.size(); i++)
    if (!sameD(got[i], want.v[i], rel, abs_))
      c.fail(key, "element %zu is %.9g, expected %.9g; got %s expected %s", i, got[i], want.v[i], str(got).c_str(), str(want.v).c_str());
}
inline uint64_t hashRT(const RT& r) {
  uint64_t h = 7;
  for (auto d : r.s) h = mix(h, (uint64_t)d + 3);
  for (auto x : r.v) { uint64_t b; memcpy(&b, &x, 8); h = mix(h, b); }
  return h;
}
// all shapes with rank in [minRank,maxRank] and extents from `ext`
inline std::vector<Sh> allShapes(int minRank, int maxRank, const std::vector<int64_t>& ext) {
  std::vector<Sh> out;
  for (int r = minRank; r <= maxRank; r++) {
    std::vector<size_t> i(r, 0);
    for (;;) {
      Sh s; for (int k = 0; k < r; k++) s.push_back(ext[i[k]]);
      out.push_back(s);
      int k = r - 1;
      while (k >= 0 && ++i[k] == ext.size()) i[k--] = 0;
      if (k < 0) break;
    }
  }
  return out;
}
inline std::vector<double> ramp(int64_t n, double start = 1, double stepv = 1) {
  std::vector<double> v(n); for (int64_t i = 0; i < n; i++) v[i] = start + stepv * i; return v;
}
// distinguishable values with mixed signs and no obvious symmetry, exactly representable in half
inline std::vector<double> jumble(int64_t n, int salt = 0) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) v[i] = ((int)((i * 37 + salt * 13 + 11) % 61) - 30) * 0.25 + 0.125;
  return v;
}
inline void plainAllocator() {
  // exact-size blocks straight from malloc, so that the address sanitizer sees every overrun
  setenv("TINYTORCH_DUMMY", "1", 1);
}
}  // namespace mc
