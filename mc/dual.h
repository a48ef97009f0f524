// Forward-mode derivatives on reference tensors: every element carries its derivative with respect to every
// element of every leaf.  Independent of reverse-mode formulas.
#pragma once
#include "refops.h"

namespace mc {
struct DV {  // value, derivatives, and for each derivative the sum of the absolute products along all paths (rounding scale)
  double v = 0; std::vector<double> d, a;
  DV() = default;
  DV(double x, size_t n) : v(x), d(n, 0.0), a(n, 0.0) {}
};
struct DT {
  Sh s; std::vector<DV> e;
  RT val() const { RT r; r.s = s; for (auto& x : e) r.v.push_back(x.v); return r; }
};
inline DT dLeaf(const RT& r, size_t base, size_t n) {
  DT o; o.s = r.s;
  for (size_t i = 0; i < r.v.size(); i++) { DV x(r.v[i], n); if (base + i < n) x.d[base + i] = x.a[base + i] = 1; o.e.push_back(x); }
  return o;
}
inline DT dConst(const RT& r, size_t n) { DT o; o.s = r.s; for (double v : r.v) o.e.emplace_back(v, n); return o; }
// y = f(a): value and derivative
template <class F> DT dUnary(const DT& a, F f) {
  DT o; o.s = a.s;
  for (auto& x : a.e) { auto p = f(x.v); DV y(p.first, x.d.size()); for (size_t k = 0; k < x.d.size(); k++) { y.d[k] = p.second * x.d[k]; y.a[k] = std::fabs(p.second) * x.a[k]; } o.e.push_back(std::move(y)); }
  return o;
}
struct D3 { double v, da, db; };
template <class F> bool dBinary(const DT& a, const DT& b, DT& o, F f) {
  Sh s; if (!refBroadcast(a.s, b.s, s)) return false;
  RT ia(a.s), ib(b.s);
  for (size_t k = 0; k < ia.v.size(); k++) ia.v[k] = (double)k;
  for (size_t k = 0; k < ib.v.size(); k++) ib.v[k] = (double)k;
  o.s = s; o.e.clear();
  size_t n = a.e.empty() ? (b.e.empty() ? 0 : b.e[0].d.size()) : a.e[0].d.size();
  forEach(s, [&](const Sh& i) {
    const DV& x = a.e[(size_t)bAt(ia, i)]; const DV& y = b.e[(size_t)bAt(ib, i)];
    D3 r = f(x.v, y.v);
    DV z(r.v, n);
    for (size_t k = 0; k < n; k++) {
      z.d[k] = (x.d[k] != 0 ? r.da * x.d[k] : 0) + (y.d[k] != 0 ? r.db * y.d[k] : 0);
      z.a[k] = (x.a[k] != 0 ? std::fabs(r.da) * x.a[k] : 0) + (y.a[k] != 0 ? std::fabs(r.db) * y.a[k] : 0);
    }
    o.e.push_back(std::move(z));
  });
  return true;
}
inline DT dReindex(const DT& a, const RT& idx) { DT o; o.s = idx.s; for (double k : idx.v) o.e.push_back(a.e[(size_t)k]); return o; }
inline RT dIdx(const Sh& s) { RT r(s); for (size_t k = 0; k < r.v.size(); k++) r.v[k] = (double)k; return r; }
inline DT dSum(const DT& a, size_t n) { DT o; DV z(0, n); for (auto& x : a.e) { z.v += x.v; for (size_t k = 0; k < n; k++) { z.d[k] += x.d[k]; z.a[k] += x.a[k]; } } o.e.push_back(z); return o; }
inline DT dSoftmax(const DT& a, int64_t dim, bool lg, size_t n) {
  DT o; o.s = a.s; o.e.assign(a.e.size(), DV(0, n));
  if (a.s.empty()) return o;
  int64_t D = a.s[dim], in = 1; for (size_t k = dim + 1; k < a.s.size(); k++) in *= a.s[k];
  int64_t total = (int64_t)a.e.size();
  for (int64_t p = 0; p < total; p++) {
    if ((p / in) % D) continue;
    double m = -1e300, S = 0; for (int64_t j = 0; j < D; j++) m = std::max(m, a.e[p + j * in].v);
    for (int64_t j = 0; j < D; j++) S += std::exp(a.e[p + j * in].v - m);
    std::vector<double> mean(n, 0), ma(n, 0);  // sum_j p_j da_j
    for (int64_t j = 0; j < D; j++) { double q = std::exp(a.e[p + j * in].v - m) / S; for (size_t k = 0; k < n; k++) { mean[k] += q * a.e[p + j * in].d[k]; ma[k] += q * a.e[p + j * in].a[k]; } }
    for (int64_t j = 0; j < D; j++) {
      auto& x = a.e[p + j * in]; auto& y = o.e[p + j * in];
      double q = std::exp(x.v - m) / S;
      if (lg) { y.v = x.v - m - std::log(S); for (size_t k = 0; k < n; k++) { y.d[k] = x.d[k] - mean[k]; y.a[k] = x.a[k] + ma[k]; } }
      else { y.v = q; for (size_t k = 0; k < n; k++) { y.d[k] = q * (x.d[k] - mean[k]); y.a[k] = q * (x.a[k] + ma[k]); } }
    }
  }
  return o;
}
}  // namespace mc
