// Reference semantics of the tensor operations: written from the definitions, element by element.
#pragma once
#include "tt.h"

namespace mc {
inline int64_t normDim(int64_t d, int64_t n) { return d < 0 ? d + n : d; }

inline RT refPermute(const RT& a, const Sh& p) {
  Sh s; for (auto d : p) s.push_back(a.s[d]);
  RT o(s);
  forEach(s, [&](const Sh& i) { Sh j(i.size()); for (size_t k = 0; k < i.size(); k++) j[p[k]] = i[k]; o.at(i) = a.at(j); });
  return o;
}
inline RT refTranspose(const RT& a, int64_t d0, int64_t d1) {
  Sh p; for (int64_t i = 0; i < a.dim(); i++) p.push_back(i);
  std::swap(p[d0], p[d1]);
  return refPermute(a, p);
}
// false: impossible request
inline bool refReshape(const RT& a, const Sh& t, RT& o) {
  int64_t k = 1; int inf = -1;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == -1) { if (inf >= 0) return false; inf = (int)i; }
    else if (t[i] < 0) return false;
    else k *= t[i];
  }
  Sh s = t;
  if (inf >= 0) { if (k == 0 || a.numel() % k) return false; s[inf] = a.numel() / k; }
  else if (k != a.numel()) return false;
  o = RT(s, a.v);
  return true;
}
inline RT refNarrow(const RT& a, int64_t dim, int64_t start, int64_t len) {
  Sh s = a.s; s[dim] = len;
  RT o(s);
  forEach(s, [&](const Sh& i) { Sh j = i; j[dim] += start; o.at(i) = a.at(j); });
  return o;
}
inline RT refIndex(const RT& a, const Sh& idx) {
  Sh s(a.s.begin() + idx.size(), a.s.end());
  RT o(s);
  int64_t off = 0; auto st = a.strides();
  for (size_t k = 0; k < idx.size(); k++) off += normDim(idx[k], a.s[k]) * st[k];
  for (int64_t i = 0; i < o.numel(); i++) o.v[i] = a.v[off + i];
  return o;
}
inline RT refConcat(const std::vector<RT>& ts, int64_t dim) {
  Sh s = ts[0].s; s[dim] = 0;
  for (auto& t : ts) s[dim] += t.s[dim];
  RT o(s);
  int64_t base = 0;
  for (auto& t : ts) {
    forEach(t.s, [&](const Sh& i) { Sh j = i; j[dim] += base; o.at(j) = t.at(i); });
    base += t.s[dim];
  }
  return o;
}
inline RT refUnsq(const RT& a, int64_t d) { Sh s = a.s; s.insert(s.begin() + d, 1); return RT(s, a.v); }
inline RT refStack(const std::vector<RT>& ts, int64_t dim) {
  std::vector<RT> u; for (auto& t : ts) u.push_back(refUnsq(t, dim));
  return refConcat(u, dim);
}
inline bool refBroadcast(const Sh& a, const Sh& b, Sh& o) {
  size_t n = std::max(a.size(), b.size());
  o.assign(n, 1);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i < n - a.size() ? 1 : a[i - (n - a.size())], y = i < n - b.size() ? 1 : b[i - (n - b.size())];
    if (x != y && x != 1 && y != 1) return false;
    o[i] = x == 1 ? y : x;
  }
  return true;
}
inline double bAt(const RT& a, const Sh& i) {  // element of a broadcast to an index of a shape of at least its rank
  int64_t o = 0; auto st = a.strides(); size_t off = i.size() - a.s.size();
  for (size_t k = 0; k < a.s.size(); k++) o += (a.s[k] == 1 ? 0 : i[k + off]) * st[k];
  return a.v[o];
}
template <class F> RT refBinary(const RT& a, const RT& b, F f) {
  Sh s; refBroadcast(a.s, b.s, s);
  RT o(s);
  int64_t k = 0;
  forEach(s, [&](const Sh& i) { o.v[k++] = f(bAt(a, i), bAt(b, i)); });
  return o;
}
inline RT refExpand(const RT& a, const Sh& s) {
  RT o(s); int64_t k = 0;
  forEach(s, [&](const Sh& i) { o.v[k++] = bAt(a, i); });
  return o;
}
// sum a down to shape s (inverse of broadcasting)
inline RT refSumTo(const RT& a, const Sh& s) {
  RT o(s);
  size_t off = a.s.size() - s.size();
  forEach(a.s, [&](const Sh& i) { Sh j(s.size()); for (size_t k = 0; k < s.size(); k++) j[k] = s[k] == 1 ? 0 : i[k + off]; o.at(j) += a.at(i); });
  return o;
}
// groups of flat offsets reduced together: out index -> list of flat input offsets in row-major order
inline Sh reducedShape(const Sh& s, const std::vector<bool>& red, bool keep) {
  Sh o; for (size_t i = 0; i < s.size(); i++) if (!red[i]) o.push_back(s[i]); else if (keep) o.push_back(1);
  return o;
}
template <class F> RT refReduce(const RT& a, const std::vector<bool>& red, bool keep, F f) {
  Sh ks = reducedShape(a.s, red, true);
  RT ko(ks);
  std::vector<std::vector<double>> g(ko.numel());
  auto st = ko.strides();
  int64_t k = 0;
  forEach(a.s, [&](const Sh& i) { int64_t o = 0; for (size_t d = 0; d < i.size(); d++) if (!red[d]) o += i[d] * st[d]; g[o].push_back(a.v[k++]); });
  for (size_t i = 0; i < g.size(); i++) ko.v[i] = f(g[i]);
  return RT(reducedShape(a.s, red, keep), ko.v);
}
inline RT refMatmul(RT a, RT b, bool ta = false, bool tb = false) {
  bool pa = false, pb = false;
  if (a.dim() == 1) { a.s = {1, a.s[0]}; pa = true; } else if (ta) a = refTranspose(a, a.dim() - 2, a.dim() - 1);
  if (b.dim() == 1) { b.s = {b.s[0], 1}; pb = true; } else if (tb) b = refTranspose(b, b.dim() - 2, b.dim() - 1);
  int64_t m = a.s[a.dim() - 2], k = a.s[a.dim() - 1], n = b.s[b.dim() - 1];
  Sh ba(a.s.begin(), a.s.end() - 2), bb(b.s.begin(), b.s.end() - 2), bo;
  refBroadcast(ba, bb, bo);
  Sh os = bo; os.push_back(m); os.push_back(n);
  RT o(os);
  forEach(os, [&](const Sh& i) {
    double s = 0; size_t r = i.size();
    for (int64_t x = 0; x < k; x++) {
      Sh ia(i.begin() + (r - a.s.size()), i.end()), ib(i.begin() + (r - b.s.size()), i.end());
      for (size_t d = 0; d + 2 < ia.size(); d++) if (a.s[d] == 1) ia[d] = 0;
      for (size_t d = 0; d + 2 < ib.size(); d++) if (b.s[d] == 1) ib[d] = 0;
      ia[ia.size() - 1] = x; ib[ib.size() - 2] = x;
      s += a.at(ia) * b.at(ib);
    }
    o.at(i) = s;
  });
  Sh fs = bo; if (!pa) fs.push_back(m); if (!pb) fs.push_back(n);
  return RT(fs, o.v);
}
}  // namespace mc
