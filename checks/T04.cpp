// T04: slicing, indexing, joining, masking - every small shape and argument against element definitions.
#include "refops.h"
using namespace mc;

namespace {
struct Combo { DType dt; int prov; };
const std::vector<Combo> combosAll = {{DType::Float32, OffsetView}, {DType::Int64, Fresh}, {DType::Bool, OffsetView}, {DType::Float16, CloneShared},
                                      {DType::BFloat16, OffsetView}, {DType::Int32, OffsetView}, {DType::Float32, Fresh}};
const std::vector<Combo> combosTwo = {{DType::Float32, OffsetView}, {DType::Int64, CloneShared}};
std::vector<double> vals(int64_t n, DType dt, double start = 1) { auto v = ramp(n, start); if (dt == DType::Bool) for (auto& x : v) x = ((int64_t)x * 5 % 7) % 2; return v; }

struct In {
  Tensor t; RT r; std::vector<Tensor> keep; std::vector<std::vector<double>> kv;
};
In input(Ctx& c, const Sh& s, const Combo& k, double start = 1) {
  In in; in.r = RT(s, vals(numelOf(s), k.dt, start));
  in.t = mk(in.r, k.dt, false, k.prov, &in.keep);
  for (auto& t : in.keep) in.kv.push_back(rawValues(t));
  c.desc("input %s %s %s", str(s).c_str(), dtName(k.dt), provName(k.prov));
  return in;
}
void unchanged(Ctx& c, const std::string& key, const In& in, bool self = true) {
  if (self) expect(c, key + "-input-changed", in.t, in.r);
  for (size_t i = 0; i < in.keep.size(); i++)
    if (rawValues(in.keep[i]) != in.kv[i]) c.fail(key + "-parent-changed", "the tensor the input was derived from changed: %s", str(rawValues(in.keep[i])).c_str());
}
void res(Ctx& c, const char* key, const Tensor& o, const RT& w, const In& in) {
  expect(c, key, o, w);
  if (o.dtype() != in.t.dtype()) c.fail(std::string(key) + "-dtype", "element type changed");
  unchanged(c, key, in);
  c.outcome(hashRT(w)); if (w.numel()) c.nontrivial();
}
const std::vector<Sh>& shapes3() { static const auto s = allShapes(1, 3, {1, 2, 3}); return s; }
const std::vector<Sh>& shapes4() { static const auto s = allShapes(1, 4, {1, 2, 3}); return s; }
Tensor idxTensor(const Sh& s, const std::vector<int64_t>& v, int prov = Fresh, std::vector<Tensor>* keep = nullptr) {
  std::vector<double> d(v.begin(), v.end()); return mk(s, d, DType::Int64, false, prov, keep);
}

void fIndex(Ctx& c) {
  Sh s = c.pick(shapes4()); Combo k = c.pick(s.size() <= 3 ? combosAll : combosTwo);
  int len = 1 + c.pick((int)s.size());
  Sh idx; for (int i = 0; i < len; i++) idx.push_back(c.pick(2 * (int)s[i]) - s[i]);
  bool put = c.flip();
  In in = input(c, s, k); c.desc("%s %s", put ? "indexPut" : "index", str(idx).c_str());
  RT sub = refIndex(in.r, idx);
  if (!put) {
    c.site("index"); Tensor o = op::index(in.t, iv(idx)); res(c, "index", o, sub, in);
    // an index of an index is an index
    if (sub.dim() >= 1) { Tensor o2 = op::index(o, iv(Sh{-1})); expect(c, "index-of-index", o2, refIndex(sub, {-1})); }
  } else {
    bool scalar = c.flip();
    std::vector<double> nv; for (int64_t i = 0; i < sub.numel(); i++) nv.push_back(k.dt == DType::Bool ? (scalar ? 1 : i % 2) : scalar ? 50 : 50 + i);
    Tensor val = scalar ? mk(Sh{}, {nv[0]}, k.dt) : mk(sub.s.empty() ? Sh{1} : sub.s, nv, k.dt, false, OffsetView);
    RT w = in.r; int64_t off = 0; auto st = w.strides();
    for (int i = 0; i < len; i++) off += normDim(idx[i], s[i]) * st[i];
    for (size_t i = 0; i < nv.size(); i++) w.v[off + i] = nv[i];
    c.site("indexPut"); op::indexPut(in.t, iv(idx), val);
    expect(c, "indexPut", in.t, w); unchanged(c, "indexPut", in, false); c.nontrivial(); c.outcome(hashRT(w));
  }
}
void fAdvance(Ctx& c) {
  static const std::vector<Sh> shapes = {{3}, {1}, {2, 3}, {3, 1}, {2, 2, 2}, {2, 3, 2}, {3, 2, 1}};
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int len = 1 + c.pick((int)s.size());
  static const std::vector<Sh> ish = {{1}, {2}, {3}, {2, 2}};
  Sh is = c.pick(ish); int64_t m = numelOf(is);
  if (m * len > 6 && !c.thorough()) c.skip();
  if (m * len > 8) c.skip();
  std::vector<std::vector<int64_t>> iv2(len);
  for (int i = 0; i < len; i++) for (int64_t j = 0; j < m; j++) { int n = (int)s[i]; iv2[i].push_back(m * len <= 3 ? c.pick(2 * n) - n : c.pick(n) - ((j + i) % 2 ? n : 0)); }
  int mode = c.pick(3);  // get, put tensor, put scalar
  In in = input(c, s, k); c.desc("indexAdvance mode %d index shape %s", mode, str(is).c_str());
  for (auto& x : iv2) { std::string t; for (auto y : x) t += std::to_string(y) + ","; c.desc("(%s)", t.c_str()); }
  std::vector<Tensor> its; for (auto& x : iv2) its.push_back(idxTensor(is, x, OffsetView));
  int64_t inner = 1; for (size_t i = len; i < s.size(); i++) inner *= s[i];
  auto st = in.r.strides();
  std::vector<int64_t> offs; for (int64_t j = 0; j < m; j++) { int64_t o = 0; for (int i = 0; i < len; i++) o += normDim(iv2[i][j], s[i]) * st[i]; offs.push_back(o); }
  if (mode == 0) {
    Sh os = is; os.insert(os.end(), s.begin() + len, s.end());
    RT w(os); for (int64_t j = 0; j < m; j++) for (int64_t q = 0; q < inner; q++) w.v[j * inner + q] = in.r.v[offs[j] + q];
    c.site("indexAdvance"); Tensor o = op::indexAdvance(in.t, ArrayView<Tensor>(its)); res(c, "indexAdvance", o, w, in);
  } else {
    RT w = in.r; std::vector<double> nv;
    for (int64_t j = 0; j < m; j++) for (int64_t q = 0; q < inner; q++) { double x = k.dt == DType::Bool ? (mode == 2 ? 1 : (j + q) % 2) : mode == 2 ? 60 : 60 + j * inner + q; nv.push_back(x); w.v[offs[j] + q] = x; }
    Tensor val = mode == 2 ? mk(Sh{}, {nv[0]}, k.dt) : mk(Sh{(int64_t)nv.size()}, nv, k.dt);
    c.site("indexPutAdvance"); op::indexPutAdvance(in.t, ArrayView<Tensor>(its), val);
    expect(c, "indexPutAdvance", in.t, w); unchanged(c, "indexPutAdvance", in, false); c.nontrivial(); c.outcome(hashRT(w));
  }
}
void fNarrow(Ctx& c) {
  Sh s = c.pick(shapes4()); Combo k = c.pick(s.size() <= 3 ? combosAll : combosTwo);
  int64_t n = s.size(), d = c.pick(2 * (int)n) - n, nd = normDim(d, n);
  int64_t st = c.pick(2 * (int)s[nd]) - s[nd]; int64_t ns = st < 0 ? st + s[nd] : st;
  int64_t len = c.pick((int)(s[nd] - ns) + 1);
  In in = input(c, s, k); c.desc("narrow dim %ld start %ld len %ld", (long)d, (long)st, (long)len);
  c.site("narrow"); Tensor o = in.t.narrow(d, st, len);
  res(c, "narrow", o, refNarrow(in.r, nd, ns, len), in);
}
void fSplit(Ctx& c) {
  static const auto shapes = allShapes(1, 3, {1, 2, 3, 4}); static const std::vector<Sh> longer = {{6}, {7}, {5, 2}, {2, 8}, {1, 6, 2}};
  Sh s = c.pick(2) ? c.pick(longer) : c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int64_t n = s.size(), d = c.pick(2 * (int)n) - n, nd = normDim(d, n);
  int op = c.pick(3); std::vector<int64_t> sec; int64_t arg = 0;
  if (op == 0) { arg = 1 + c.pick((int)s[nd]); if (s[nd] % arg) c.skip(); for (int64_t i = 0; i < s[nd]; i += arg) sec.push_back(arg); }
  else if (op == 1) { int64_t left = s[nd]; while (left > 0 && sec.size() < 4) { int64_t x = sec.size() == 3 ? left : c.pick((int)left + 1); sec.push_back(x); left -= x; } if (left) c.skip(); }
  else { arg = 1 + c.pick((int)s[nd] + 2); int64_t ch = std::min(arg, s[nd]), sz = (s[nd] + ch - 1) / ch; for (int64_t i = 0; i < s[nd]; i += sz) sec.push_back(std::min(sz, s[nd] - i)); }
  In in = input(c, s, k); c.desc("%s dim %ld arg %ld sections %s", op == 0 ? "split" : op == 1 ? "split-sections" : "chunk", (long)d, (long)arg, str(sec).c_str());
  const char* key = op == 0 ? "split" : op == 1 ? "split-sections" : "chunk"; c.site(key);
  std::vector<Tensor> o = op == 0 ? in.t.split(arg, d) : op == 1 ? in.t.split(iv(sec), d) : in.t.chunk(arg, d);
  if (o.size() != sec.size()) c.fail(key, "%zu pieces, expected %zu", o.size(), sec.size());
  int64_t b = 0; std::vector<RT> ws;
  for (size_t i = 0; i < o.size(); i++) { RT w = refNarrow(in.r, nd, b, sec[i]); res(c, key, o[i], w, in); ws.push_back(w); b += sec[i]; }
  // joining the pieces gives back the original
  Tensor back = function::concat(ArrayView<Tensor>(o), d);
  res(c, "concat-of-split", back, in.r, in);
}
void fConcat(Ctx& c) {
  static const auto shapes = allShapes(1, 3, {1, 2, 3});
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int64_t n = s.size(); int cnt = 1 + c.pick(3); int op = c.pick(4);
  int64_t d = op == 0 ? c.pick(2 * (int)n) - n : op == 1 ? c.pick(2 * ((int)n + 1)) - (n + 1) : 0;
  int64_t catDim = op == 0 ? normDim(d, n) : op == 2 ? (n == 1 ? 0 : 1) : 0;
  bool vary = op == 0 || op == 2 || (op == 3 && n > 1);
  std::vector<Tensor> ts; std::vector<RT> rs; std::vector<In> ins;
  for (int i = 0; i < cnt; i++) {
    Sh si = s; if (vary) si[catDim] = c.pick(4);   // including empty pieces
    ins.push_back(input(c, si, Combo{k.dt, si[0] == 0 ? (int)Fresh : (k.prov + i) % 3}, 1 + 20 * i));
    ts.push_back(ins.back().t); rs.push_back(ins.back().r);
  }
  static const char* nm[] = {"concat", "stack", "hstack", "vstack"};
  c.desc("%s dim %ld", nm[op], (long)d); c.site(nm[op]);
  RT w = op == 1 ? refStack(rs, normDim(d, n + 1)) : op == 3 && n == 1 ? refStack(rs, 0) : refConcat(rs, catDim);
  ArrayView<Tensor> v(ts);
  Tensor o = op == 0 ? function::concat(v, d) : op == 1 ? function::stack(v, d) : op == 2 ? function::hstack(v) : function::vstack(v);
  for (auto& i : ins) res(c, nm[op], o, w, i);
}
void fGather(Ctx& c) {
  static const std::vector<Sh> shapes = {{3}, {2}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {2, 1, 2}, {1, 2, 2}};
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int64_t n = s.size(), d = c.pick(2 * (int)n) - n, nd = normDim(d, n);
  Sh is = s;  // index shape: equal or smaller on other dims, any length on dim
  for (int64_t i = 0; i < n; i++) is[i] = i == nd ? 1 + c.pick(2) : 1 + c.pick((int)s[i]);
  if (numelOf(is) > (c.thorough() ? 6 : 4)) c.skip();
  std::vector<int64_t> ix; for (int64_t i = 0; i < numelOf(is); i++) ix.push_back(numelOf(is) <= 3 ? c.pick(2 * (int)s[nd]) - s[nd] : c.pick((int)s[nd]) - (i % 2 ? s[nd] : 0));
  int op = c.pick(3);
  In in = input(c, s, k); c.desc("%s dim %ld index %s %s", op == 0 ? "gather" : op == 1 ? "scatter" : "scatter_", (long)d, str(is).c_str(), str(ix).c_str());
  Tensor it = idxTensor(is, ix, OffsetView);
  if (op == 0) {
    RT w(is); int64_t q = 0;
    forEach(is, [&](const Sh& i) { Sh j = i; j[nd] = normDim(ix[q], s[nd]); w.v[q++] = in.r.at(j); });
    c.site("gather"); res(c, "gather", function::gather(in.t, d, it), w, in);
  } else {
    RT src(is, vals(numelOf(is), k.dt, 60)), w = in.r; int64_t q = 0;
    forEach(is, [&](const Sh& i) { Sh j = i; j[nd] = normDim(ix[q], s[nd]); w.at(j) = src.v[q++]; });
    Tensor st = mk(src, k.dt, false, OffsetView);
    c.site("scatter");
    if (op == 1) res(c, "scatter", function::scatter(in.t, d, it, st), w, in);
    else { in.t.scatter_(d, it, st); expect(c, "scatter_", in.t, w); unchanged(c, "scatter_", in, false); c.nontrivial(); c.outcome(hashRT(w)); }
    expect(c, "scatter-src-changed", st, src);
  }
}
void fSelect(Ctx& c) {
  Sh s = c.pick(shapes3()); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int64_t n = s.size(), d = c.pick(2 * (int)n) - n, nd = normDim(d, n);
  int len = c.pick(4); std::vector<int64_t> ix; for (int i = 0; i < len; i++) ix.push_back(c.pick((int)s[nd]));
  In in = input(c, s, k); c.desc("indexSelect dim %ld %s", (long)d, str(ix).c_str());
  Sh os = s; os[nd] = len; RT w(os);
  forEach(os, [&](const Sh& i) { Sh j = i; j[nd] = ix[i[nd]]; w.at(i) = in.r.at(j); });
  c.site("indexSelect"); res(c, "indexSelect", function::indexSelect(in.t, d, idxTensor(Sh{len}, ix, len ? OffsetView : Fresh)), w, in);
}
void fExpand(Ctx& c) {
  static const auto shapes = allShapes(0, 3, {1, 2, 3});
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int extra = c.pick(3); Sh req, os;
  for (int i = 0; i < extra; i++) { int x = 1 + c.pick(3); req.push_back(x); os.push_back(x); }
  for (auto x : s) { int ch = c.pick(x == 1 ? 4 : 2); int64_t r = ch == 0 ? -1 : x == 1 ? ch : x; req.push_back(r); os.push_back(r == -1 ? x : r); }
  In in = input(c, s, k); c.desc("expand %s", str(req).c_str());
  c.site("expand"); Tensor o = function::expand(in.t, iv(req));
  res(c, "expand", o, refExpand(in.r, os), in);
}
void fRepeat(Ctx& c) {
  Sh s = c.pick(shapes4()); Combo k = c.pick(s.size() <= 3 ? combosAll : combosTwo);
  int64_t n = s.size(), d = c.pick(2 * (int)n) - n, nd = normDim(d, n), r = 1 + c.pick(3);
  In in = input(c, s, k); c.desc("repeatInterleave %ld dim %ld", (long)r, (long)d);
  Sh os = s; os[nd] *= r; RT w(os);
  forEach(os, [&](const Sh& i) { Sh j = i; j[nd] /= r; w.at(i) = in.r.at(j); });
  c.site("repeatInterleave"); res(c, "repeatInterleave", function::repeatInterleave(in.t, r, d), w, in);
}
void fTri(Ctx& c) {
  static const auto shapes = allShapes(2, 4, {1, 2, 3, 4}); static const std::vector<Sh> large = {{17, 9}, {9, 17}, {2, 33, 33}};
  Sh s = c.pick(2) ? c.pick(large) : c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  if (numelOf(s) > 250 && (k.dt == DType::Float16 || k.dt == DType::BFloat16)) c.skip();
  int64_t dg = c.pick(11) - 5; bool lower = c.flip();
  In in = input(c, s, k); c.desc("%s %ld", lower ? "tril" : "triu", (long)dg);
  RT w = in.r; size_t n = s.size();
  forEach(s, [&](const Sh& i) { bool keep = lower ? i[n - 1] <= i[n - 2] + dg : i[n - 1] >= i[n - 2] + dg; if (!keep) w.at(i) = 0; });
  c.site("tril"); res(c, lower ? "tril" : "triu", lower ? in.t.tril(dg) : in.t.triu(dg), w, in);
}
// programs: every sequence of slicing operations, each feeding the next
void fChain(Ctx& c) {
  static const std::vector<Sh> shapes = {{4}, {3, 2}, {2, 3}, {2, 2, 3}, {3, 1, 2}};
  Sh s = c.pick(shapes); Combo k = c.pick(combosTwo);
  In in = input(c, s, k);
  std::vector<Tensor> ts{in.t}; std::vector<RT> rs{in.r};
  int depth = c.thorough() ? 4 : 3; static const char* nm[] = {"narrow0", "narrow-1", "index", "chunk", "concat-self", "indexSelect", "indexAdvance", "repeat", "gather", "expand", "stack", "indexPut-on-clone"};
  for (int q = 0; q < depth; q++) {
    Tensor t = ts.back(), o; RT r = rs.back(), w; int64_t n = r.dim();
    int op = c.pick(12);
    if (n < 1 && op != 9 && op != 10) c.skip();
    if (n > 4 || r.numel() > 200) c.skip();
    c.desc("-> %s", nm[op]); c.site(nm[op]);
    if (op == 0) { if (r.s[0] < 2) c.skip(); o = t.narrow(0, 1, r.s[0] - 1); w = refNarrow(r, 0, 1, r.s[0] - 1); }
    else if (op == 1) { if (r.s[n - 1] < 2) c.skip(); o = t.narrow(-1, -2, 2); w = refNarrow(r, n - 1, r.s[n - 1] - 2, 2); }
    else if (op == 2) { o = op::index(t, iv(Sh{-1})); w = refIndex(r, {-1}); }
    else if (op == 3) { auto v = t.chunk(2, 0); o = v.back(); int64_t sz = (r.s[0] + std::min<int64_t>(2, r.s[0]) - 1) / std::min<int64_t>(2, r.s[0]); w = r.s[0] > 1 ? refNarrow(r, 0, sz, r.s[0] - sz) : r; }
    else if (op == 4) { std::vector<Tensor> v{t, ts[0]}; if (shapeOf(ts[0]).size() != (size_t)n) c.skip(); for (int64_t i = 1; i < n; i++) if (rs[0].s[i] != r.s[i]) c.skip(); o = function::concat(ArrayView<Tensor>(v), 0); w = refConcat({r, rs[0]}, 0); }
    else if (op == 5) { std::vector<int64_t> ix{r.s[0] - 1, 0}; o = function::indexSelect(t, 0, idxTensor(Sh{2}, ix)); w = refConcat({refNarrow(r, 0, r.s[0] - 1, 1), refNarrow(r, 0, 0, 1)}, 0); }
    else if (op == 6) { std::vector<Tensor> ix{idxTensor(Sh{2}, {-1, 0})}; o = op::indexAdvance(t, ArrayView<Tensor>(ix)); w = refConcat({refNarrow(r, 0, r.s[0] - 1, 1), refNarrow(r, 0, 0, 1)}, 0); }
    else if (op == 7) { o = function::repeatInterleave(t, 2, -1); Sh os = r.s; os[n - 1] *= 2; w = RT(os); forEach(os, [&](const Sh& i) { Sh j = i; j[n - 1] /= 2; w.at(i) = r.at(j); }); }
    else if (op == 8) { Sh is = r.s; is[0] = 1; std::vector<int64_t> ix(numelOf(is), -1); o = function::gather(t, 0, idxTensor(is, ix)); w = refNarrow(r, 0, r.s[0] - 1, 1); }
    else if (op == 9) { Sh e = r.s; e.insert(e.begin(), 2); o = function::expand(t, iv(e)); w = refExpand(r, e); }
    else if (op == 10) { std::vector<Tensor> v{t, t}; o = function::stack(ArrayView<Tensor>(v), -1); w = refStack({r, r}, n); }
    else { o = t.clone(); Tensor val = mk(Sh{}, {90.0}, k.dt); op::indexPut(o, iv(Sh{0}), val); w = r; int64_t row = r.s[0] ? r.numel() / r.s[0] : 0; for (int64_t i = 0; i < row; i++) w.v[i] = 90; }
    expect(c, std::string("chain-") + nm[op], o, w);
    ts.push_back(o); rs.push_back(w); c.transition(); c.state(hashRT(w));
  }
  for (size_t i = 0; i < ts.size(); i++) expect(c, "chain-earlier-result-changed", ts[i], rs[i]);
  unchanged(c, "chain", in); c.nontrivial(); c.outcome(hashRT(rs.back()));
}
struct Reg {
  Reg() {
    add("index", "index / index assignment (scalar and tensor values): every shape up to rank 4, every index prefix incl. negative", fIndex, 3);
    add("advance", "advanced indexing and assignment with index tensors: every index value combination for 1-6 index entries", fAdvance, 4);
    add("narrow", "narrow: every shape up to rank 4, dim, start, length (negative spellings included)", fNarrow, 3);
    add("split", "split by size, by every section list, chunk by every count; pieces concatenated back", fSplit, 3);
    add("concat", "concat/stack/hstack/vstack of 1-3 tensors of differing extents (0 included) along every dim", fConcat, 4);
    add("gather", "gather/scatter/scatter_ for every index assignment on small index shapes", fGather, 4);
    add("select", "index select: every index list of length 0-3", fSelect, 3);
    add("expand", "expand: every compatible target incl. -1 and added leading dims", fExpand, 3);
    add("repeat", "repeat-interleave: every shape, dim, count 1-3", fRepeat);
    add("tri", "tril/triu: every shape rank 2-4 (extents 1-4, plus larger), every diagonal -5..5", fTri, 3);
    add("chain", "every chain of 3 (4 thorough) slicing/joining operations; all intermediates re-read at the end", fChain, 3);
  }
} reg;
}  // namespace
