// T08: matmul / dot / linear over every legal combination of ranks, sizes, batch shapes and flags.
#include "refops.h"
#include "Modules.h"
using namespace mc;

namespace {
const std::vector<DType> flts = {DType::Float32, DType::Float16, DType::BFloat16};
double eps(DType t) { return t == DType::Float32 ? 2.4e-7 : t == DType::Float16 ? 9.8e-4 : 7.9e-3; }
std::vector<double> vals(int64_t n, int salt) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) v[i] = ((int)((i * 7 + salt * 5 + i * i * 3) % 17) - 8) * 0.5;
  return v;
}
void compare(Ctx& c, const char* key, const Tensor& got, RT want, DType dt, int64_t k) {
  for (auto& x : want.v) x = roundTo(x, dt);
  double ab = 0; (void)k;  // the float sum of these values is exact
  expect(c, key, got, want, dt == DType::Float32 ? 0 : eps(dt), ab);
  if (got.dtype() != dt) c.fail(std::string(key) + "-dtype", "%s", dtName(got.dtype()));
}
void mm(Ctx& c, const Sh& sa, const Sh& sb, bool ta, bool tb, DType dt, int pa, int pb) {
  std::vector<Tensor> keep;
  RT ra(sa, vals(numelOf(sa), 1)), rb(sb, vals(numelOf(sb), 2));
  Tensor a = mk(ra, dt, false, pa, &keep), b = mk(rb, dt, false, pb, &keep);
  c.desc("matmul %s%s x %s%s %s %s/%s", str(sa).c_str(), ta ? "^T" : "", str(sb).c_str(), tb ? "^T" : "", dtName(dt), provName(pa), provName(pb));
  c.site("matmul");
  RT want = refMatmul(ra, rb, ta, tb);
  int64_t k = sa.size() == 1 ? sa[0] : ta ? sa[sa.size() - 2] : sa.back();
  Tensor r = a.matmul(b, ta, tb);
  compare(c, "matmul", r, want, dt, k);
  compare(c, "matmul-op", op::matmul(a, b, ta, tb), want, dt, k);
  r.fill_(Scalar(0));
  expect(c, "matmul-left-changed", a, ra); expect(c, "matmul-right-changed", b, rb);
  if (sa.size() != 2 || sb.size() != 2 || ta || tb) c.nontrivial();
  c.outcome(hashRT(want));
}
// every m,k,n including zero, flags
void f2d(Ctx& c) {
  static const std::vector<int64_t> ext = {0, 1, 2, 3, 5};
  int64_t m = c.pick(ext), k = c.pick(ext), n = c.pick(ext);
  bool ta = c.flip(), tb = c.flip();
  int pa = c.pick(3), pb = c.pick(3);
  for (DType dt : flts) mm(c, ta ? Sh{k, m} : Sh{m, k}, tb ? Sh{n, k} : Sh{k, n}, ta, tb, dt, pa, pb);
}
void fBig(Ctx& c) {
  static const std::vector<Sh> s = {{2, 2000, 3}, {17, 9, 33}, {1, 64, 1}, {31, 1, 8}, {8, 40, 7}, {16, 16, 16}};
  Sh x = c.pick(s); bool ta = c.flip(), tb = c.flip();
  for (DType dt : flts) mm(c, ta ? Sh{x[1], x[0]} : Sh{x[0], x[1]}, tb ? Sh{x[2], x[1]} : Sh{x[1], x[2]}, ta, tb, dt, Fresh, OffsetView);
}
// vectors with vectors, matrices and batches
void fVec(Ctx& c) {
  static const auto batches = allShapes(0, 2, {1, 2, 3});
  int kind = c.pick(3);  // v*v, v*M, M*v
  int64_t k = c.pick({0, 1, 2, 4}), n = c.pick({1, 2, 3});
  bool f = c.flip(), g = c.flip();
  if (kind == 0) { for (DType dt : flts) mm(c, {k}, {k}, f, g, dt, c.pick(3), 0); return; }
  Sh b = c.pick(batches);
  bool t = f; Sh M = b;
  if (kind == 1) { M.push_back(t ? n : k); M.push_back(t ? k : n); } else { M.push_back(t ? k : n); M.push_back(t ? n : k); }
  int pa = c.pick(3);
  for (DType dt : flts) if (kind == 1) mm(c, {k}, M, g, t, dt, pa, (pa + 1) % 3); else mm(c, M, {k}, t, g, dt, pa, (pa + 1) % 3);
}
// every broadcastable pair of batch shapes
void fBatch(Ctx& c) {
  static const auto pairs = [] {
    std::vector<std::pair<Sh, Sh>> r; auto b = allShapes(0, 3, {1, 2, 3}); for (auto& s : allShapes(1, 2, {0, 1})) b.push_back(s);
    for (auto& x : b) for (auto& y : b) { Sh o; if (!(x.empty() && y.empty()) && refBroadcast(x, y, o)) r.push_back({x, y}); }
    return r;
  }();
  auto& p = pairs[c.pick((int)pairs.size())];
  static const std::vector<Sh> mkn = {{2, 3, 1}, {1, 2, 3}, {3, 1, 2}, {2, 2, 2}, {1, 1, 1}, {0, 2, 1}, {2, 0, 3}};
  Sh x = c.pick(mkn);
  bool ta = c.flip(), tb = c.flip();
  int prov = c.pick(3);
  Sh a = p.first, b = p.second;
  a.push_back(ta ? x[1] : x[0]); a.push_back(ta ? x[0] : x[1]);
  b.push_back(tb ? x[2] : x[1]); b.push_back(tb ? x[1] : x[2]);
  for (DType dt : flts) mm(c, a, b, ta, tb, dt, prov, prov == 2 ? 0 : prov);
}
void fDot(Ctx& c) {
  int64_t n = c.pick(22); if (n == 20) n = 300; if (n == 21) n = 5000; int pa = c.pick(3), pb = c.pick(3); DType dt = c.pick(flts);
  std::vector<Tensor> keep;
  RT ra({n}, vals(n, 1)), rb({n}, vals(n, 4));
  Tensor a = mk(ra, dt, false, pa, &keep), b = mk(rb, dt, false, pb, &keep);
  c.desc("dot %ld %s", (long)n, dtName(dt)); c.site("dot");
  double s = 0; for (int64_t i = 0; i < n; i++) s += ra.v[i] * rb.v[i];
  compare(c, "dot", op::dot(a, b), RT(Sh{}, {s}), dt, n);
  expect(c, "dot-left-changed", a, ra); expect(c, "dot-right-changed", b, rb);
  c.nontrivial(); c.outcome((uint64_t)(s * 4));
}
void fLinear(Ctx& c) {
  static const auto batches = allShapes(0, 3, {1, 2, 3});
  Sh b = c.pick(batches); int64_t in = c.pick({1, 2, 4}), out = c.pick({1, 2, 3}); bool bias = c.flip(); DType dt = c.pick(flts);
  int form = c.pick(3); // function, module, offset views
  Sh is = b; is.push_back(in);
  std::vector<Tensor> keep; int prov = form == 2 ? OffsetView : Fresh;
  RT rx(is, vals(numelOf(is), 1)), rw({out, in}, vals(out * in, 2)), rb({out}, vals(out, 3));
  Tensor x = mk(rx, dt, false, prov, &keep), w = mk(rw, dt, false, prov, &keep), bb = bias ? mk(rb, dt, false, prov, &keep) : Tensor();
  c.desc("linear %s -> %ld bias %d %s form %d", str(is).c_str(), (long)out, bias, dtName(dt), form); c.site("linear");
  RT want = refMatmul(rx, rw, false, true);
  if (bias) want = refBinary(want, rb, [](double p, double q) { return p + q; });
  Tensor r;
  if (form == 1) {
    nn::Linear l(in, out, bias, options::dtype(dt));
    NoGradGuard g;
    auto ps = l.parameters();
    ps[0]->copy_(w); if (bias) ps[1]->copy_(bb);
    r = l(x);
  } else r = function::linear(x, w, bb);
  compare(c, "linear", r, want, dt, in + 1);
  expect(c, "linear-input-changed", x, rx); expect(c, "linear-weight-changed", w, rw); if (bias) expect(c, "linear-bias-changed", bb, rb);
  c.nontrivial(); c.outcome(hashRT(want));
}
struct Reg { Reg() {
  add("2d", "all m,k,n in {0,1,2,3,5} x transposition flags x provenance of both operands x types", f2d, 3);
  add("sizes", "larger sizes not multiples of any block size", fBig, 2);
  add("vectors", "1-D with 1-D, 2-D and batched operands, flags", fVec, 3);
  add("batch", "every broadcastable pair of batch shapes up to rank 3 x sizes x flags", fBatch, 3);
  add("dot", "lengths 0-19", fDot, 2);
  add("linear", "input ranks 1-4, with and without bias, function and module", fLinear, 2);
} } reg;
}  // namespace
