// T03: shape operations and views, every small shape and argument, against element-by-element definitions.
#include "refops.h"
using namespace mc;

namespace {
struct Combo { DType dt; int prov; };
const std::vector<Combo> combosAll = {{DType::Float32, Fresh}, {DType::Float32, OffsetView}, {DType::Int64, OffsetView}, {DType::Bool, CloneShared},
                                      {DType::Float16, OffsetView}, {DType::BFloat16, Fresh}, {DType::Int32, CloneShared}};
const std::vector<Combo> combosTwo = {{DType::Float32, OffsetView}, {DType::Int64, Fresh}};

std::vector<double> vals(int64_t n, DType dt) { auto v = ramp(n); if (dt == DType::Bool) for (auto& x : v) x = ((int64_t)x * 5 % 7) % 2; return v; }

struct In { Tensor t; RT r; std::vector<Tensor> keep; };
In input(Ctx& c, const Sh& s, const Combo& k) {
  In in; in.r = RT(s, vals(numelOf(s), k.dt));
  in.t = mk(in.r, k.dt, false, k.prov, &in.keep);
  c.desc("input %s %s %s", str(s).c_str(), dtName(k.dt), provName(k.prov));
  return in;
}
void contiguous(Ctx& c, const char* key, const Tensor& t) {
  auto st = RT(shapeOf(t)).strides();
  for (size_t i = 0; i < st.size(); i++) if (t.stride(i) != st[i]) c.fail(std::string(key) + "-stride", "stride %zu is %ld, expected %ld", i, (long)t.stride(i), (long)st[i]);
}
// out-of-place and in-place form of one operation
void both(Ctx& c, const char* key, In& in, const RT& want, const std::function<Tensor(const Tensor&)>& out, const std::function<void(Tensor&)>& inpl) {
  c.site(key);
  Tensor r = out(in.t);
  expect(c, key, r, want); contiguous(c, key, r);
  if (r.dtype() != in.t.dtype()) c.fail(std::string(key) + "-dtype", "element type changed");
  expect(c, std::string(key) + "-input-changed", in.t, in.r);
  if (inpl) {
    Tensor w = in.t.clone();
    inpl(w);
    expect(c, std::string(key) + "_", w, want); contiguous(c, key, w);
    expect(c, std::string(key) + "_-source-changed", in.t, in.r);
  }
  for (auto& k : in.keep) { auto v = rawValues(k); for (double x : v) if (std::isnan(x)) c.fail(key, "parent changed"); }
  c.outcome(hashRT(want));
  if (want.numel() > 1 && want.s != in.r.s) c.nontrivial();
}

void fReshape(Ctx& c) {
  static const auto shapes = allShapes(0, 4, {1, 2, 3}); static const auto zshapes = allShapes(1, 3, {0, 2, 3});
  int which = c.pick(2);
  Sh s = which ? c.pick(zshapes) : c.pick(shapes);
  std::vector<Combo> cs = s.size() <= 2 ? combosAll : combosTwo;
  Combo k = c.pick(cs);
  static const std::vector<int64_t> ent = {-1, 1, 2, 3, 4, 6, 0, -2, 9, 12};
  int rank = c.pick(5);
  if (rank == 4 && s.size() >= 2 && k.dt != DType::Float32 && !c.thorough()) c.skip();
  Sh t; for (int i = 0; i < rank; i++) t.push_back(ent[c.pick(c.thorough() || (s.size() <= 2 && rank < 4) ? 10 : rank < 4 ? 8 : 6)]);
  
  In in = input(c, s, k);
  c.desc("reshape to %s", str(t).c_str());
  RT want;
  bool okr = refReshape(in.r, t, want);
  if (!okr) want = in.r;
  const char* key = okr ? "reshape" : "reshape-impossible";
  both(c, key, in, want, [&](const Tensor& x) { return x.reshape(iv(t)); }, [&](Tensor& x) { x.reshape_(iv(t)); });
  if (okr) { Tensor v = in.t.view(iv(t)); expect(c, "view", v, want); }
}
void fFlatten(Ctx& c) {
  static const auto shapes = allShapes(0, 4, {0, 1, 2, 3});
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 3 ? combosAll : combosTwo);
  int64_t n = (int64_t)s.size();
  int64_t a = 0, b = -1; bool dflt = c.flip();
  if (!dflt && n) { a = c.pick(2 * (int)n) - n; b = c.pick(2 * (int)n) - n; }
  else if (!dflt) { a = c.pick(2) - 1; b = c.pick(2) - 1; }
  int64_t na = normDim(a, std::max<int64_t>(n, 1)), nb = normDim(b, std::max<int64_t>(n, 1));
  if (na > nb) c.skip();
  In in = input(c, s, k);
  c.desc("flatten %ld..%ld", (long)a, (long)b);
  Sh o;
  if (n == 0) o = {1};
  else {
    int64_t m = 1;
    for (int64_t i = 0; i < na; i++) o.push_back(s[i]);
    for (int64_t i = na; i <= nb; i++) m *= s[i];
    o.push_back(m);
    for (int64_t i = nb + 1; i < n; i++) o.push_back(s[i]);
  }
  both(c, "flatten", in, RT(o, in.r.v), [&](const Tensor& x) { return dflt ? x.flatten() : x.flatten(a, b); }, [&](Tensor& x) { dflt ? x.flatten_() : x.flatten_(a, b); });
}
void fUnflatten(Ctx& c) {
  static const auto shapes = allShapes(1, 3, {1, 2, 4, 6});
  Sh s = c.pick(shapes); Combo k = c.pick(s.size() <= 2 ? combosAll : combosTwo);
  int64_t n = (int64_t)s.size();
  int64_t d = c.pick(2 * (int)n) - n;
  static const std::vector<int64_t> ent = {-1, 1, 2, 3, 6, 0};
  int rank = 1 + c.pick(3);
  Sh t; for (int i = 0; i < rank; i++) t.push_back(ent[c.pick((int)ent.size())]);
  In in = input(c, s, k);
  c.desc("unflatten dim %ld into %s", (long)d, str(t).c_str());
  int64_t nd = normDim(d, n);
  RT part(Sh{s[nd]}), o;
  bool okr = refReshape(part, t, o);
  RT want = in.r;
  if (okr) { Sh ns(s.begin(), s.begin() + nd); ns.insert(ns.end(), o.s.begin(), o.s.end()); ns.insert(ns.end(), s.begin() + nd + 1, s.end()); want = RT(ns, in.r.v); }
  both(c, okr ? "unflatten" : "unflatten-impossible", in, want, [&](const Tensor& x) { return x.unflatten(d, iv(t)); }, [&](Tensor& x) { x.unflatten_(d, iv(t)); });
}
void fSqueeze(Ctx& c) {
  static const auto shapes = allShapes(0, 4, {1, 2, 0}); static const auto big = allShapes(5, 6, {1, 2});
  int hi = c.pick(2);
  Sh s = hi ? c.pick(big) : c.pick(shapes); Combo k = c.pick(hi ? combosTwo : combosAll);
  int64_t n = (int64_t)s.size();
  int op = c.pick(4);
  if (op == 0 && n) {
    int64_t d = c.pick(2 * (int)n) - n; In in = input(c, s, k); c.desc("squeeze %ld", (long)d);
    int64_t nd = normDim(d, n); Sh o = s; if (o[nd] == 1) o.erase(o.begin() + nd);
    both(c, "squeeze", in, RT(o, in.r.v), [&](const Tensor& x) { return x.squeeze(d); }, [&](Tensor& x) { x.squeeze_(d); });
  } else if (op == 1) {
    Sh dims; for (int64_t i = 0; i < n; i++) { int m = c.pick(3); if (m == 1) dims.push_back(i); if (m == 2) dims.push_back(i - n); if (hi && m == 2) c.skip(); }
    In in = input(c, s, k); c.desc("squeeze dims %s", str(dims).c_str());
    Sh o; for (int64_t i = 0; i < n; i++) { bool in1 = dims.empty(); for (auto d : dims) in1 |= normDim(d, n) == i; if (!(in1 && s[i] == 1)) o.push_back(s[i]); }
    both(c, "squeeze-dims", in, RT(o, in.r.v), [&](const Tensor& x) { return x.squeeze(iv(dims)); }, [&](Tensor& x) { x.squeeze_(iv(dims)); });
  } else if (op == 2) {
    int64_t d = c.pick(2 * ((int)n + 1)) - (n + 1); In in = input(c, s, k); c.desc("unsqueeze %ld", (long)d);
    both(c, "unsqueeze", in, refUnsq(in.r, normDim(d, n + 1)), [&](const Tensor& x) { return x.unsqueeze(d); }, [&](Tensor& x) { x.unsqueeze_(d); });
  } else if (op == 3) {
    // impossible requests
    int64_t d = c.pick(2) ? n + 2 : -(n + 2); In in = input(c, s, k); c.desc("unsqueeze impossible %ld", (long)d);
    both(c, "unsqueeze-impossible", in, in.r, [&](const Tensor& x) { return x.unsqueeze(d); }, [&](Tensor& x) { x.unsqueeze_(d); });
  } else c.skip();
}
void fPermute(Ctx& c) {
  static const auto shapes = allShapes(1, 4, {1, 2, 3}); static const auto z = allShapes(1, 3, {0, 2}); static const auto big = allShapes(5, 6, {1, 2});
  int cls = c.pick(3);
  Sh s = cls == 0 ? c.pick(shapes) : cls == 1 ? c.pick(z) : c.pick(big);
  int64_t n = (int64_t)s.size();
  if (n == 6 && !c.thorough()) c.skip();
  Combo k = c.pick(n <= 3 ? combosAll : combosTwo);
  Sh p, left; for (int64_t i = 0; i < n; i++) left.push_back(i);
  for (int64_t i = 0; i < n; i++) { int j = c.pick((int)left.size()); p.push_back(left[j]); left.erase(left.begin() + j); }
  int neg = c.pick(n <= 3 ? 1 << n : 3);  // which entries are written as negative dims
  Sh pp = p;
  for (int64_t i = 0; i < n; i++) if (n <= 3 ? (neg >> i & 1) : neg == 1 ? true : neg == 2 ? i % 2 : false) pp[i] -= n;
  In in = input(c, s, k); c.desc("permute %s", str(pp).c_str());
  RT want = refPermute(in.r, p);
  both(c, "permute", in, want, [&](const Tensor& x) { return x.permute(iv(pp)); }, [&](Tensor& x) { x.permute_(iv(pp)); });
  bool rev = true; for (int64_t i = 0; i < n; i++) rev &= p[i] == n - 1 - i;
  if (rev) both(c, "permute-all", in, want, [&](const Tensor& x) { return x.permute(); }, [&](Tensor& x) { x.permute_(); });
}
void fTranspose(Ctx& c) {
  static const auto shapes = allShapes(1, 4, {0, 1, 2, 3}); static const auto big = allShapes(5, 5, {1, 2});
  static const std::vector<Sh> large = {{17, 33}, {64, 65}, {1, 70}, {70, 1}, {2, 31, 3, 9}, {128, 3}, {3, 1025}, {7, 8, 9, 2}, {32, 32}, {100, 100}};
  int cls = c.pick(3);
  Sh s = cls == 0 ? c.pick(shapes) : cls == 1 ? c.pick(big) : c.pick(large);
  int64_t n = (int64_t)s.size();
  Combo k = c.pick(n <= 3 ? combosAll : combosTwo);
  int64_t a = c.pick(2 * (int)n) - n, b = c.pick(2 * (int)n) - n;
  In in = input(c, s, k); if (k.dt == DType::Float16 || k.dt == DType::BFloat16) if (numelOf(s) > 250) c.skip();
  c.desc("transpose %ld %ld", (long)a, (long)b);
  RT want = refTranspose(in.r, normDim(a, n), normDim(b, n));
  both(c, "transpose", in, want, [&](const Tensor& x) { return x.transpose(a, b); }, [&](Tensor& x) { x.transpose_(a, b); });
  if (n == 2 && a == 0 && b == 1) both(c, "t", in, want, [&](const Tensor& x) { return x.t(); }, [&](Tensor& x) { x.t_(); });
}
// chains of view-producing operations: the result of one is the input of the next, all intermediate
// results are re-read at the end (none may have moved under the others)
void fChain(Ctx& c) {
  static const std::vector<Sh> shapes = {{4}, {2, 3}, {3, 2}, {1, 4}, {4, 1, 2}, {2, 2, 3}, {3, 1, 2, 2}};
  Sh s = c.pick(shapes);
  Combo k = c.pick(combosTwo);
  In in = input(c, s, k);
  std::vector<Tensor> ts{in.t}; std::vector<RT> rs{in.r};
  int depth = c.thorough() ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    const Tensor t = ts.back(); const RT r = rs.back(); int64_t n = r.dim(); Tensor o; RT w;
    int op = c.pick(9);
    switch (op) {
      case 0: if (n < 1 || r.s[0] < 2) c.skip(); c.site("narrow"); o = t.narrow(0, 1, r.s[0] - 1); w = refNarrow(r, 0, 1, r.s[0] - 1); break;
      case 1: if (n < 2) c.skip(); c.site("transpose"); o = t.transpose(0, -1); w = refTranspose(r, 0, n - 1); break;
      case 2: c.site("flatten"); o = t.flatten(); w = RT(Sh{r.numel()}, r.v); break;
      case 3: if (r.numel() % 2) c.skip(); c.site("reshape"); o = t.reshape(iv(Sh{2, -1})); w = RT(Sh{2, r.numel() / 2}, r.v); break;
      case 4: if (n > 5) c.skip(); c.site("unsqueeze"); o = t.unsqueeze(-1); w = refUnsq(r, n); break;
      case 5: { Sh q; for (auto x : r.s) if (x != 1) q.push_back(x); c.site("squeeze"); o = t.squeeze(iv(Sh{})); w = RT(q, r.v); break; }
      case 6: if (n < 1) c.skip(); c.site("index"); o = op::index(t, iv(Sh{-1})); w = refIndex(r, {r.s[0] - 1}); break;
      case 7: { if (n < 2) c.skip(); Sh p; for (int64_t i = 1; i < n; i++) p.push_back(i); p.push_back(0); c.site("permute"); o = t.permute(iv(p)); w = refPermute(r, p); break; }
      case 8: { if (n < 1) c.skip(); c.site("split"); auto v = t.split(1, 0); o = v.back(); w = refNarrow(r, 0, r.s[0] - 1, 1); break; }
    }
    c.desc("-> %d", op);
    static const char* nm[] = {"narrow", "transpose", "flatten", "reshape", "unsqueeze", "squeeze", "index", "permute", "split"};
    expect(c, std::string("chain-") + nm[op], o, w);
    ts.push_back(o); rs.push_back(w);
    c.transition(); c.state(hashRT(w));
  }
  for (size_t i = 0; i < ts.size(); i++) expect(c, "chain-earlier-result-changed", ts[i], rs[i]);
  c.nontrivial(); c.outcome(hashRT(rs.back()));
}
struct Reg {
  Reg() {
    add("reshape", "every shape up to rank 4 x every target shape over {-1,0,1,2,3,4,6,...} up to rank 4; reshape, reshape_, view; impossible targets leave the tensor unchanged", fReshape, 3);
    add("flatten", "every shape up to rank 4 (extents 0..3) x every start/end pair incl. negative", fFlatten);
    add("unflatten", "every shape up to rank 3 x dim x split list over {-1,0,1,2,3,6}", fUnflatten);
    add("squeeze", "every shape up to rank 6 x squeeze(dim) / squeeze(dims subset) / unsqueeze(dim) incl. negative and impossible", fSqueeze, 3);
    add("permute", "every shape up to rank 5 (6 thorough) x every permutation x negative spellings", fPermute, 3);
    add("transpose", "every shape up to rank 5 plus block-crossing sizes x every dim pair incl. negative", fTranspose, 3);
    add("chain", "every chain of 3 (4 thorough) view-producing operations; every intermediate re-read at the end", fChain, 3);
  }
} reg;
}  // namespace
