// T02: histories of sharing and writing.  The model gives every tensor its own value array; only copies
// of one handle share a value array, and only leading-dimension slices share cells with their source
// (seen by copy_ alone).  After every step every live tensor is read back.
#include <memory>
#include "refops.h"
#include "Functions.h"
using namespace mc;

namespace {
struct Cell { double v; uint64_t stamp = 0; int id = 0; };
typedef std::shared_ptr<Cell> C;
struct Body {  // what copies of one handle share
  Sh s; std::vector<C> cells; bool view = false; uint64_t stamp = 0; int id = 0;
};
struct Ent { Tensor t; std::shared_ptr<Body> b; std::string name; };

std::vector<C> cellsOf(const std::vector<double>& v) { std::vector<C> o; for (double x : v) o.push_back(std::make_shared<Cell>(Cell{x, 0, 0})); return o; }
RT val(const Body& b) { RT r; r.s = b.s; for (auto& c : b.cells) r.v.push_back(c->v); return r; }
std::shared_ptr<Body> body(const RT& r) { auto b = std::make_shared<Body>(); b->s = r.s; b->cells = cellsOf(r.v); return b; }
void own(Body& b) { b.cells = cellsOf(val(b).v); b.view = false; }  // a plain write detaches

void readAll(Ctx& c, std::vector<Ent>& p, const std::string& op) {
  for (auto& e : p) {
    RT w = val(*e.b);
    if (shapeOf(e.t) != w.s) c.fail("shape:" + op, "%s has shape %s, expected %s", e.name.c_str(), str(shapeOf(e.t)).c_str(), str(w.s).c_str());
    auto g = rawValues(e.t);
    for (size_t i = 0; i < g.size(); i++)
      if (g[i] != w.v[i]) c.fail("value:" + op, "%s reads %s, expected %s", e.name.c_str(), str(g).c_str(), str(w.v).c_str());
  }
}

enum { dClone, dHandle, dReshape, dFlatten, dPermute, dUnsq, dSqueeze, dNarrow0, dNarrowAll, dIndex, dSplit, dNarrow1, dExpand, dTo, dPermuteId, dUnflatten, dChunk, NDER };
const char* dName[] = {"clone", "handle", "reshape", "flatten", "permute", "unsqueeze", "squeeze", "narrow0", "narrowAll", "index", "split", "narrow1", "expand", "to-same", "permuteId", "unflatten", "chunk"};
enum { wFill, wMasked, wScatter, wIndexPut, wCopy, wAddIn, wPlusEq, wReshape_, wOut, wZero, wLin, wPlusEqT, wPermute_, wUnaryIn, wCopySelf, wSqueeze_, wDrop, wIndexPutT, wIndexPutAdv, NWR };
const char* wName[] = {"fill_", "fillMasked_", "scatter_", "indexPut", "copy_", "addInplace", "+=", "reshape_", "subOut", "fillZero_", "fillLinSpace_", "+=tensor", "permute_", "sinInplace", "copy_self", "squeeze_", "drop", "indexPutT", "indexPutAdvance"};
const std::vector<int> kDer = {dClone, dHandle, dReshape, dNarrow0, dIndex, dSplit, dSqueeze, dPermuteId, dNarrowAll};
const std::vector<int> kWr = {wFill, wMasked, wScatter, wIndexPut, wCopy, wAddIn, wPlusEq, wReshape_, wDrop};

bool derive(Ctx& c, std::vector<Ent>& p, int i, int op, int step, DType dt) {
  Tensor& t = p[i].t; auto b = p[i].b;
  RT v = val(*b);
  int64_t d0 = v.s.empty() ? 0 : v.s[0], n = v.numel();
  Tensor r; std::shared_ptr<Body> nb;
  auto slice = [&](int64_t from, int64_t len, bool drop) {
    auto x = std::make_shared<Body>();
    int64_t row = n / d0;
    x->s = v.s; if (drop) x->s.erase(x->s.begin()); else x->s[0] = len;
    x->cells.assign(b->cells.begin() + from * row, b->cells.begin() + (from + len) * row);
    x->view = true;
    return x;
  };
  c.site(dName[op]);
  switch (op) {
    case dClone: r = t.clone(); nb = body(v); break;
    case dHandle: r = t; nb = b; break;
    case dTo: r = t.to(dt); nb = b; break;
    case dReshape: r = t.reshape({n}); nb = body(RT(Sh{n}, v.v)); break;
    case dFlatten: if (v.s.size() < 1) return false; r = t.flatten(); nb = body(RT(Sh{n}, v.v)); break;
    case dUnflatten: if (v.s.empty() || v.s[0] % 2) return false; { r = t.unflatten(0, {2, d0 / 2}); Sh s = v.s; s[0] = 2; s.insert(s.begin() + 1, d0 / 2); nb = body(RT(s, v.v)); } break;
    case dPermute: if (v.s.size() != 2) return false; r = t.permute(); nb = body(refTranspose(v, 0, 1)); break;
    case dPermuteId: if (v.s.size() < 1) return false; { Sh id; for (size_t k = 0; k < v.s.size(); k++) id.push_back(k); r = t.permute(iv(id)); nb = body(v); } break;
    case dUnsq: { r = t.unsqueeze(0); Sh s = v.s; s.insert(s.begin(), 1); nb = body(RT(s, v.v)); } break;
    case dSqueeze: if (v.s.empty()) return false; { r = t.squeeze(0); Sh s = v.s; if (s[0] == 1) s.erase(s.begin()); nb = body(RT(s, v.v)); } break;
    case dNarrow0: if (d0 < 2) return false; r = t.narrow(0, 1, d0 - 1); nb = slice(1, d0 - 1, false); break;
    case dNarrowAll: if (d0 < 1) return false; r = t.narrow(0, 0, d0); nb = slice(0, d0, false); break;
    case dIndex: if (d0 < 2) return false; r = op::index(t, IntArrayView{1}); nb = slice(1, 1, true); break;
    case dSplit: if (d0 < 2) return false; { auto q = t.split(1, 0); r = q[0]; nb = slice(0, 1, false); } break;
    case dChunk: if (d0 < 2) return false; { auto q = t.chunk(2, 0); int64_t h = (d0 + 1) / 2; r = q[1]; nb = slice(h, d0 - h, false); } break;
    case dNarrow1: if (v.s.size() < 2 || v.s[1] < 2) return false; r = t.narrow(1, 0, 1); nb = body(refNarrow(v, 1, 0, 1)); break;
    case dExpand: { Sh s = v.s; s.insert(s.begin(), 1); r = op::expand(t, iv(s)); nb = body(RT(s, v.v)); } break;
  }
  p.push_back({r, nb, std::string(dName[op]) + "#" + std::to_string(step)});
  return true;
}
// copies of the handle may or may not follow a rebinding write: adopt what is seen
void rebind(Ctx& c, std::vector<Ent>& p, int i, const RT& nv) {
  auto old = p[i].b;
  auto nb = body(nv);
  for (size_t k = 0; k < p.size(); k++) {
    if (p[k].b != old) continue;
    if ((int)k == i) { p[k].b = nb; continue; }
    RT g = rt(p[k].t);
    if (g.s == nv.s && g.v == nv.v && !(val(*old).s == nv.s && val(*old).v == nv.v)) p[k].b = nb;
  }
}
bool write(Ctx& c, std::vector<Ent>& p, int i, int op, int step, DType dt) {
  Tensor& t = p[i].t; auto b = p[i].b;
  RT v = val(*b); int64_t n = v.numel(), d0 = v.s.empty() ? 0 : v.s[0];
  double x = 50 + 7 * step;
  auto plain = [&](auto f) { own(*b); for (int64_t k = 0; k < n; k++) f(k, b->cells[k]->v); };
  c.site(wName[op]);
  if (dt == DType::Int64 && (op == wAddIn || op == wPlusEq || op == wPlusEqT || op == wOut)) return false;  // float arithmetic only
  switch (op) {
    case wFill: t.fill_(Scalar((float)x)); plain([&](int64_t, double& e) { e = x; }); break;
    case wZero: t.fillZero_(); plain([&](int64_t, double& e) { e = 0; }); break;
    case wLin: if (v.s.size() != 1) return false; t.fillLinSpace_(Scalar((float)x), Scalar(1.f), n); plain([&](int64_t k, double& e) { e = x + k; }); break;
    case wMasked: {
      RT m(v.s); for (int64_t k = 0; k < n; k++) m.v[k] = k % 2 == 0;
      t.fillMasked_(mk(m, DType::Bool), Scalar((float)x)); plain([&](int64_t k, double& e) { if (k % 2 == 0) e = x; });
    } break;
    case wScatter: {
      if (v.s.empty() || d0 < 1) return false;
      Sh is = v.s; is[0] = 1;
      RT ix(is), sr(is); for (int64_t k = 0; k < ix.numel(); k++) { ix.v[k] = d0 - 1; sr.v[k] = x + k; }
      t.scatter_(0, mk(ix, DType::Int64), mk(sr, dt));
      int64_t row = n / d0; plain([&](int64_t k, double& e) { if (k >= (d0 - 1) * row) e = x + (k - (d0 - 1) * row); });
    } break;
    case wIndexPut: {
      if (d0 < 1) return false;
      op::indexPut(t, IntArrayView{0}, mk(RT(Sh{}, {x}), dt));
      int64_t row = n / d0; plain([&](int64_t k, double& e) { if (k < row) e = x; });
    } break;
    case wIndexPutT: {
      if (d0 < 1) return false;
      Sh rs(v.s.begin() + 1, v.s.end()); RT r(rs); for (size_t k = 0; k < r.v.size(); k++) r.v[k] = x + k;
      op::indexPut(t, IntArrayView{d0 - 1}, mk(r, dt));
      int64_t row = n / d0; plain([&](int64_t k, double& e) { if (k >= (d0 - 1) * row) e = x + (k - (d0 - 1) * row); });
    } break;
    case wIndexPutAdv: {
      if (d0 < 1 || v.s.size() < 1) return false;
      RT ix(Sh{1}); Sh rs = v.s; rs[0] = 1; RT r(rs); for (size_t k = 0; k < r.v.size(); k++) r.v[k] = x + k;
      op::indexPutAdvance(t, ArrayView<Tensor>{mk(ix, DType::Int64)}, mk(r, dt));
      int64_t row = n / d0; plain([&](int64_t k, double& e) { if (k < row) e = x + k; });
    } break;
    case wCopy: {
      RT s(v.s); for (int64_t k = 0; k < n; k++) s.v[k] = x + k;
      t.copy_(mk(s, dt));
      if (!b->view) own(*b);                       // a view writes through to every tensor sharing its cells
      for (int64_t k = 0; k < n; k++) b->cells[k]->v = x + k;
    } break;
    case wCopySelf: {                              // from another tensor of the pool
      int j = c.pick((int)p.size());
      RT s = val(*p[j].b); if (s.s != v.s) return false;
      t.copy_(p[j].t);
      if (!b->view) own(*b);
      for (int64_t k = 0; k < n; k++) b->cells[k]->v = s.v[k];
    } break;
    case wAddIn: { op::addInplace(t, mk(RT(Sh{}, {x}), dt), Scalar(1)); plain([&](int64_t, double& e) { e += x; }); } break;
    case wUnaryIn: { if (dt != DType::Float32) return false; op::squareInplace(t); plain([&](int64_t, double& e) { e = (float)(e * e); }); } break;
    case wOut: { RT s(v.s, x); op::subOut(t, mk(v, dt), mk(s, dt), Scalar(1)); plain([&](int64_t, double& e) { e -= x; }); } break;
    case wPlusEq: { RT w = v; for (auto& e : w.v) e += x; t += Scalar((float)x); rebind(c, p, i, w); } break;
    case wPlusEqT: { RT w = v; for (auto& e : w.v) e += e; t += t; rebind(c, p, i, w); } break;
    case wReshape_: { t.reshape_({n}); rebind(c, p, i, RT(Sh{n}, v.v)); } break;
    case wPermute_: { if (v.s.size() != 2) return false; t.permute_(); rebind(c, p, i, refTranspose(v, 0, 1)); } break;
    case wSqueeze_: { if (v.s.empty() || v.s[0] != 1) return false; Sh s(v.s.begin() + 1, v.s.end()); t.squeeze_(0); rebind(c, p, i, RT(s, v.v)); } break;
    case wDrop: { if (p.size() < 2) return false; p.erase(p.begin() + i); } break;
  }
  return true;
}
uint64_t poolHash(const std::vector<Ent>& p) {
  // canonical: shapes, identity of shared handles and cells, values
  uint64_t h = 3;
  static uint64_t now = 0; now++;
  int nc = 0, nb = 0;
  for (auto& e : p) {
    if (e.b->stamp != now) { e.b->stamp = now; e.b->id = nb++; }
    h = mix(h, e.b->id * 2 + e.b->view);
    for (auto d : e.b->s) h = mix(h, d + 11);
    for (auto& c : e.b->cells) {
      if (c->stamp != now) { c->stamp = now; c->id = nc++; }
      uint64_t bits; memcpy(&bits, &c->v, 8);
      h = mix(mix(h, c->id), bits);
    }
  }
  return h;
}
std::vector<Ent> start(Ctx& c, int kind, DType dt) {
  std::vector<Ent> p;
  Sh s = kind == 0 ? Sh{2, 3} : kind == 1 ? Sh{3} : Sh{2, 2, 1};
  RT r(s, ramp(numelOf(s)));
  p.push_back({mk(r, dt), body(r), "base"});
  return p;
}
// any operation at every step
void histories(Ctx& c, const std::vector<int>& ders, const std::vector<int>& wrs, int depth, int kinds, bool types) {
  int kind = kinds > 1 ? c.pick(kinds) : 0;
  DType dt = types && (kind == 0 || c.thorough()) ? c.pick({DType::Float32, DType::Int64, DType::Float16}) : DType::Float32;
  auto p = start(c, kind, dt);
  c.desc("start %s %s;", str(p[0].b->s).c_str(), dtName(dt));
  bool wrote = false;
  for (int s = 0; s < depth; s++) {
    int per = (int)(ders.size() + wrs.size());
    int k = c.pick(per * (int)p.size());
    int i = k / per, o = k % per;
    std::string nm = p[i].name;
    bool der = o < (int)ders.size();
    int op = der ? ders[o] : wrs[o - ders.size()];
    if (s == depth - 1 && der) c.skip();           // the last step has to be a write
    c.desc("%s.%s;", nm.c_str(), der ? dName[op] : wName[op]);
    if (!(der ? derive(c, p, i, op, s, dt) : write(c, p, i, op, s, dt))) c.skip();
    readAll(c, p, der ? dName[op] : wName[op]);
    wrote |= !der;
    c.state(poolHash(p)); c.transition();
  }
  c.trace(); c.outcome(poolHash(p));
  if (p.size() > 1 && wrote) c.nontrivial();
}
void fMix(Ctx& c) { histories(c, kDer, kWr, c.thorough() ? 5 : 4, 1, false); }
std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }
void fWide(Ctx& c) { static auto d = upto(NDER), w = upto(NWR); histories(c, d, w, 3, 3, true); }
void fShare(Ctx& c) {  // few operations, longer histories
  histories(c, {dClone, dNarrow0, dReshape}, {wFill, wCopy, wDrop}, c.thorough() ? 7 : 5, 2, false);
}
void fView(Ctx& c) {
  histories(c, {dClone, dNarrowAll, dIndex, dHandle}, {wCopy, wScatter, wCopySelf}, c.thorough() ? 5 : 4, 2, false);
}
// every operation that writes into an explicit output or in place, on a tensor with a live clone and a live slice
struct OutOp { const char* n; std::function<void(Tensor&, Tensor&, Tensor&)> f; bool mayKeep; };
const std::vector<OutOp>& outOps() {
#define U(x) {#x "Inplace", [](Tensor& t, Tensor&, Tensor&) { op::x##Inplace(t); }, true}, {#x "Out", [](Tensor& t, Tensor& o, Tensor&) { op::x##Out(t, o); }, true}
#define B(x) {#x "Inplace", [](Tensor& t, Tensor& o, Tensor&) { op::x##Inplace(t, o); }, true}, {#x "Out", [](Tensor& t, Tensor& o, Tensor& q) { op::x##Out(t, o, q); }, true}
  static const std::vector<OutOp> v = {
    U(abs), U(neg), U(sign), U(sqrt), U(square), U(exp), U(log), U(sin), U(cos), U(sigmoid), U(tanh), U(relu), U(gelu), U(silu),
    B(mul), B(div), B(pow), B(clampMin), B(clampMax),
    {"maximumOut", [](Tensor& t, Tensor& o, Tensor& q) { op::maximumOut(t, o, q); }, true},
    {"minimumOut", [](Tensor& t, Tensor& o, Tensor& q) { op::minimumOut(t, o, q); }, true},
    {"addInplace", [](Tensor& t, Tensor& o, Tensor&) { op::addInplace(t, o, Scalar(1)); }, false},
    {"subInplace", [](Tensor& t, Tensor& o, Tensor&) { op::subInplace(t, o, Scalar(1)); }, false},
    {"addOut", [](Tensor& t, Tensor& o, Tensor& q) { op::addOut(t, o, q, Scalar(1)); }, false},
    {"subOut", [](Tensor& t, Tensor& o, Tensor& q) { op::subOut(t, o, q, Scalar(1)); }, false},
    {"clampInplace", [](Tensor& t, Tensor&, Tensor&) { op::clampInplace(t, Tensor::scalar(2), Tensor::scalar(3)); }, false},
    {"clampOut", [](Tensor& t, Tensor& o, Tensor&) { op::clampOut(t, o, Tensor::scalar(2), Tensor::scalar(3)); }, false},
    {"addcmulInplace", [](Tensor& t, Tensor& o, Tensor& q) { op::addcmulInplace(t, o, q, Scalar(1)); }, false},
    {"addcmulOut", [](Tensor& t, Tensor& o, Tensor& q) { op::addcmulOut(t, o, q, o, Scalar(1)); }, false},
    {"softmaxOut", [](Tensor& t, Tensor& o, Tensor&) { op::softmaxOut(t, o, 1); }, false},
    {"logSoftmaxOut", [](Tensor& t, Tensor& o, Tensor&) { op::logSoftmaxOut(t, o, 1); }, false},
    {"fill_", [](Tensor& t, Tensor&, Tensor&) { t.fill_(Scalar(9)); }, false},
    {"fillOne_", [](Tensor& t, Tensor&, Tensor&) { t.fillOne_(); }, false},
    {"fillZero_", [](Tensor& t, Tensor&, Tensor&) { t.fillZero_(); }, false},
    {"fillUniform_", [](Tensor& t, Tensor&, Tensor&) { t.fillUniform_(0, 1); }, false},
    {"fillNormal_", [](Tensor& t, Tensor&, Tensor&) { t.fillNormal_(0, 1); }, false},
    {"fillBernoulli_", [](Tensor& t, Tensor&, Tensor&) { t.fillBernoulli_(0.5f); }, false},
    {"fillMasked_", [](Tensor& t, Tensor&, Tensor&) { t.fillMasked_(mk(RT(Sh{2, 3}, {1, 0, 1, 0, 1, 0}), DType::Bool), Scalar(9)); }, false},
    {"copy_", [](Tensor& t, Tensor& o, Tensor&) { t.copy_(o); }, false},
  };
  return v;
}
void fOps(Ctx& c) {
  const OutOp& op = outOps()[c.pick((int)outOps().size())];
  int share = c.pick(5);
  RT v(Sh{2, 3}, ramp(6, 1.5)), w(Sh{2, 3}, ramp(6, 3));
  Tensor t = mk(v), o = mk(w), q = mk(RT(Sh{2, 3}, ramp(6, 2))), keep, keep2;
  if (share == 0) { keep = t.clone(); keep2 = t.clone(); }
  else if (share == 1) { keep = t.narrow(0, 0, 2); keep2 = t.clone(); }
  else if (share == 2) { keep = t.reshape({6}).reshape({2, 3}); keep2 = t.unsqueeze(0).squeeze(0); }
  else if (share == 3) { keep = t; t = t.clone(); keep2 = keep.clone(); }
  else { keep2 = t; t = o.clone(); keep = keep2.clone(); }   // the output shares storage with an operand
  Tensor self = t;
  std::string n = op.n;
  c.desc("%s, sharing %d", n.c_str(), share); c.site(op.n);
  op.f(t, o, q);
  expect(c, "clone-changed:" + n, keep, v);
  expect(c, "clone-changed:" + n, keep2, v);
  expect(c, "operand-changed:" + n, o, w);
  expect(c, "operand-changed:" + n, q, RT(Sh{2, 3}, ramp(6, 2)));
  expect(c, "handle-stale:" + n, self, rt(t));
  // the same call on unshared tensors writes the same values
  if (n.find("Uniform") == n.npos && n.find("Normal") == n.npos && n.find("Bernoulli") == n.npos) {
    Tensor t2 = mk(share == 4 ? w : v), o2 = mk(w), q2 = mk(RT(Sh{2, 3}, ramp(6, 2)));
    op.f(t2, o2, q2);
    expect(c, "sharing-changes-result:" + n, t, rt(t2));
  }
  c.nontrivial(); c.trace(); c.outcome(hashRT(rt(t)));
}
// every operation that returns a tensor, with arguments that make it a no-op included: the result is a tensor of its own
struct ResOp { const char* n; std::function<Tensor(Tensor&)> f; };
Tensor ix(std::initializer_list<double> v) { return mk(RT(Sh{(int64_t)v.size()}, std::vector<double>(v)), DType::Int64); }
const std::vector<ResOp>& resOps() {
#define R(name, ...) {name, [](Tensor& t) -> Tensor { int64_t n = t.numel(); int64_t d0 = t.shape(0), last = t.dim() - 1; (void)n; (void)d0; (void)last; __VA_ARGS__; }}
  static const std::vector<ResOp> v = {
    R("clone", return t.clone()), R("reshape-same", return t.reshape(t.shape())), R("reshape-flat", return t.reshape({-1})), R("view-same", return t.view(t.shape())),
    R("flatten", return t.flatten()), R("flatten-one", return t.flatten(0, 0)), R("flatten-last", return t.flatten(last, last)), R("unflatten-1", return t.unflatten(0, {1, -1})),
    R("squeeze-none", return t.squeeze(IntArrayView{})), R("squeeze0", return t.squeeze(0)), R("squeeze-1", return t.squeeze(-1)), R("unsqueeze", return t.unsqueeze(0)), R("unsqueeze-1", return t.unsqueeze(-1)),
    R("permute", return t.permute()), R("permute-id", Sh p; for (int64_t k = 0; k <= last; k++) p.push_back(k); return t.permute(iv(p))), R("permute-negid", Sh p; for (int64_t k = 0; k <= last; k++) p.push_back(k - last - 1); return t.permute(iv(p))),
    R("transpose-same", return t.transpose(0, 0)), R("transpose-same-neg", return t.transpose(last, -1)), R("transpose", return t.transpose(0, last)), R("t", if (last != 1) return Tensor(); return t.t()),
    R("narrow-full", return t.narrow(0, 0, d0)), R("narrow-full-last", return t.narrow(last, 0, t.shape(last))), R("narrow-first", return t.narrow(0, 0, 1)), R("narrow-last", return t.narrow(last, 0, 1)),
    R("split-whole", return t.split(d0, 0)[0]), R("split-last", return t.split(t.shape(last), last)[0]), R("chunk-1", return t.chunk(1, 0)[0]), R("chunk-1-last", return t.chunk(1, last)[0]),
    R("splitSections", return t.split({d0}, 0)[0]), R("concat-one", Tensor a[1] = {t}; return op::concat(ArrayView<Tensor>(a, 1), 0)), R("concat-one-last", Tensor a[1] = {t}; return op::concat(ArrayView<Tensor>(a, 1), -1)),
    R("stack-one", Tensor a[1] = {t}; return op::stack(ArrayView<Tensor>(a, 1), 0)), R("vstack-one", Tensor a[1] = {t}; return op::vstack(ArrayView<Tensor>(a, 1))), R("hstack-one", Tensor a[1] = {t}; return op::hstack(ArrayView<Tensor>(a, 1))),
    R("index", return op::index(t, IntArrayView{0})), R("indexSelect-all", RT r(Sh{d0}); for (int64_t k = 0; k < d0; k++) r.v[k] = k; return op::indexSelect(t, 0, mk(r, DType::Int64))),
    R("indexAdvance-all", RT r(Sh{d0}); for (int64_t k = 0; k < d0; k++) r.v[k] = k; return op::indexAdvance(t, ArrayView<Tensor>{mk(r, DType::Int64)})),
    R("gather-id", RT r(shapeOf(t)); int64_t row = n / d0; for (int64_t k = 0; k < n; k++) r.v[k] = k / row; return op::gather(t, 0, mk(r, DType::Int64))),
    R("scatter-none", Sh s = shapeOf(t); s[0] = 1; RT r(s), q(s); int64_t row = n / d0; for (int64_t k = 0; k < row; k++) q.v[k] = rawValues(t)[k]; return op::scatter(t, 0, mk(r, DType::Int64), mk(q, t.dtype()))),
    R("expand-same", return op::expand(t, t.shape())), R("expand-more", Sh s = shapeOf(t); s.insert(s.begin(), 1); return op::expand(t, iv(s))), R("repeat-1", return op::repeatInterleave(t, 1, 0)), R("repeat-1-last", return op::repeatInterleave(t, 1, last)),
    R("tril-all", return last < 1 ? Tensor() : t.tril(9)), R("triu-all", return last < 1 ? Tensor() : t.triu(-9)), R("tril", return last < 1 ? Tensor() : t.tril()),
    R("sum-none", return t.dtype() != DType::Float32 ? Tensor() : t.sum(0, true)), R("max-dim", if (t.dtype() != DType::Float32) return Tensor(); return t.max(0, true).first), R("cumsum", if (t.dtype() != DType::Float32) return Tensor(); return op::cumsum(t, 0)),
    R("sum-all", return t.dtype() != DType::Float32 ? Tensor() : t.sum()), R("mean-dim", return t.dtype() != DType::Float32 ? Tensor() : t.mean(last)),
    R("dropout-eval", if (t.dtype() != DType::Float32) return Tensor(); return function::dropout(t, 0.5f, false)), R("dropout-0", if (t.dtype() != DType::Float32) return Tensor(); return function::dropout(t, 0.f, true)),
    R("add0", if (t.dtype() != DType::Float32) return Tensor(); return t + Scalar(0.f)), R("mul1", if (t.dtype() != DType::Float32) return Tensor(); return t * Scalar(1.f)), R("pow1", if (t.dtype() != DType::Float32) return Tensor(); return t.pow(Scalar(1))),
    R("add-alpha0", if (t.dtype() != DType::Float32) return Tensor(); return function::add(t, t.clone(), Scalar(0.f))), R("clamp-wide", if (t.dtype() != DType::Float32) return Tensor(); return op::clamp(t, Tensor::scalar(-1e6f), Tensor::scalar(1e6f))),
    R("abs", if (t.dtype() != DType::Float32) return Tensor(); return op::abs(t)), R("relu", if (t.dtype() != DType::Float32) return Tensor(); return function::relu(t)), R("maximum-self", if (t.dtype() != DType::Float32) return Tensor(); return op::maximum(t, t)),
    R("to-other", return t.to(t.dtype() == DType::Float32 ? DType::Int32 : DType::Float32)), R("softmax", if (t.dtype() != DType::Float32) return Tensor(); return function::softmax(t, 0)), R("sort", if (t.dtype() != DType::Float32) return Tensor(); return op::sort(t, 0, false).first),
    R("topk-all", if (t.dtype() != DType::Float32) return Tensor(); return op::topk(t, d0, 0, true, true).first), R("narrow-chain", return t.narrow(0, 0, d0).reshape(t.shape())), R("perm-twice", return t.permute().permute()),
    R("list-roundtrip", return t.unsqueeze(0).squeeze(0)), R("index-chain", return op::index(t.unsqueeze(0), IntArrayView{0})), R("narrow-dim0-one", return t.unsqueeze(0).narrow(0, 0, 1)),
  };
  return v;
}
void fResults(Ctx& c) {
  static const std::vector<Sh> shapes = {{3}, {1}, {2, 3}, {1, 3}, {3, 1}, {2, 2}, {2, 1, 2}, {1, 1, 2}};
  const ResOp& op = resOps()[c.pick((int)resOps().size())];
  const Sh& s = shapes[c.pick((int)shapes.size())];
  DType dt = c.pick({DType::Float32, DType::Int64});
  int wr = c.pick(8); bool back = c.flip();
  std::string n = op.n;
  c.desc("%s of %s %s, write %d into the %s", op.n, str(s).c_str(), dtName(dt), wr, back ? "source" : "result"); c.site(op.n);
  RT v(s, ramp(numelOf(s)));
  Tensor t = mk(v, dt);
  Tensor r = op.f(t);
  if (!r.defined()) c.skip();
  expect(c, "result-operand-changed:" + n, t, v);
  RT rv = rt(r);
  Tensor& w = back ? t : r; Tensor& o = back ? r : t;
  RT before = back ? rv : v;
  bool flt = w.dtype() == DType::Float32;
  int64_t m = w.numel();
  switch (wr) {
    case 0: w.fill_(Scalar(91)); break;
    case 1: { RT k(shapeOf(w)); for (auto& x : k.v) x = 1; w.fillMasked_(mk(k, DType::Bool), Scalar(91)); } break;
    case 2: { if (w.dim() < 1 || w.shape(0) < 1) c.skip(); Sh is = shapeOf(w); is[0] = 1; RT i(is), q(is); for (auto& x : q.v) x = 91; w.scatter_(0, mk(i, DType::Int64), mk(q, w.dtype())); } break;
    case 3: if (!flt) c.skip(); op::addInplace(w, Tensor::scalar(91), Scalar(1)); break;
    case 4: if (w.dim() < 1 || w.shape(0) < 1) c.skip(); op::indexPut(w, IntArrayView{0}, mk(RT(Sh{}, {91}), w.dtype())); break;
    case 5: w.fillZero_(); break;
    case 6: if (!flt) c.skip(); op::mulInplace(w, Tensor::scalar(91)); break;
    case 7: if (!flt) c.skip(); w += Scalar(91.f); break;
  }
  expect(c, "result-shares:" + n, o, before);
  c.nontrivial(); c.trace(); c.outcome(mix(hashRT(rv), wr * 2 + back)); (void)m;
}
struct Reg { Reg() {
  add("results", "every operation returning a tensor, no-op arguments included: writing into the result or into the source leaves the other alone", fResults, 2);
  add("mix", "every history of 4 (5) steps over 9 ways to derive a tensor and 9 ways to write or drop one, any live target", fMix, 3);
  add("wide", "every history of 3 steps over 17 derivations and 19 writes, three start shapes, three types", fWide, 3);
  add("share", "every history of 5 (7) steps over clone, slice, reshape, fill, copy, drop", fShare, 3);
  add("views", "every history of 4 (5) steps over views and handles with copies between them", fView, 3);
  add("ops", "every in-place and into-output operation on a shared tensor", fOps, 1);
} } reg;
}  // namespace
