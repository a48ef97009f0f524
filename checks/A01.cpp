// A01: every small expression graph; gradients against forward-mode derivatives of the reference.
#include "dual.h"
using namespace mc;

namespace {
struct Node { Tensor t; DT d; bool grad; int leaf; Sh s; std::string name; };

struct Un { const char* n; std::function<Tensor(const Tensor&)> f; std::function<bool(const DT&, DT&, size_t)> r; };
bool perm(const DT& a, DT& o, const Sh& p) { if (a.s.size() != p.size()) return false; o = dReindex(a, refPermute(dIdx(a.s), p)); return true; }
Sh rev(size_t n) { Sh p; for (size_t k = 0; k < n; k++) p.push_back(n - 1 - k); return p; }
const std::vector<Un>& unary() {
  static const std::vector<Un> v = {
    {"sin", [](const Tensor& x) { return x.sin(); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(std::sin(x), std::cos(x)); }); return true; }},
    {"cos", [](const Tensor& x) { return x.cos(); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(std::cos(x), -std::sin(x)); }); return true; }},
    {"relu", [](const Tensor& x) { return function::relu(x); }, [](const DT& a, DT& o, size_t) {
       for (auto& x : a.e) if (std::fabs(x.v) < 1e-3) return false;   // not differentiable there
       o = dUnary(a, [](double x) { return std::pair<double, double>(std::max(x, 0.0), x > 0); }); return true; }},
    {"pow2", [](const Tensor& x) { return x.pow(Scalar(2)); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(x * x, 2 * x); }); return true; }},
    {"sum", [](const Tensor& x) { return x.sum(); }, [](const DT& a, DT& o, size_t n) { o = dSum(a, n); return true; }},
    {"softmax-1", [](const Tensor& x) { return function::softmax(x, -1); }, [](const DT& a, DT& o, size_t n) { if (a.s.empty()) return false; o = dSoftmax(a, (int64_t)a.s.size() - 1, false, n); return true; }},
    {"logSoftmax0", [](const Tensor& x) { return function::logSoftmax(x, 0); }, [](const DT& a, DT& o, size_t n) { if (a.s.empty()) return false; o = dSoftmax(a, 0, true, n); return true; }},
    {"rsub", [](const Tensor& x) { return 2.f - x; }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(2 - x, -1); }); return true; }},
    {"mulS", [](const Tensor& x) { return x * Scalar(-1.5f); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(-1.5 * x, -1.5); }); return true; }},
    {"rdiv", [](const Tensor& x) { return 3.f / x; }, [](const DT& a, DT& o, size_t) {
       for (auto& x : a.e) if (std::fabs(x.v) < 0.05) return false;
       o = dUnary(a, [](double x) { return std::pair<double, double>(3 / x, -3 / (x * x)); }); return true; }},
    {"flatten", [](const Tensor& x) { return x.flatten(); }, [](const DT& a, DT& o, size_t) { o = a; o.s = {(int64_t)a.e.size()}; return true; }},
    {"permute", [](const Tensor& x) { return x.permute(); }, [](const DT& a, DT& o, size_t) { return perm(a, o, rev(a.s.size())); }},
    {"unsqueeze0", [](const Tensor& x) { return x.unsqueeze(0); }, [](const DT& a, DT& o, size_t) { if (a.s.size() > 3) return false; o = a; o.s.insert(o.s.begin(), 1); return true; }},
    // wider list from here on
    {"squeezeAll", [](const Tensor& x) { return x.squeeze(IntArrayView{}); }, [](const DT& a, DT& o, size_t) { o = a; o.s.clear(); for (auto k : a.s) if (k != 1) o.s.push_back(k); return true; }},
    {"unflatten", [](const Tensor& x) { return x.unflatten(-1, {-1, 1}); }, [](const DT& a, DT& o, size_t) { if (a.s.empty() || a.s.size() > 3) return false; o = a; o.s.push_back(1); return true; }},
    {"rotate", [](const Tensor& x) { Sh p; for (int64_t k = 1; k < x.dim(); k++) p.push_back(k); p.push_back(0); return x.permute(iv(p)); }, [](const DT& a, DT& o, size_t) {
       if (a.s.size() < 2) return false; Sh p; for (size_t k = 1; k < a.s.size(); k++) p.push_back(k); p.push_back(0); return perm(a, o, p); }},
    {"rotateNeg", [](const Tensor& x) { Sh p{-1}; for (int64_t k = 0; k + 1 < x.dim(); k++) p.push_back(k); return x.permute(iv(p)); }, [](const DT& a, DT& o, size_t) {
       if (a.s.size() < 2) return false; Sh p{(int64_t)a.s.size() - 1}; for (size_t k = 0; k + 1 < a.s.size(); k++) p.push_back(k); return perm(a, o, p); }},
    {"view-1", [](const Tensor& x) { return x.view({-1, 1}); }, [](const DT& a, DT& o, size_t) { o = a; o.s = {(int64_t)a.e.size(), 1}; return !a.e.empty(); }},
    {"pow3", [](const Tensor& x) { return x.pow(Scalar(3)); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(x * x * x, 3 * x * x); }); return true; }},
    {"addS", [](const Tensor& x) { return 0.5f + x; }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(x + 0.5, 1); }); return true; }},
    {"subS", [](const Tensor& x) { return x - Scalar(0.25f); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(x - 0.25, 1); }); return true; }},
    {"divS", [](const Tensor& x) { return x / Scalar(4.f); }, [](const DT& a, DT& o, size_t) { o = dUnary(a, [](double x) { return std::pair<double, double>(x / 4, 0.25); }); return true; }},
    {"softmax0", [](const Tensor& x) { return function::softmax(x, 0); }, [](const DT& a, DT& o, size_t n) { if (a.s.empty()) return false; o = dSoftmax(a, 0, false, n); return true; }},
    {"logSoftmax-1", [](const Tensor& x) { return function::logSoftmax(x); }, [](const DT& a, DT& o, size_t n) { if (a.s.empty()) return false; o = dSoftmax(a, (int64_t)a.s.size() - 1, true, n); return true; }},
    {"reshape", [](const Tensor& x) { return x.reshape({1, -1}); }, [](const DT& a, DT& o, size_t) { o = a; o.s = {1, (int64_t)a.e.size()}; return !a.e.empty(); }},
    {"squeeze0", [](const Tensor& x) { return x.squeeze(0); }, [](const DT& a, DT& o, size_t) { if (a.s.empty()) return false; o = a; if (a.s[0] == 1) o.s.erase(o.s.begin()); return true; }},
    {"unsqueeze-1", [](const Tensor& x) { return x.unsqueeze(-1); }, [](const DT& a, DT& o, size_t) { if (a.s.size() > 3) return false; o = a; o.s.push_back(1); return true; }},
    {"flatten01", [](const Tensor& x) { return x.flatten(0, 1); }, [](const DT& a, DT& o, size_t) { if (a.s.size() < 2) return false; o = a; o.s.erase(o.s.begin()); o.s[0] = a.s[0] * a.s[1]; return true; }},
  };
  return v;
}
constexpr int kCore = 13;
struct Bi { const char* n; std::function<Tensor(const Tensor&, const Tensor&)> f; std::function<bool(const DT&, const DT&, DT&)> r; };
const std::vector<Bi>& binary() {
  static const std::vector<Bi> v = {
    {"add", [](const Tensor& a, const Tensor& b) { return a + b; }, [](const DT& a, const DT& b, DT& o) { return dBinary(a, b, o, [](double x, double y) { return D3{x + y, 1, 1}; }); }},
    {"sub", [](const Tensor& a, const Tensor& b) { return a - b; }, [](const DT& a, const DT& b, DT& o) { return dBinary(a, b, o, [](double x, double y) { return D3{x - y, 1, -1}; }); }},
    {"mul", [](const Tensor& a, const Tensor& b) { return a * b; }, [](const DT& a, const DT& b, DT& o) { return dBinary(a, b, o, [](double x, double y) { return D3{x * y, y, x}; }); }},
    {"div", [](const Tensor& a, const Tensor& b) { return a / b; }, [](const DT& a, const DT& b, DT& o) {
       for (auto& y : b.e) if (std::fabs(y.v) < 0.05) return false;
       return dBinary(a, b, o, [](double x, double y) { return D3{x / y, 1 / y, -x / (y * y)}; }); }},
    {"pow", [](const Tensor& a, const Tensor& b) { return a.pow(b); }, [](const DT& a, const DT& b, DT& o) {
       for (auto& x : a.e) if (x.v < 0.05) return false;
       return dBinary(a, b, o, [](double x, double y) { return D3{std::pow(x, y), y * std::pow(x, y - 1), std::pow(x, y) * std::log(x)}; }); }},
    {"subAlpha", [](const Tensor& a, const Tensor& b) { return function::sub(a, b, Scalar(0.5f)); }, [](const DT& a, const DT& b, DT& o) { return dBinary(a, b, o, [](double x, double y) { return D3{x - 0.5 * y, 1, -0.5}; }); }},
  };
  return v;
}
struct Leaf { Sh s; std::vector<double> v; bool g; const char* n; };
const std::vector<Leaf>& leafSet(int k) {
  static const std::vector<std::vector<Leaf>> v = {
    {{{2, 3}, {0.5, 1.25, 2, 0.75, 1.5, 0.25}, true, "a"}, {{3}, {1.5, 0.5, 0.875}, true, "b"}, {{}, {0.75}, true, "s"}, {{2, 3}, {1, 0.5, 2, 1.75, 0.375, 1.125}, false, "k"}},
    {{{2, 1}, {0.5, 1.25}, true, "a"}, {{1, 3}, {1.5, 0.5, 0.875}, true, "b"}, {{1}, {0.75}, true, "s"}, {{3, 1}, {0.25, 1, 2}, false, "k"}},
    {{{2, 1, 2}, {0.5, 1.25, 2, 0.375}, true, "a"}, {{1, 2}, {1.5, 0.5}, true, "b"}, {{1, 1}, {0.75}, true, "s"}, {{2, 2}, {0.25, -1, 2, -0.5}, true, "k"}},
    {{{1}, {1.75}, true, "a"}, {{}, {0.5}, true, "b"}, {{1, 1, 1}, {1.25}, true, "s"}, {{}, {-2}, false, "k"}},
  };
  return v[k];
}
struct Prog {
  std::vector<Node> pool; size_t n = 0; std::vector<size_t> base;
  Prog(int set, DType dt) {
    auto& L = leafSet(set);
    for (auto& l : L) if (l.g) n += l.v.size();
    size_t b = 0; int i = 0;
    for (auto& l : L) {
      RT r(l.s, l.v);
      pool.push_back({mk(r, dt, l.g), l.g ? dLeaf(r, b, n) : dConst(r, n), l.g, i++, l.s, l.n});
      base.push_back(b); if (l.g) b += l.v.size();
    }
  }
};
bool sane(const DT& d) {
  for (auto& x : d.e) { if (!(std::fabs(x.v) < 1e4)) return false; for (double g : x.d) if (!(std::fabs(g) < 1e4)) return false; }
  return true;
}
// one step; mustUse: the previous result takes part
void build(Ctx& c, Prog& p, int step, bool mustUse, int nUn, int nBi) {
  int P = (int)p.pool.size(), last = P - 1;
  int un = mustUse ? nUn : nUn * P, bi = mustUse ? nBi * (2 * P - 1) : nBi * P * P;
  int k = c.pick(un + bi);
  Node r; r.leaf = -1;
  char nm[32]; snprintf(nm, sizeof nm, "t%d", step);
  r.name = nm;
  if (k < un) {
    int x = mustUse ? last : k / nUn; auto& u = unary()[k % nUn];
    c.desc("%s=%s(%s);", nm, u.n, p.pool[x].name.c_str()); c.site(u.n);
    if (!u.r(p.pool[x].d, r.d, p.n) || !sane(r.d)) c.skip();
    r.t = u.f(p.pool[x].t); r.grad = p.pool[x].grad;
  } else {
    k -= un; auto& b = binary()[k % nBi]; k /= nBi;
    int x, y;
    if (!mustUse) { x = k / P; y = k % P; }
    else if (k < P) { x = last; y = k; } else { x = k - P; y = last; }
    c.desc("%s=%s(%s,%s);", nm, b.n, p.pool[x].name.c_str(), p.pool[y].name.c_str()); c.site(b.n);
    if (!b.r(p.pool[x].d, p.pool[y].d, r.d) || !sane(r.d)) c.skip();
    r.t = b.f(p.pool[x].t, p.pool[y].t); r.grad = p.pool[x].grad || p.pool[y].grad;
  }
  r.s = r.d.s;
  p.pool.push_back(std::move(r));
}
void finish(Ctx& c, Prog& p, int set, DType dt, double rel, double abs_, int gradKind) {
  Node& y = p.pool.back();
  for (auto& n : p.pool) {
    if (n.t.requiresGrad() != n.grad) c.fail("requires-grad", "%s %s gradients", n.name.c_str(), n.t.requiresGrad() ? "requires" : "does not require");
    expect(c, "forward", n.t, n.d.val(), rel, abs_);
  }
  if (!y.grad) { c.outcome(1); return; }
  RT g(y.s);
  for (size_t i = 0; i < g.v.size(); i++) g.v[i] = gradKind == 0 ? 1 : 0.5 + 0.75 * (double)((i * 5) % 7) - (i % 2);
  Tensor tg = mk(g, dt, gradKind == 2);
  c.site("backward");
  if (gradKind == 0 && y.s.empty()) y.t.backward(); else y.t.backward(tg);
  auto& L = leafSet(set);
  std::vector<RT> want;
  for (size_t l = 0; l < L.size(); l++) {
    RT w(L[l].s);
    if (L[l].g) for (size_t j = 0; j < w.v.size(); j++) for (size_t i = 0; i < y.d.e.size(); i++) w.v[j] += g.v[i] * y.d.e[i].d[p.base[l] + j];
    want.push_back(w);
  }
  uint64_t h = 5;
  for (size_t l = 0; l < L.size(); l++) {
    Node& n = p.pool[l];
    expect(c, "leaf-changed", n.t, RT(L[l].s, L[l].v));
    if (!L[l].g) { if (n.t.requiresGrad()) c.fail("leaf-flag", "%s now requires gradients", L[l].n); continue; }
    const Tensor& gr = n.t.grad();
    bool zero = true; for (double x : want[l].v) zero &= x == 0;
    if (!gr.defined()) { if (!zero) c.fail("gradient", "%s received no gradient, expected %s", L[l].n, str(want[l].v).c_str()); continue; }
    if (gr.requiresGrad()) c.fail("gradient-flag", "the gradient of %s requires gradients", L[l].n);
    if (gr.dtype() != dt) c.fail("gradient-type", "the gradient of %s has another type", L[l].n);
    double m = 0; for (double x : want[l].v) m = std::max(m, std::fabs(x));
    // derivatives may cancel: the tolerance scales with the terms, not with the result
    double terms = 0; for (auto& e : y.d.e) for (size_t j = 0; j < want[l].v.size(); j++) terms = std::max(terms, e.a[p.base[l] + j]);
    std::string key = "gradient-of-" + std::string(L[l].n);
    expect(c, "gradient", gr, want[l], rel * 4, abs_ + rel * 4 * (m + 4 * terms));
    h = mix(h, hashRT(want[l]));
  }
  expect(c, "incoming-gradient-changed", tg, g);
  for (size_t k = L.size(); k < p.pool.size(); k++) expect(c, "forward-changed", p.pool[k].t, p.pool[k].d.val(), rel, abs_);
  c.outcome(h);
  if (p.pool.size() > L.size() + 1) c.nontrivial();
}
void prog(Ctx& c, int set, int steps, int coreFrom, int nCore, DType dt, double rel, double abs_, bool kinds) {
  int gk = kinds ? c.pick(3) : 1;
  Prog p(set, dt);
  c.desc("leaves %d %s grad %d: ", set, dtName(dt), gk);
  for (int s = 0; s < steps; s++) {
    bool core = s >= coreFrom;
    build(c, p, s, s > 0, core ? nCore : (int)unary().size(), (int)binary().size() - (core ? 1 : 0));
  }
  finish(c, p, set, dt, rel, abs_, gk);
}
void fTwo(Ctx& c) { prog(c, c.pick(4), 2, 9, kCore, DType::Float32, 2e-5, 2e-5, true); }
void fThree(Ctx& c) { prog(c, c.thorough() ? c.pick(3) : c.pick(2), 3, c.thorough() ? 1 : 0, c.thorough() ? kCore : 9, DType::Float32, 4e-5, 4e-5, false); }
// an interior tensor used several times: sharing patterns of depth four over few operations
void fShare(Ctx& c) {
  Prog p(0, DType::Float32);
  int steps = c.thorough() ? 5 : 4;
  c.desc("shared: ");
  // leaves a (2,3), b (3), s (); operations: sin, add, mul
  p.pool.erase(p.pool.begin() + 3);
  for (int s = 0; s < steps; s++) {
    int P = (int)p.pool.size(), last = P - 1;
    int lo = s == 0 ? 0 : last;
    std::vector<std::array<int, 3>> alts;
    for (int x = 0; x < P; x++) for (int y = x; y < P; y++) if (s == 0 || y == last) { alts.push_back({0, x, y}); alts.push_back({1, x, y}); }
    for (int x = lo; x < P; x++) alts.push_back({2, x, x});
    auto a = alts[c.pick((int)alts.size())];
    Node r; r.leaf = -1; char nm[16]; snprintf(nm, sizeof nm, "t%d", s); r.name = nm;
    Node &x = p.pool[a[1]], &y = p.pool[a[2]];
    c.desc("%s=%s(%s,%s);", nm, a[0] == 2 ? "sin" : binary()[a[0] * 2].n, x.name.c_str(), y.name.c_str());
    bool ok = a[0] == 2 ? unary()[0].r(x.d, r.d, p.n) : binary()[a[0] * 2].r(x.d, y.d, r.d);
    if (!ok || !sane(r.d)) c.skip();
    r.t = a[0] == 2 ? unary()[0].f(x.t) : binary()[a[0] * 2].f(x.t, y.t);
    r.grad = true; r.s = r.d.s;
    p.pool.push_back(std::move(r));
  }
  Node& y = p.pool.back();
  RT g(y.s); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 1 + 0.5 * (double)i;
  Tensor tg = mk(g);
  c.site("backward");
  y.t.backward(tg);
  uint64_t h = 3;
  for (int l = 0; l < 3; l++) {
    auto& L = leafSet(0)[l];
    RT w(L.s); double m = 0;
    for (size_t j = 0; j < w.v.size(); j++) for (size_t i = 0; i < y.d.e.size(); i++) { double q = g.v[i] * y.d.e[i].d[p.base[l] + j]; w.v[j] += q; m += std::fabs(q); }
    const Tensor& gr = p.pool[l].t.grad();
    if (!gr.defined()) { if (m != 0) c.fail("gradient", "%s received no gradient", L.n); continue; }
    expect(c, "gradient", gr, w, 1e-4, 1e-5 + 1e-5 * m);
    h = mix(h, hashRT(w));
  }
  expect(c, "incoming-gradient-changed", tg, g);
  for (auto& n : p.pool) expect(c, "forward-changed", n.t, n.d.val(), 1e-4, 1e-4);
  c.outcome(h); c.nontrivial();
}
void fHalf(Ctx& c) {
  bool bf = c.flip();
  prog(c, c.pick(4), c.thorough() ? 2 : 1, 9, kCore, bf ? DType::BFloat16 : DType::Float16, bf ? 4e-2 : 5e-3, bf ? 4e-2 : 5e-3, false);
}
// values where a formula may break down although the derivative exists
void fEdge(Ctx& c) {
  int k = c.pick(9);
  auto run = [&](const char* nm, Tensor y, std::vector<std::pair<Tensor, double>> want) {
    c.desc("%s", nm); c.site("backward");
    y.backward(mk(RT(shapeOf(y), std::vector<double>(y.numel(), 1))));
    for (auto& w : want) expect(c, std::string("edge-") + nm, w.first.grad(), RT(shapeOf(w.first), std::vector<double>(w.first.numel(), w.second)), 1e-5, 1e-6);
    c.outcome(k); c.nontrivial();
  };
  auto L = [&](double v) { return mk(RT(Sh{2}, {v, v}), DType::Float32, true); };
  switch (k) {
    case 0: { auto x = L(0); run("pow(0,2)", x.pow(Scalar(2)), {{x, 0}}); } break;
    case 1: { auto x = L(0), e = L(2); run("pow(0,e)", x.pow(e), {{x, 0}, {e, 0}}); } break;
    case 2: { auto x = L(0); run("pow(0,1)", x.pow(Scalar(1)), {{x, 1}}); } break;
    case 3: { auto x = L(-2); run("pow(-2,3)", x.pow(Scalar(3)), {{x, 12}}); } break;
    case 4: { auto x = L(0); run("pow(0,0)", x.pow(Scalar(0)), {{x, 0}}); } break;
    case 5: { auto x = L(0), d = L(2); run("0/d", x / d, {{x, 0.5}, {d, 0}}); } break;
    case 6: { auto x = L(100); run("softmax-large", function::softmax(x, 0), {{x, 0}}); } break;
    case 7: { auto x = L(-1000); run("relu-negative", function::relu(x), {{x, 0}}); } break;
    case 8: { auto x = L(-1000); run("logSoftmax-large", function::logSoftmax(x, 0), {{x, 0}}); } break;
  }
}
// in-place forms on an intermediate result continue its graph; on a leaf without graph they start one
void fInplace(Ctx& c) {
  int first = c.pick(3), second = c.pick(9), use = c.pick(3);
  RT ra(Sh{2, 3}, {0.5, 1.25, 2, 0.75, 1.5, 0.25}), rb(Sh{3}, {1.5, 0.5, 0.875});
  size_t n = 9;
  Tensor a = mk(ra, DType::Float32, true), b = mk(rb, DType::Float32, true), t;
  DT da = dLeaf(ra, 0, n), db = dLeaf(rb, 6, n), d;
  auto mulF = [](double x, double y) { return D3{x * y, y, x}; };
  auto addF = [](double x, double y) { return D3{x + y, 1, 1}; };
  auto subF = [](double x, double y) { return D3{x - y, 1, -1}; };
  auto divF = [](double x, double y) { return D3{x / y, 1 / y, -x / (y * y)}; };
  static const char* fn[] = {"a*b", "sin(a)", "constant"};
  static const char* sn[] = {"+=b", "-=b", "*=b", "/=b", "*=t", "*=-1.5", "reshape_", "permute_", "flatten_"};
  c.desc("t=%s; t%s; use %d", fn[first], sn[second], use); c.site("inplace");
  if (first == 0) { t = a * b; dBinary(da, db, d, mulF); }
  else if (first == 1) { t = a.sin(); unary()[0].r(da, d, n); }
  else { t = mk(ra); d = dConst(ra, n); }
  Tensor old = t;   // a handle from before: same values, and whatever it says about gradients must not break the rest
  DT o;
  switch (second) {
    case 0: t += b; dBinary(d, db, o, addF); break;
    case 1: t -= b; dBinary(d, db, o, subF); break;
    case 2: t *= b; dBinary(d, db, o, mulF); break;
    case 3: t /= b; dBinary(d, db, o, divF); break;
    case 4: t *= t; dBinary(d, d, o, mulF); break;
    case 5: t *= Scalar(-1.5f); unary()[8].r(d, o, n); break;
    case 6: t.reshape_({3, 2}); o = d; o.s = {3, 2}; break;
    case 7: t.permute_(); perm(d, o, {1, 0}); break;
    case 8: t.flatten_(); o = d; o.s = {6}; break;
  }
  Tensor y; DT dy;
  if (use == 0) { y = t; dy = o; }
  else if (use == 1) { y = t.sin(); unary()[0].r(o, dy, n); }
  else { y = t * t; dBinary(o, o, dy, mulF); }
  expect(c, "forward", y, dy.val(), 1e-5, 1e-5);
  bool any = first != 2 || second < 4;
  if (y.requiresGrad() != any) c.fail("inplace-requires-grad", "the result %s gradients", y.requiresGrad() ? "requires" : "does not require");
  if (!any) return;
  RT g(dy.s); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 1 + 0.25 * (double)i;
  c.site("backward");
  y.backward(mk(g));
  for (int l = 0; l < 2; l++) {
    RT w(l ? rb.s : ra.s);
    bool zero = true;
    for (size_t j = 0; j < w.v.size(); j++) { for (size_t i = 0; i < dy.e.size(); i++) w.v[j] += g.v[i] * dy.e[i].d[(l ? 6 : 0) + j]; zero &= w.v[j] == 0; }
    const Tensor& gr = (l ? b : a).grad();
    if (!gr.defined()) { if (!zero) c.fail("inplace-gradient", "%s received no gradient", l ? "b" : "a"); continue; }
    expect(c, "inplace-gradient", gr, w, 1e-4, 1e-4);
  }
  c.outcome(first * 100 + second * 10 + use); c.nontrivial();
}
// alpha of add
void fAlpha(Ctx& c) {
  double al = c.pick({0.5, 2.0, 1.0});
  int which = c.pick(3);
  RT ra(Sh{2}, {0.5, 1.25}), rb(Sh{2}, {1.5, 0.5});
  Tensor a = mk(ra, DType::Float32, which != 1), b = mk(rb, DType::Float32, which != 0);
  c.desc("add(a,b,alpha=%g) operands %d", al, which); c.site("backward");
  Tensor y = function::add(a, b, Scalar((float)al));
  y.backward(mk(RT(Sh{2}, {1, 3})));
  if (which != 1) expect(c, "add-alpha-self", a.grad(), RT(Sh{2}, {1, 3}), 1e-6);
  if (which != 0) {
    // exactly the gradient of alpha = 1 is a finding of its own (known_findings.jsonl); anything else is another one
    bool unscaled = al != 1 && b.grad().defined() && shapeOf(b.grad()) == Sh{2} && rawValues(b.grad()) == std::vector<double>{1, 3};
    if (unscaled) c.fail("add-alpha-ignored-for-other", "the gradient of the second operand of add(a, b, %g) is that of add(a, b, 1)", al);
    expect(c, "add-alpha-other", b.grad(), RT(Sh{2}, {al, 3 * al}), 1e-6);
  }
  c.outcome((uint64_t)(al * 4)); c.nontrivial();
}
struct Reg { Reg() {
  add("two", "every expression of two operations (28 unary, 6 binary, any operands that use the first result) over four sets of leaf shapes, three kinds of incoming gradient", fTwo, 3);
  add("three", "every expression of three operations, each using the previous result, over two (three) sets of leaf shapes", fThree, 3);
  add("share", "every sharing pattern of add, mul and sin over four (five) nodes", fShare, 3);
  add("types", "every one- (two-) operation expression in Float16 and BFloat16", fHalf, 2);
  add("inplace", "in-place arithmetic and shape changes on intermediate results and constants", fInplace, 1);
  add("edge", "points where a formula could break down although the derivative exists", fEdge, 1);
  add("alpha", "the alpha factor of add", fAlpha, 1);
} } reg;
}  // namespace
