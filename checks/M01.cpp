// M01: module trees enumerate, switch mode, zero, convert and apply exactly as their shape says.
#include <functional>
#include <memory>
#include <set>
#include "tt.h"
#include "Modules.h"
using namespace mc;
namespace {
enum Kind { kLin, kLinNB, kConv, kNorm, kNormNB, kRms, kEmb, kRope, kDrop, kRelu, kCustom, NLEAF, kSeq, kList, kUser, kUserP, kUserPS };
const char* kn[] = {"Linear", "Linear-nobias", "Conv2D", "LayerNorm", "LayerNorm-nobias", "RMSNorm", "Embedding", "RoPE", "Dropout", "Relu", "custom", "?", "Sequential", "ModuleList", "user", "user+param", "user+param+state"};
struct User : nn::Module {
  Tensor w, st; bool hasW, hasSt;
  User(bool p, bool s) : hasW(p), hasSt(s) {
    if (p) { w = mk(Sh{2}, {1, 2}, DType::Float32, true); }
    if (s) { st = mk(Sh{1}, {3}); }
  }
  Tensor forward(const Tensor& in) override { return in; }
 protected:
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { if (hasW) return {{"w", &w}}; return {}; }
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override { auto r = namedParameters_(); if (hasSt) r.emplace_back("st", &st); return r; }
};
struct Nd { int kind = kRelu; std::string name; std::vector<std::unique_ptr<Nd>> kids; std::shared_ptr<nn::Module> m; bool training = true; };
typedef std::vector<std::pair<std::string, TensorPtr>> Named;

std::shared_ptr<nn::Module> leaf(int k) {
  switch (k) {
    case kLin: return std::make_shared<nn::Linear>(2, 3);
    case kLinNB: return std::make_shared<nn::Linear>(2, 3, false);
    case kConv: return std::make_shared<nn::Conv2D>(1, 2, 2);
    case kNorm: return std::make_shared<nn::LayerNorm>(IntArrayView{2});
    case kNormNB: return std::make_shared<nn::LayerNorm>(IntArrayView{2}, 1e-5f, false);
    case kRms: return std::make_shared<nn::RMSNorm>(IntArrayView{2});
    case kEmb: return std::make_shared<nn::Embedding>(3, 2);
    case kRope: return std::make_shared<nn::RoPE>(4, 3);
    case kDrop: return std::make_shared<nn::Dropout>(1.f);
    case kCustom: return std::make_shared<User>(true, true);
    default: return std::make_shared<nn::Relu>();
  }
}
void finish(Nd& n, int how) {
  switch (n.kind) {
    case kSeq: {
      std::shared_ptr<nn::Sequential> s;
      if (how == 0) s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
      else if (n.kids.size() == 1) s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{n.kids[0]->m});
      else if (n.kids.size() == 2) s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{n.kids[0]->m, n.kids[1]->m});
      else s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{n.kids[0]->m});
      for (size_t i = s->size(); i < n.kids.size(); i++) s->pushBack(n.kids[i]->m);
      for (size_t i = 0; i < n.kids.size(); i++) n.kids[i]->name = std::to_string(i);
      n.m = s; break;
    }
    case kList: {
      auto s = std::make_shared<nn::ModuleList>();
      for (auto& k : n.kids) s->pushBack(k->m);
      for (size_t i = 0; i < n.kids.size(); i++) n.kids[i]->name = std::to_string(i);
      n.m = s; break;
    }
    default: {
      auto u = std::make_shared<User>(n.kind != kUser, n.kind == kUserPS);
      static const char* nm[] = {"z", "a", "m10", "m2"};
      for (size_t i = 0; i < n.kids.size(); i++) n.kids[i]->name = nm[i % 4];
      if (how == 0) for (auto& k : n.kids) u->registerModule(k->name, *k->m);
      else { std::vector<std::pair<std::string, std::reference_wrapper<nn::Module>>> v; for (auto& k : n.kids) v.emplace_back(k->name, *k->m); u->registerModules(v); }
      n.m = u;
    }
  }
}
void expected(Nd& n, const std::string& pre, Named& ps, Named& ss) {
  auto both = [&](const char* nm, TensorPtr t) { ps.emplace_back(pre + nm, t); ss.emplace_back(pre + nm, t); };
  switch (n.kind) {
    case kLin: case kLinNB: { auto m = (nn::Linear*)n.m.get(); both("weight", &m->weight()); if (n.kind == kLin) both("bias", &m->bias()); break; }
    case kConv: { auto m = (nn::Conv2D*)n.m.get(); both("weight", &m->weight()); both("bias", &m->bias()); break; }
    case kNorm: case kNormNB: { auto m = (nn::LayerNorm*)n.m.get(); both("weight", &m->weight()); if (n.kind == kNorm) both("bias", &m->bias()); break; }
    case kRms: both("weight", &((nn::RMSNorm*)n.m.get())->weight()); break;
    case kEmb: both("weight", &((nn::Embedding*)n.m.get())->weight()); break;
    case kRope: ss.emplace_back(pre + "rope", &((nn::RoPE*)n.m.get())->cache()); break;
    case kCustom: case kUser: case kUserP: case kUserPS: { auto u = (User*)n.m.get(); if (u->hasW) both("w", &u->w); if (u->hasSt) ss.emplace_back(pre + "st", &u->st); break; }
  }
  for (auto& k : n.kids) expected(*k, pre + k->name + ".", ps, ss);
}
// a tree with exactly `budget` nodes, chosen node by node
std::unique_ptr<Nd> build(Ctx& c, int budget, const std::vector<int>& leaves, const std::vector<int>& inner, int how, std::string& d) {
  auto n = std::make_unique<Nd>();
  if (budget == 1) { n->kind = leaves[c.pick((int)leaves.size())]; n->m = leaf(n->kind); d += kn[n->kind]; return n; }
  n->kind = inner[c.pick((int)inner.size())];
  d += kn[n->kind]; d += "(";
  int left = budget - 1;
  while (left > 0) {
    int b = 1 + c.pick(left);
    n->kids.push_back(build(c, b, leaves, inner, how, d)); d += ",";
    left -= b;
  }
  d.back() = ')';
  finish(*n, how);
  return n;
}
void all(Nd& n, std::vector<Nd*>& o) { o.push_back(&n); for (auto& k : n.kids) all(*k, o); }
std::string show(const Named& v) { std::string o; for (auto& p : v) o += p.first + " "; return o; }
void listing(Ctx& c, Nd& n) {
  for (const char* pre : {"", "x."}) {
    Named ps, ss; expected(n, pre, ps, ss);
    Named gp = *pre ? n.m->namedParameters(pre) : n.m->namedParameters(), gs = *pre ? n.m->namedStates(pre) : n.m->namedStates();
    if (gp != ps) c.fail("named-parameters", "namedParameters gives {%s}, expected {%s}", show(gp).c_str(), show(ps).c_str());
    if (gs != ss) c.fail("named-states", "namedStates gives {%s}, expected {%s}", show(gs).c_str(), show(ss).c_str());
    if (!*pre) {
      std::vector<TensorPtr> fp, fs; for (auto& p : ps) fp.push_back(p.second); for (auto& p : ss) fs.push_back(p.second);
      if (n.m->parameters() != fp) c.fail("parameters", "parameters() has %zu entries, expected %zu in registration order", n.m->parameters().size(), fp.size());
      if (n.m->states() != fs) c.fail("states", "states() has %zu entries, expected %zu in registration order", n.m->states().size(), fs.size());
    }
  }
}
void fill(Named& ss) { int k = 0; for (auto& p : ss) { NoGradGuard g; if (p.second->defined()) { auto v = jumble(p.second->numel(), k++); rawStore(*p.second, v); } } }
void fTrees(Ctx& c) {
  int n = 1 + c.pick(c.thorough() ? 5 : 4), how = c.pick(2);
  std::string d;
  auto t = build(c, n, n <= 2 ? [] { std::vector<int> v; for (int i = 0; i < NLEAF; i++) v.push_back(i); return v; }() : n == 3 ? std::vector<int>{kLin, kLinNB, kRope, kDrop, kCustom, kNorm} : std::vector<int>{kLinNB, kCustom, kDrop},
                 n <= 3 ? std::vector<int>{kSeq, kList, kUser, kUserP, kUserPS} : std::vector<int>{kSeq, kUserPS}, how, d);
  c.desc("%s registration %d", d.c_str(), how);
  Nd other; other.kind = kCustom; other.m = leaf(kCustom);
  if (n > 1) c.nontrivial();
  listing(c, *t);
  std::vector<Nd*> nodes; all(*t, nodes);
  Named ps, ss; expected(*t, "", ps, ss);
  // a set of its own for every node
  for (auto* x : nodes) listing(c, *x);
  fill(ss);
  std::vector<RT> before; for (auto& p : ss) before.push_back(rt(*p.second));
  auto* u = (User*)other.m.get(); u->w.setGrad(mk(Sh{2}, {5, 6}));
  int target = c.pick((int)nodes.size());
  Named tp, ts; expected(*nodes[target], "", tp, ts);
  std::set<TensorPtr> inP, inS; for (auto& p : tp) inP.insert(p.second); for (auto& p : ts) inS.insert(p.second);
  switch (c.pick(3)) {
    case 0:
      c.desc("; zeroGrad on node %d", target); c.site("zeroGrad");
      for (auto& p : ps) p.second->setGrad(mk(before[0].s.empty() ? shapeOf(*p.second) : shapeOf(*p.second), jumble(p.second->numel(), 2)));
      nodes[target]->m->zeroGrad();
      for (auto& p : ps) {
        bool z = true; Tensor g = p.second->grad();
        if (g.defined()) for (double x : rawValues(g)) z &= x == 0;
        if (inP.count(p.second) && !z) c.fail("zero-missed", "gradient of %s is not zero", p.first.c_str());
        if (!inP.count(p.second) && z && p.second->numel()) c.fail("zero-outside", "gradient of %s outside the module was zeroed", p.first.c_str());
      }
      break;
    case 1: {
      DType dt = c.pick({DType::Float16, DType::BFloat16, DType::Float32});
      int form = c.pick(3);
      c.desc("; to(%s) on node %d, form %d", dtName(dt), target, form); c.site("to");
      if (form == 0) nodes[target]->m->to(dt);
      else if (form == 1) nodes[target]->m->to(dt, Device::cpu());
      else { nodes[target]->m->to(Device::cpu()); nodes[target]->m->to(dt); }
      for (size_t i = 0; i < ss.size(); i++) {
        Tensor& x = *ss[i].second; bool in = inS.count(ss[i].second);
        if (x.dtype() != (in ? dt : DType::Float32)) c.fail("to-dtype", "%s has type %s after conversion of %s", ss[i].first.c_str(), dtName(x.dtype()), in ? "its tree" : "another subtree");
        RT want = before[i]; if (in) for (auto& v : want.v) v = roundTo(v, dt);
        expect(c, "to-values", x, want);
        bool isParam = std::any_of(ps.begin(), ps.end(), [&](auto& p) { return p.second == ss[i].second; });
        if (x.requiresGrad() != isParam) c.fail("to-requires-grad", "%s requiresGrad=%d after conversion", ss[i].first.c_str(), x.requiresGrad());
      }
      break;
    }
    default: {
      c.desc("; initParameters on node %d", target); c.site("initParameters");
      for (size_t i = 0; i < ss.size(); i++) rawStore(*ss[i].second, std::vector<double>(ss[i].second->numel(), 1e6));
      nodes[target]->m->initParameters();
      for (size_t i = 0; i < ss.size(); i++) {
        bool in = inS.count(ss[i].second), user = ss[i].first.back() == 'w' || ss[i].first.back() == 't';
        bool isBuiltin = !(ss[i].first == "w" || ss[i].first == "st" || (ss[i].first.size() > 2 && ss[i].first.substr(ss[i].first.size() - 2) == ".w") || (ss[i].first.size() > 3 && ss[i].first.substr(ss[i].first.size() - 3) == ".st"));
        (void)user;
        for (double x : rawValues(*ss[i].second)) {
          if (in && isBuiltin && (!std::isfinite(x) || std::fabs(x) > 100)) c.fail("init-missed", "%s keeps %g after initParameters", ss[i].first.c_str(), x);
          if (!(in && isBuiltin) && x != 1e6) c.fail("init-outside", "%s changed to %g by initParameters of another subtree", ss[i].first.c_str(), x);
        }
      }
      break;
    }
  }
  if (rawValues(u->w) != std::vector<double>{1, 2} || rawValues(u->w.grad()) != std::vector<double>{5, 6}) c.fail("other-module", "a module outside the tree was changed");
  listing(c, *t);
}
// training mode: every history of train/eval calls on any node
void fMode(Ctx& c) {
  int n = 2 + c.pick(c.thorough() ? 4 : 3);
  std::string d;
  auto t = build(c, n, {kDrop, kRelu}, {kSeq, kList, kUser}, n & 1, d);
  c.desc("%s:", d.c_str());
  std::vector<Nd*> nodes; all(*t, nodes);
  std::function<void(Nd&, bool)> set = [&](Nd& x, bool m) { x.training = m; for (auto& k : x.kids) set(*k, m); };
  Tensor in = mk(Sh{3}, {1, -2, 3});
  int depth = n <= 3 ? 3 : 2;
  for (int s = 0; s < depth; s++) {
    int node = c.pick((int)nodes.size()), how = c.pick(3);
    c.desc("%s(node %d);", how == 0 ? "eval" : how == 1 ? "train" : "train(false)", node);
    if (how == 0) nodes[node]->m->eval(); else if (how == 1) nodes[node]->m->train(); else nodes[node]->m->train(false);
    set(*nodes[node], how == 1);
    uint64_t st = 1;
    for (auto* x : nodes) {
      st = mix(st, x->training);
      if (x->kind != kDrop) continue;
      auto v = rawValues(x->m->forward(in));
      std::vector<double> want = x->training ? std::vector<double>{0, 0, 0} : std::vector<double>{1, -2, 3};
      for (auto& y : v) if (y == 0) y = 0;
      if (v != want) c.fail("mode", "dropout in %s mode gives %s", x->training ? "training" : "evaluation", str(v).c_str());
      if (node) c.nontrivial();
    }
    c.transition(); c.state(st);
  }
  c.trace();
}
// sequential application: non-commuting user modules nested in every way
struct Map : nn::Module { int k; explicit Map(int k_) : k(k_) {} Tensor forward(const Tensor& x) override { return k == 0 ? x * Scalar(2.f) : k == 1 ? x + Scalar(3.f) : k == 2 ? x * x : x; } };
void fSeq(Ctx& c) {
  int n = 1 + c.pick(c.thorough() ? 6 : 5); std::string d; double want = 1.5;
  std::vector<std::shared_ptr<nn::Sequential>> stack; stack.push_back(std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{}));
  std::vector<nn::Module*> order; int top = 0; std::vector<nn::Module*> direct;
  for (int i = 0; i < n; i++) {
    int k = c.pick(5); d += std::to_string(k);
    if (k < 3) {
      if (c.pick(2)) { stack.back()->emplaceBack<Map>(k); } else stack.back()->pushBack(std::make_shared<Map>(k));
      want = k == 0 ? want * 2 : k == 1 ? want + 3 : want * want;
      if (stack.size() == 1) top++;
    } else if (k == 3) { auto s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{std::make_shared<Map>(0), std::make_shared<Map>(1)}); stack.back()->pushBack(s); if (stack.size() == 1) top++; stack.push_back(s); want = want * 2 + 3; }
    else { if (stack.size() == 1) c.skip(); stack.pop_back(); }
  }
  // children added to an inner container after it was placed are applied in their place
  if (std::abs(want) > 1e30) c.skip();
  c.desc("sequence %s", d.c_str());
  auto& root = *stack[0];
  if ((int)root.size() != top || root.empty() != (top == 0)) c.fail("size", "size() is %zu, expected %d", root.size(), top);
  size_t i = 0; for (auto& m : root) { if (m.get() != &root[i]) c.fail("iterate", "iteration and operator[] disagree at %zu", i); i++; }
  const auto& cr = root; i = 0; for (auto& m : cr) { if (m.get() != &cr[i]) c.fail("iterate", "const iteration and operator[] disagree at %zu", i); i++; }
  expect(c, "sequential", root(mk(Sh{1}, {1.5})), RT(Sh{1}, {want}), 1e-5);
  if (n > 1) c.nontrivial();
}
// each built-in layer applies the function it names with its own parameters
void fLayers(Ctx& c) {
  int k = c.pick(13); DType dt = DType::Float32; int salt = c.pick(3);
  auto in = [&](Sh s) { return mk(s, jumble(numelOf(s), salt), dt); };
  auto put = [&](Tensor& t, int q) { rawStore(t, jumble(t.numel(), q + salt)); };
  auto same = [&](const Tensor& a, const Tensor& b) { expect(c, "layer", a, rt(b)); };
  c.desc("layer %d salt %d", k, salt); c.nontrivial();
  switch (k) {
    case 0: { bool b = c.flip(); nn::Linear m(3, 2, b); put(m.weight(), 1); if (b) put(m.bias(), 2); Tensor x = in({4, 3}); same(m(x), function::linear(x, m.weight(), b ? m.bias() : Tensor())); if (shapeOf(m.weight()) != Sh{2, 3}) c.fail("shape", "weight shape %s", str(shapeOf(m.weight())).c_str()); break; }
    case 1: {
      bool b = c.flip(); int st = c.pick({1, 2}), pd = c.pick({0, 1}); Dim2D kk = c.flip() ? Dim2D{2, 3} : Dim2D{1, 2};
      nn::Conv2D m(2, 3, kk, Dim2D{st, 1}, Dim2D{0, pd}, b); put(m.weight(), 1); if (b) put(m.bias(), 2); Tensor x = in({2, 2, 4, 5});
      same(m(x), function::conv2d(x, m.weight(), b ? m.bias() : Tensor(), Dim2D{st, 1}, Dim2D{0, pd})); break;
    }
    case 2: { bool b = c.flip(); Sh ns{3}; nn::LayerNorm m(iv(ns), 0.1f, b); put(m.weight(), 1); if (b) put(m.bias(), 2); Tensor x = in({4, 2, 3}); same(m(x), function::layerNorm(x, iv(ns), m.weight(), b ? m.bias() : Tensor(), 0.1f)); break; }
    case 3: { Sh ns{3}; nn::RMSNorm m(iv(ns), 0.1f); put(m.weight(), 1); Tensor x = in({4, 2, 3}); same(m(x), function::rmsNorm(x, iv(ns), m.weight(), 0.1f)); break; }
    case 4: { nn::Embedding m(5, 2); put(m.weight(), 1); Tensor x = mk(Sh{2, 2}, {4, 0, 3, 3}, DType::Int64); same(m(x), function::embedding(x, m.weight())); break; }
    case 5: { nn::Flatten m(c.pick({0, 1}), c.pick({-1, 2})); Tensor x = in({2, 3, 2, 1}); Tensor y = m(x); if (rawValues(y) != rawValues(x)) c.fail("flatten", "values changed"); break; }
    case 6: { nn::Relu m; Tensor x = in({5}); same(m(x), function::relu(x)); break; }
    case 7: { nn::Gelu m; Tensor x = in({5}); same(m(x), function::gelu(x)); break; }
    case 8: { nn::Silu m; Tensor x = in({5}); same(m(x), function::silu(x)); break; }
    case 9: { int d = c.pick({0, 1, -1}); nn::Softmax m(d); Tensor x = in({2, 3}); same(m(x), function::softmax(x, d)); break; }
    case 10: { int d = c.pick({0, 1, -1}); nn::LogSoftmax m(d); Tensor x = in({2, 3}); same(m(x), function::logSoftmax(x, d)); break; }
    case 11: { int how = c.pick(3); Tensor x = in({1, 2, 5, 6}); if (how == 0) { nn::MaxPool2D m(Dim2D{2, 3}); same(m(x), function::maxPool2d(x, Dim2D{2, 3}, Dim2D{2, 3}, 0)); } else if (how == 1) { nn::MaxPool2D m(Dim2D{2, 3}, Dim2D{1, 2}); same(m(x), function::maxPool2d(x, Dim2D{2, 3}, Dim2D{1, 2}, 0)); } else { nn::MaxPool2D m(Dim2D{2, 3}, Dim2D{2, 1}, Dim2D{1, 0}); same(m(x), function::maxPool2d(x, Dim2D{2, 3}, Dim2D{2, 1}, Dim2D{1, 0})); } break; }
    case 12: {
      int off = c.pick(3); nn::RoPE m(4, 8, 100.f, std::nullopt); Tensor x = in({1, 2, 3, 4});
      same(m(x, off), function::ropeApply(x, m.cache(), off));
      if (off == 0) same(m.forward(x), function::ropeApply(x, m.cache()));
      break;
    }
  }
}
// a module registered twice (tied weights): listed once, stepped once
void fShared(Ctx& c) {
  int where = c.pick(4); auto lin = std::make_shared<nn::Linear>(1, 1, false); rawStore(lin->weight(), {2});
  c.desc("the same layer used twice, arrangement %d", where); c.nontrivial();
  std::shared_ptr<nn::Module> root;
  auto user = std::make_shared<User>(false, false);
  std::shared_ptr<nn::Sequential> a, b;
  switch (where) {
    case 0: root = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{lin, lin}); break;
    case 1: a = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{lin}); root = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{a, lin}); break;
    case 2: user->registerModule("x", *lin); user->registerModule("y", *lin); root = user; break;
    default: a = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{lin}); b = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{lin}); user->registerModules({{"p", *a}, {"q", *b}}); root = user; break;
  }
  auto once = [&](const std::vector<TensorPtr>& v, const char* w) { if (std::count(v.begin(), v.end(), &lin->weight()) != 1) c.fail(std::string("shared-") + w, "%s lists the shared weight %ld times", w, (long)std::count(v.begin(), v.end(), &lin->weight())); };
  once(root->parameters(), "parameters"); once(root->states(), "states");
  std::vector<TensorPtr> np, ns; for (auto& p : root->namedParameters()) np.push_back(p.second); for (auto& p : root->namedStates()) ns.push_back(p.second);
  once(np, "namedParameters"); once(ns, "namedStates");
  if (root->namedParameters()[0].first != (where == 0 ? "0.weight" : where == 1 ? "0.0.weight" : where == 2 ? "x.weight" : "p.0.weight")) c.fail("shared-name", "listed as %s", root->namedParameters()[0].first.c_str());
}
struct Reg { Reg() {
  add("trees", "every module tree of 1-4 (5) nodes over 11 leaf kinds and 5 container kinds: listings of every node, then zeroGrad, dtype conversion or initialisation of every node", fTrees, 3);
  add("mode", "every tree of 2-4 (5) nodes with dropout leaves, every history of 2-3 train/eval calls on any node", fMode, 3);
  add("sequential", "every sequence of up to 5 (6) additions to nested sequential containers", fSeq, 3);
  add("layers", "every built-in layer against the function it applies", fLayers, 2);
  add("shared", "one layer registered twice in four arrangements", fShared, 1);
} } reg;
}  // namespace
