// A02: histories of building graphs, running them backward, zeroing, hooks and reuse.  Derivatives of the model come
// from forward-mode dual numbers with one extra perturbation per interior element, so the gradient every hook has to see
// is known as well.
#include <map>
#include <memory>
#include "dual.h"
using namespace mc;

namespace {
constexpr size_t kN = 4 + 3 * 2;   // leaf elements, then up to three interior tensors
struct HookRec { int id; std::vector<double> v; Sh s; bool defined; };
struct World;
struct HookCtx { World* w; int id; Tensor unreg; int64_t hid; };
struct Reg_ { int node; int id; int64_t hid; bool once; std::unique_ptr<HookCtx> ctx; };
struct Node { Tensor t; DT d; unsigned reach; size_t slot; std::string name; };
struct World {
  std::vector<Node> n;                       // 0,1: leaves a, b
  bool has[2] = {false, false}; RT g[2];     // leaf gradients of the model
  std::vector<Reg_> hooks; int nextHook = 0;
  std::vector<HookRec> log;
  Tensor G; RT gv;                           // a gradient tensor the caller keeps
  int built = 0;
};
void hookFn(void* p, Tensor& t) {
  auto* h = (HookCtx*)p;
  HookRec r; r.id = h->id; r.defined = t.defined();
  if (r.defined) { r.v = rawValues(t); r.s = shapeOf(t); }
  h->w->log.push_back(std::move(r));
  if (h->unreg.defined()) h->unreg.unregisterHook(h->hid);
}
const RT& leafInit(int k) { static const RT a(Sh{2}, {0.5, 1.5}), b(Sh{2}, {2, -0.75}); return k ? b : a; }

std::vector<double> gradWrt(const DT& y, const RT& g, size_t base, size_t n) {
  std::vector<double> o(n, 0);
  for (size_t j = 0; j < n; j++) for (size_t i = 0; i < y.e.size(); i++) o[j] += g.v[i] * y.e[i].d[base + j];
  return o;
}
void check(Ctx& c, World& w, const char* op) {
  for (int l = 0; l < 2; l++) {
    const Tensor& gr = w.n[l].t.grad();
    if (!w.has[l]) { if (gr.defined()) c.fail(std::string("gradient-appeared:") + op, "%s has gradient %s before any backward reached it", w.n[l].name.c_str(), str(rawValues(gr)).c_str()); continue; }
    if (!gr.defined()) c.fail(std::string("gradient-missing:") + op, "%s has no gradient, expected %s", w.n[l].name.c_str(), str(w.g[l].v).c_str());
    expect(c, std::string("gradient:") + op, gr, w.g[l], 1e-4, 1e-4);
    if (gr.requiresGrad()) c.fail("gradient-flag", "a gradient requires gradients");
  }
  for (auto& n : w.n) if (n.t.defined()) expect(c, std::string("value-changed:") + op, n.t, n.d.val(), 1e-5, 1e-5);
  if (w.G.defined()) expect(c, std::string("caller-gradient-changed:") + op, w.G, w.gv);
}
// model + implementation of y.backward(g)
bool backward(Ctx& c, World& w, int k, const Tensor& tg, const RT& g, bool implicit) {
  Node& y = w.n[k];
  struct Exp { int id; std::vector<double> v; Sh s; };
  std::map<int, std::vector<Exp>> want;       // node -> records in order of registration
  RT before[2] = {w.g[0], w.g[1]};
  for (int l = 0; l < 2; l++) {
    if (!(y.reach >> l & 1)) continue;
    auto add = gradWrt(y.d, g, l * 2, 2);
    if (!w.has[l]) { w.g[l] = RT(Sh{2}); w.has[l] = true; }
    for (int j = 0; j < 2; j++) w.g[l].v[j] += add[j];
    for (double x : w.g[l].v) if (!(std::fabs(x) < 1e4)) { w.g[l] = before[l]; return false; }
  }
  size_t nw = 0;
  for (auto& h : w.hooks) {
    if (!(y.reach >> h.node & 1)) continue;
    Node& n = w.n[h.node];
    std::vector<double> v = h.node < 2 ? w.g[h.node].v : gradWrt(y.d, g, n.slot, n.d.e.size());
    want[h.node].push_back({h.id, v, n.d.s}); nw++;
  }
  w.log.clear();
  if (implicit) y.t.backward(); else y.t.backward(tg);
  if (w.log.size() != nw) c.fail("hook-count", "%zu hook calls, expected %zu", w.log.size(), nw);
  std::map<int, size_t> pos; std::map<int, int> nodeOf;
  for (auto& h : w.hooks) nodeOf[h.id] = h.node;
  for (auto& r : w.log) {
    if (!nodeOf.count(r.id)) c.fail("hook-unregistered-ran", "unregistered hook %d ran", r.id);
    int nd = nodeOf[r.id];
    auto& list = want[nd];
    size_t& p = pos[nd];
    if (p >= list.size() || list[p].id != r.id) c.fail("hook-order", "hook %d of %s ran out of turn", r.id, w.n[nd].name.c_str());
    if (!r.defined) c.fail("hook-gradient", "hook of %s was given no gradient", w.n[nd].name.c_str());
    if (r.s != list[p].s) c.fail("hook-gradient", "hook of %s was given shape %s", w.n[nd].name.c_str(), str(r.s).c_str());
    for (size_t i = 0; i < r.v.size(); i++) if (std::fabs(r.v[i] - list[p].v[i]) > 1e-4 + 1e-4 * std::fabs(list[p].v[i]))
      c.fail("hook-gradient", "hook of %s was given %s, expected %s", w.n[nd].name.c_str(), str(r.v).c_str(), str(list[p].v).c_str());
    p++;
  }
  for (size_t i = 0; i < w.hooks.size();) if (w.hooks[i].once && (y.reach >> w.hooks[i].node & 1)) w.hooks.erase(w.hooks.begin() + i); else i++;
  return true;
}
enum { bMulAB, bSqA, bMulLast, bAddLast, bSqLast, bSin, bSum, bReshape, bScale, NB };
const char* bn[] = {"a*b", "a*a", "last*a", "last+b", "last*last", "sin", "sum", "flatten", "last*k"};
bool build(Ctx& c, World& w, int op) {
  if (w.built >= 3) return false;
  int last = (int)w.n.size() - 1;
  if (last < 2 && op >= bMulLast) return false;
  if (last >= 2 && !w.n[last].t.defined()) return false;
  Node &a = w.n[0], &b = w.n[1], &x = w.n[last];
  Node r; DT o;
  auto mul = [](double p, double q) { return D3{p * q, q, p}; };
  switch (op) {
    case bMulAB: r.t = a.t * b.t; dBinary(a.d, b.d, o, mul); r.reach = 3; break;
    case bSqA: r.t = a.t * a.t; dBinary(a.d, a.d, o, mul); r.reach = 1; break;
    case bMulLast: if (x.d.s.empty()) return false; r.t = x.t * a.t; dBinary(x.d, a.d, o, mul); r.reach = x.reach | 1; break;
    case bAddLast: if (x.d.s.empty()) return false; r.t = x.t + b.t; dBinary(x.d, b.d, o, [](double p, double q) { return D3{p + q, 1, 1}; }); r.reach = x.reach | 2; break;
    case bSqLast: r.t = x.t * x.t; dBinary(x.d, x.d, o, mul); r.reach = x.reach; break;
    case bSin: r.t = x.t.sin(); o = dUnary(x.d, [](double p) { return std::pair<double, double>(std::sin(p), std::cos(p)); }); r.reach = x.reach; break;
    case bSum: if (x.d.s.empty()) return false; r.t = x.t.sum(); o = dSum(x.d, kN); r.reach = x.reach; break;
    case bReshape: if (x.d.s.empty()) return false; r.t = x.t.flatten(); o = x.d; r.reach = x.reach; break;
    case bScale: r.t = x.t * Scalar(-1.5f); o = dUnary(x.d, [](double p) { return std::pair<double, double>(-1.5 * p, -1.5); }); r.reach = x.reach; break;
  }
  for (auto& e : o.e) if (!(std::fabs(e.v) < 1e3)) return false;
  r.slot = 4 + 2 * w.built; r.reach |= 1u << w.n.size(); r.name = "t" + std::to_string(w.built);
  for (size_t i = 0; i < o.e.size(); i++) o.e[i].d[r.slot + i] = 1;
  r.d = std::move(o);
  w.built++; w.n.push_back(std::move(r));
  return true;
}
// everything else; each returns false when it does not apply
enum { aBackLast, aBackShared, aBackOther, aBackWithGrad, aBackLeaf, aZeroA, aZeroB, aSetA, aMutG, aMutGradA, aMutGradB, aHookA, aHookLast, aHookOnce, aUnOld, aUnNew, aDropOthers, aUpdateA, aHandle, aHookFirst, aSetUndef, aZeroByFill, aReplaceG, NA };
const char* an[] = {"last.backward", "last.backward(G)", "first.backward", "last.backward(a.grad)", "a.backward", "a.zeroGrad", "b.zeroGrad", "a.setGrad(G)", "G.fill", "a.grad.fill", "b.grad.fill", "a.hook", "last.hook", "a.hookOnce", "unhook oldest", "unhook newest", "drop other handles", "no-grad update of a", "copy of a's handle", "first.hook", "a.setGrad(none)", "a.grad.fillZero_", "G = new"};
bool act(Ctx& c, World& w, int op, int step) {
  int last = (int)w.n.size() - 1;
  bool alive = last >= 2 && w.n[last].t.defined();
  auto shaped = [&](int k) { RT g(w.n[k].d.s); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = 1 + 0.5 * (double)i + 0.25 * step; return g; };
  auto hook = [&](int node, bool once) {
    Reg_ r; r.node = node; r.id = w.nextHook++; r.once = once;
    r.ctx = std::make_unique<HookCtx>(HookCtx{&w, r.id, Tensor(), 0});
    r.hid = w.n[node].t.registerHook(hookFn, r.ctx.get());
    for (auto& h : w.hooks) if (h.node == node && h.hid == r.hid) c.fail("hook-id", "two registered hooks of %s share an id", w.n[node].name.c_str());
    r.ctx->hid = r.hid; if (once) r.ctx->unreg = w.n[node].t;
    w.hooks.push_back(std::move(r));
  };
  auto unhook = [&](size_t i) { w.n[w.hooks[i].node].t.unregisterHook(w.hooks[i].hid); w.hooks.erase(w.hooks.begin() + i); };
  switch (op) {
    case aBackLast: { if (!alive) return false; RT g = shaped(last); bool imp = w.n[last].d.s.empty(); if (imp) g.v[0] = 1; return backward(c, w, last, imp ? Tensor() : mk(g), g, imp); }
    case aBackShared: if (!alive || w.n[last].d.s != Sh{2}) return false; return backward(c, w, last, w.G, w.gv, false);
    case aBackOther: { if (last < 3 || !w.n[2].t.defined()) return false; RT g = shaped(2); return backward(c, w, 2, mk(g), g, false); }
    case aBackWithGrad: { if (!alive || w.n[last].d.s != Sh{2} || !w.has[0]) return false; RT g = w.g[0]; return backward(c, w, last, w.n[0].t.grad(), g, false); }
    case aBackLeaf: return backward(c, w, 0, w.G, w.gv, false);
    case aZeroA: w.n[0].t.zeroGrad(); w.has[0] = true; w.g[0] = RT(Sh{2}); return true;
    case aZeroB: w.n[1].t.zeroGrad(); w.has[1] = true; w.g[1] = RT(Sh{2}); return true;
    case aSetA: w.n[0].t.setGrad(w.G); w.has[0] = true; w.g[0] = w.gv; return true;
    case aMutG: w.G.fill_(Scalar(0.25f + step)); w.gv = RT(Sh{2}, 0.25 + step); return true;
    case aMutGradA: if (!w.has[0]) return false; w.n[0].t.grad().fill_(Scalar(2.f + step)); w.g[0] = RT(Sh{2}, 2.0 + step); return true;
    case aMutGradB: if (!w.has[1]) return false; w.n[1].t.grad().fill_(Scalar(3.f + step)); w.g[1] = RT(Sh{2}, 3.0 + step); return true;
    case aHookA: hook(0, false); return true;
    case aHookLast: if (!alive) return false; hook(last, false); return true;
    case aHookFirst: if (last < 3 || !w.n[2].t.defined()) return false; hook(2, false); return true;
    case aHookOnce: hook(0, true); return true;
    case aUnOld: if (w.hooks.empty() || !w.n[w.hooks[0].node].t.defined()) return false; unhook(0); return true;
    case aUnNew: if (w.hooks.size() < 2 || !w.n[w.hooks.back().node].t.defined()) return false; unhook(w.hooks.size() - 1); return true;
    case aDropOthers: if (last < 3 || !w.n[2].t.defined()) return false; for (int k = 2; k < last; k++) w.n[k].t = Tensor(); return true;
    case aUpdateA: {                       // as an optimizer does; expressions built before are not used again
      { NoGradGuard ng; w.n[0].t += Scalar(0.25f); }
      for (auto& e : w.n[0].d.e) e.v += 0.25;
      for (size_t k = 2; k < w.n.size(); k++) w.n[k].t = Tensor();
      w.hooks.erase(std::remove_if(w.hooks.begin(), w.hooks.end(), [](const Reg_& h) { return h.node >= 2; }), w.hooks.end());
      w.n.erase(w.n.begin() + 2, w.n.end());
      return true;
    }
    case aHandle: { Tensor t = w.n[0].t; w.n[0].t = t; return true; }
    case aSetUndef: if (!w.has[0]) return false; w.n[0].t.setGrad(Tensor()); w.has[0] = false; w.g[0] = RT(); return true;
    case aZeroByFill: if (!w.has[0]) return false; w.n[0].t.grad().fillZero_(); w.g[0] = RT(Sh{2}); return true;
    case aReplaceG: w.gv = RT(Sh{2}, {0.5 + step, -1}); w.G = mk(w.gv); return true;
  }
  return false;
}
uint64_t hash(World& w) {
  uint64_t h = 1;
  auto q = [&](double x) { h = mix(h, (uint64_t)(int64_t)std::llround(x * 4096)); };
  for (int l = 0; l < 2; l++) { h = mix(h, w.has[l]); for (double x : w.g[l].v) q(x); for (auto& e : w.n[l].d.e) q(e.v); }
  for (auto& n : w.n) { h = mix(h, n.reach * 2 + n.t.defined()); for (auto& e : n.d.e) q(e.v); }
  for (auto& k : w.hooks) h = mix(h, k.node * 2 + k.once);
  for (double x : w.gv.v) q(x);
  return h;
}
void histories(Ctx& c, const std::vector<int>& bs, const std::vector<int>& as, int depth, bool seedGraph) {
  auto up = std::make_unique<World>(); World& w = *up;
  for (int l = 0; l < 2; l++) {
    Node n; n.t = mk(leafInit(l), DType::Float32, true); n.d = dLeaf(leafInit(l), l * 2, kN); n.reach = 1u << l; n.slot = l * 2; n.name = l ? "b" : "a";
    w.n.push_back(std::move(n));
  }
  w.gv = RT(Sh{2}, {1.5, -0.5}); w.G = mk(w.gv);
  if (seedGraph) { build(c, w, c.pick({bMulAB, bSqA})); c.desc("%s;", bn[0]); }
  int nb = 0;
  for (int s = 0; s < depth; s++) {
    int k = c.pick((int)(bs.size() + as.size()));
    bool isB = k < (int)bs.size(); int op = isB ? bs[k] : as[k - bs.size()];
    const char* nm = isB ? bn[op] : an[op];
    if (s == depth - 1 && isB) c.skip();
    c.desc("%s;", nm); c.site(nm);
    if (!(isB ? build(c, w, op) : act(c, w, op, s))) c.skip();
    if (!isB && (op <= aBackLeaf)) nb++;
    check(c, w, nm);
    c.transition(); c.state(hash(w));
  }
  c.trace(); c.outcome(hash(w));
  if (nb) c.nontrivial();
}
std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }
void fWide(Ctx& c) { static auto b = upto(NB), a = upto(NA); histories(c, b, a, c.thorough() ? 5 : 4, false); }
void fCore(Ctx& c) { histories(c, {bMulAB, bMulLast, bSum}, {aBackLast, aBackShared, aBackOther, aZeroA, aMutG, aHookA, aUnOld, aMutGradA}, c.thorough() ? 7 : 6, false); }
void fHooks(Ctx& c) { histories(c, {bSqLast}, {aBackLast, aHookA, aHookLast, aHookFirst, aHookOnce, aUnOld, aUnNew}, c.thorough() ? 8 : 6, true); }
void fAccum(Ctx& c) { histories(c, {bMulAB, bAddLast}, {aBackLast, aBackOther, aBackWithGrad, aZeroA, aUpdateA, aSetA}, c.thorough() ? 8 : 6, true); }
struct Reg { Reg() {
  add("wide", "every history of 4 (5) steps over 9 ways to build an expression and 23 actions", fWide, 3);
  add("core", "every history of 6 (7) steps over building, backward in three forms, zeroing, hooks and writes into gradients", fCore, 3);
  add("hooks", "every history of 6 (8) steps registering and unregistering hooks on leaves and interior tensors", fHooks, 3);
  add("accumulate", "every history of 6 (8) steps of repeated and overlapping backward calls, zeroing and updates", fAccum, 3);
} } reg;
}  // namespace
