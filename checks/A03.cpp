// A03: recording: every operation in and out of no-grad scopes, every nesting, every interleaving of two threads.
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include "refops.h"
#include "Functions.h"
#include "optable.h"
using namespace mc;

namespace {
void judge(Ctx& c, const char* n, TL& out, bool expectGrad) {
  for (size_t k = 0; k < out.size(); k++) {
    bool fl = out[k].dtype() == DType::Float32;
    if (out[k].requiresGrad() != (expectGrad && fl))
      c.fail(std::string("requires-grad:") + n, "result %zu of %s %s gradients", k, n, out[k].requiresGrad() ? "requires" : "does not require");
    if (out[k].requiresGrad()) { if (out[k].isLeaf() || !out[k].gradFn()) c.fail(std::string("no-graph:") + n, "result %zu of %s requires gradients without a graph", k, n); }
  }
}
void same(Ctx& c, const char* n, TL& a, const std::vector<RT>& w) {
  if (a.size() != w.size()) c.fail(std::string("results:") + n, "%zu results instead of %zu", a.size(), w.size());
  for (size_t k = 0; k < a.size(); k++) {
    if (shapeOf(a[k]) != w[k].s) c.fail(std::string("shape:") + n, "shape %s in this mode, %s outside", str(shapeOf(a[k])).c_str(), str(w[k].s).c_str());
    auto g = rawValues(a[k]);
    for (size_t i = 0; i < g.size(); i++) if (!(g[i] == w[k].v[i] || (g[i] != g[i] && w[k].v[i] != w[k].v[i]))) c.fail(std::string("value:") + n, "element %zu is %g in this mode, %g outside", i, g[i], w[k].v[i]);
  }
}
void fOps(Ctx& c) {
  const Op& op = ops()[c.pick((int)ops().size())];
  int mask = c.pick(1 << op.in), chain = c.pick(2);   // chain: inputs are results of other operations
  std::string nm = op.n;
  c.desc("%s, requiring inputs %d%s", op.n, mask, chain ? ", inputs computed" : ""); c.site(op.n);
  TL leaf, x;
  for (int k = 0; k < 3; k++) {
    leaf.push_back(mk(val(k), DType::Float32, k < op.in && (mask >> k & 1)));
    x.push_back(chain ? leaf[k] * Scalar(1.f) : leaf[k]);
  }
  auto inputsOk = [&](const char* w) {
    for (int k = 0; k < 3; k++) {
      bool r = k < op.in && (mask >> k & 1);
      if (x[k].requiresGrad() != r || leaf[k].requiresGrad() != r) c.fail("input-flag:" + nm, "input %d %s gradients %s", k, r ? "no longer requires" : "now requires", w);
      if (r && (!leaf[k].isLeaf() || x[k].isLeaf() == (chain == 1))) c.fail("input-graph:" + nm, "input %d changed its place in the graph %s", k, w);
      expect(c, "input-value:" + nm, x[k], val(k));
    }
  };
  TL out = op.f(x);
  judge(c, op.n, out, mask != 0); inputsOk("after the recorded call");
  std::vector<RT> ref; for (auto& t : out) ref.push_back(rt(t));
  TL o2, o3, o4, o5;
  {
    NoGradGuard g;
    o2 = op.f(x); judge(c, op.n, o2, false); inputsOk("in the scope");
    { NoGradGuard g2; o3 = op.f(x); judge(c, op.n, o3, false); }
    o4 = op.f(x); judge(c, op.n, o4, false);
  }
  o5 = op.f(x); judge(c, op.n, o5, mask != 0); inputsOk("after the scope");
  judge(c, op.n, o2, false); judge(c, op.n, out, mask != 0);
  same(c, op.n, o2, ref); same(c, op.n, o3, ref); same(c, op.n, o4, ref); same(c, op.n, o5, ref);
  // results of the scope are constants for what follows
  if (o2[0].dtype() == DType::Float32) {
    Tensor y = o2[0] * Scalar(2.f);
    if (y.requiresGrad()) c.fail("graph:" + nm, "an expression over a result of the scope requires gradients");
    Tensor k = mk(RT(shapeOf(o2[0]), 1.0), DType::Float32, true);
    Tensor z = o2[0] * k; z.backward(mk(RT(shapeOf(z), 1.0)));
    expect(c, "constant-gradient:" + nm, k.grad(), ref[0]);
    for (int q = 0; q < 3; q++) if (leaf[q].requiresGrad() && leaf[q].grad().defined()) c.fail("graph:" + nm, "a gradient reached the inputs of an operation made in the scope");
  }
  c.outcome(mix(hashRT(ref[0]), mask)); if (mask) c.nontrivial();
}
// nesting: enter / leave / apply; leaf creation inside keeps its flag
void fNest(Ctx& c) {
  std::vector<std::unique_ptr<NoGradGuard>> st;
  Tensor a = mk(val(0), DType::Float32, true), b = mk(val(1));
  int depth = c.thorough() ? 9 : 7; bool in = false;
  struct Pop { decltype(st)& s; ~Pop() { while (!s.empty()) s.pop_back(); } } pop{st};
  Tensor last = a; bool lastReq = true;
  for (int s = 0; s < depth; s++) {
    int k = c.pick(5);
    static const char* kn[] = {"enter", "leave", "apply", "create", "block"};
    c.desc("%s;", kn[k]); c.site(kn[k]);
    if (k == 0) { if (st.size() >= 4) c.skip(); st.push_back(std::make_unique<NoGradGuard>()); in = true; }
    else if (k == 1) { if (st.empty()) c.skip(); st.pop_back(); }
    else if (k == 2) {
      Tensor y = last + b; bool want = lastReq && st.empty();
      if (y.requiresGrad() != want) c.fail("nest", "the result %s gradients at nesting depth %zu", y.requiresGrad() ? "requires" : "does not require", st.size());
      if (want && y.isLeaf()) c.fail("nest", "no graph");
      if ((a * b).requiresGrad() != st.empty()) c.fail("nest", "wrong mode at nesting depth %zu", st.size());
      last = y; lastReq = want;
    } else if (k == 3) {
      Tensor t = mk(val(1), DType::Float32, true);
      if (!t.requiresGrad() || !t.isLeaf()) c.fail("create", "a tensor created to require gradients does not");
      last = t; lastReq = true;
    } else {
      WithNoGrad { if ((a * b).requiresGrad()) c.fail("block", "recorded inside the block"); }
    }
    if (NoGradGuard::isGradEnabled() != st.empty()) c.fail("mode", "the mode is wrong at nesting depth %zu", st.size());
    c.outcome(st.size() * 16 + k * 2 + lastReq);
  }
  if (in) c.nontrivial();
}
// threads in lockstep: one persistent worker per side, steps handed over one at a time
struct Worker {
  std::thread th; std::mutex m; std::condition_variable cv; int cmd = -1; bool done = false; bool mode = false, req = false;
  std::vector<std::unique_ptr<NoGradGuard>> st;
  Worker() { th = std::thread([this] { run(); }); step(8); }
  ~Worker() { step(9); th.join(); }
  void run() {
    Tensor a, b;   // library calls take place within steps only: the threads never run at the same time
    for (;;) {
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [&] { return cmd >= 0; });
      int k = cmd; cmd = -1;
      if (k == 8) { a = mk(val(0), DType::Float32, true); b = mk(val(1)); }
      else if (k == 0) st.push_back(std::make_unique<NoGradGuard>());
      else if (k == 1) st.pop_back();
      else if (k == 2) { Tensor y = (a * b).sin(); req = y.requiresGrad(); }
      else if (k == 9) { while (!st.empty()) st.pop_back(); a = Tensor(); b = Tensor(); }
      mode = NoGradGuard::isGradEnabled();
      done = true; cv.notify_all();
      if (k == 9) return;
    }
  }
  void step(int k) {
    std::unique_lock<std::mutex> l(m);
    done = false; cmd = k; cv.notify_all();
    cv.wait(l, [&] { return done; });
  }
};
void fThreads(Ctx& c) {
  int len = c.thorough() ? 4 : 3;
  int main_ = c.pick(2);              // the main thread is inside a scope all along
  std::unique_ptr<NoGradGuard> g; if (main_) g = std::make_unique<NoGradGuard>();
  Worker w[2];
  int depth[2] = {0, 0}, left[2] = {len, len}; bool any = false;
  c.desc("main %s;", main_ ? "in a scope" : "outside");
  for (int s = 0; s < 2 * len; s++) {
    int t = left[0] == 0 ? 1 : left[1] == 0 ? 0 : c.pick(2);
    if (s == 0 && t == 1) c.skip();   // symmetric
    int k = c.pick(3);
    static const char* kn[] = {"enter", "leave", "apply"};
    if (k == 1 && depth[t] == 0) c.skip();
    left[t]--;
    c.desc("T%d.%s;", t, kn[k]); c.site("thread");
    w[t].step(k);
    if (k == 0) { depth[t]++; any = true; } else if (k == 1) depth[t]--;
    if (k == 2 && w[t].req != (depth[t] == 0)) c.fail("thread-op", "thread %d: the result %s gradients at its nesting depth %d (other thread %d, main %d)", t, w[t].req ? "requires" : "does not require", depth[t], depth[!t], main_);
    if (w[t].mode != (depth[t] == 0)) c.fail("thread-mode", "thread %d has the wrong mode", t);
    if (NoGradGuard::isGradEnabled() != !main_) c.fail("thread-main", "the main thread's mode changed");
    c.transition();
  }
  c.outcome(depth[0] * 8 + depth[1]);
  if (any) c.nontrivial();
}
struct Reg { Reg() {
  add("ops", "every operation x every set of gradient-requiring inputs x leaf or computed inputs, outside, inside, doubly inside and after a scope", fOps, 2);
  add("nest", "every sequence of 7 (9) enter, leave, apply, create and block steps", fNest, 4);
  add("threads", "every interleaving of two threads' scripts of 3 (4) enter, leave and apply steps, with the main thread inside or outside a scope", fThreads, 3);
} } reg;
}  // namespace
