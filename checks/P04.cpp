// P04: data-parallel wrappers on several replicas (threads in lockstep, one running at a time) over a simulated
// collective backend whose operations complete at any moment in any order.
#include <numeric>
#include <semaphore.h>
#include <unistd.h>
#include <thread>
#include "../mc/tt.h"
#include "Distributed/BackendNCCL.h"
#include "Distributed/DistributedModule.h"
using namespace tinytorch::distributed;
using namespace mc;

// --- lockstep: the explorer decides which replica runs and when a pending operation completes --------
struct Pending { const char* op; int root, red; std::vector<Tensor> bufs; std::vector<std::shared_ptr<Work>> works; int issued = 0; bool done = false; int64_t numel = 0; DType dt{}; };
struct MockWork;
struct Sem { sem_t s; Sem(int v) { sem_init(&s, 0, v); } void acquire() { while (sem_wait(&s)) {} } void release() { sem_post(&s); } };
struct Thread { Sem go{0}; Sem* back = nullptr; std::function<void()> job; };
static std::vector<Thread*> pool;
static Sem* toSched = new Sem(0);
struct Coop {
  mc::Ctx& c;
  int n, devLeft;
  bool all;                 // no bound on deviations
  enum St { New, Ready, Waiting, Done };
  std::vector<St> st;
  std::vector<std::function<bool()>> ready;
  std::string failKey, failMsg;
  std::vector<Pending> ops;         // by sequence number
  std::vector<int> issuedBy;        // operations issued by each replica
  std::string trace;
  bool exploring = true;
  int maxPending = 0, completions = 0;
  Coop(mc::Ctx& c, int n, int dev, bool all) : c(c), n(n), devLeft(dev), all(all), st(n, Done), ready(n), issuedBy(n, 0) {}
  bool failed() { return !failKey.empty(); }
  // called by replica r
  void toScheduler(int r) { toSched->release(); pool[r]->go.acquire(); }
  void point(int r) { st[r] = Ready; toScheduler(r); }
  void block(int r, std::function<bool()> f) { st[r] = Waiting; ready[r] = std::move(f); toScheduler(r); st[r] = Ready; }
  void fail(const std::string& k, const std::string& msg) { if (failKey.empty()) { failKey = k; failMsg = msg; } }
  void run(std::function<void(int)> body) {
    while ((int)pool.size() < n) {
      pool.push_back(new Thread);
      std::thread([t = pool.back()] { for (;;) { t->go.acquire(); t->job(); t->back->release(); } }).detach();
    }
    for (int r = 0; r < n; r++) { st[r] = Ready; pool[r]->back = toSched; pool[r]->job = [this, r, body] { body(r); st[r] = Done; }; }
    int last = 0;
    for (;;) {
      bool anyLeft = false;
      std::vector<int> opt;   // 0..n-1 replicas, n+k completion of operation k
      for (int k = 0; k < n; k++) {
        int r = (last + k) % n;
        if (st[r] != Done) anyLeft = true;
        if (st[r] == Ready || (st[r] == Waiting && ready[r]())) opt.push_back(r);
      }
      int pend = 0;
      for (int k = 0; k < (int)ops.size(); k++) if (!ops[k].done && ops[k].issued == n) { opt.push_back(n + k); pend++; }
      maxPending = std::max(maxPending, pend);
      if (!anyLeft && pend == 0) break;
      if (opt.empty()) {
        std::string w;
        for (int r = 0; r < n; r++) if (st[r] != Done) w += " replica " + std::to_string(r) + " (" + std::to_string(issuedBy[r]) + " operations issued)";
        fail("deadlock", "waiting for ever:" + w + report());
        break;
      }
      int k = 0;
      if (exploring && (all || devLeft > 0) && opt.size() > 1) k = c.pick((int)opt.size());
      c.transition();
      if (k) { devLeft--; trace += opt[k] < n ? " ->" + std::to_string(opt[k]) : " complete#" + std::to_string(opt[k] - n); }
      if (opt[k] >= n) { complete(opt[k] - n); continue; }
      last = opt[k];
      pool[last]->go.release();
      toSched->acquire();
      if (failed()) break;
    }
    if (failed()) { pool.clear(); toSched = new Sem(0); c.fail(failKey, "%s", failMsg.c_str()); }   // the threads stay where they are
  }
  std::string report() {
    std::string s = "\noperations:";
    for (auto& o : ops) s += std::string(" ") + o.op + "(" + std::to_string(o.numel) + " x " + dtName(o.dt) + ")" + (o.done ? "" : " pending");
    return s + "\nschedule:" + trace;
  }
  std::shared_ptr<Work> issue(int r, const BackendNCCL::Call& k);
  void complete(int i);
};
static Coop* G = nullptr;

struct MockWork : Work {
  Coop* g; int r;
  bool fin = false;
  MockWork(Coop* g, int r) : Work(r, OpType::ALL_REDUCE), g(g), r(r) {}
  bool isCompleted() override { g->point(r); return fin; }
  bool wait(std::chrono::milliseconds) override { if (!fin) g->block(r, [this] { return fin; }); return true; }
};

static double readAt(Tensor& t, int64_t i) {
  switch (t.dtype()) {
    case DType::Float32: return t.dataPtr<float>()[i];
    case DType::Float16: return (float)t.dataPtr<Half>()[i];
    default: return (float)t.dataPtr<BFloat16>()[i];
  }
}
static void writeAt(Tensor& t, int64_t i, double v) {
  switch (t.dtype()) {
    case DType::Float32: t.dataPtr<float>()[i] = (float)v; break;
    case DType::Float16: t.dataPtr<Half>()[i] = Half((float)v); break;
    default: t.dataPtr<BFloat16>()[i] = BFloat16((float)v); break;
  }
}
std::shared_ptr<Work> Coop::issue(int r, const BackendNCCL::Call& k) {
  point(r);
  int i = issuedBy[r]++;
  if (i == (int)ops.size()) {
    Pending p; p.op = k.op; p.root = k.root; p.red = k.red; p.bufs.resize(n); p.works.resize(n);
    p.numel = k.tensors->at(0).numel(); p.dt = k.tensors->at(0).dtype();
    ops.push_back(std::move(p));
  }
  Pending& p = ops[i];
  auto w = std::make_shared<MockWork>(this, r);
  auto& t = k.tensors->at(0);
  if (strcmp(p.op, k.op) || p.root != k.root || p.red != k.red || p.numel != t.numel() || p.dt != t.dtype() || k.tensors->size() != 1) {
    fail("different-operations", "operation " + std::to_string(i) + " of replica " + std::to_string(r) + " is " + k.op + "(" + std::to_string(t.numel()) + " x " + dtName(t.dtype()) + "), of another replica " + p.op + "(" + std::to_string(p.numel) + " x " + dtName(p.dt) + ")" + report());
    block(r, [] { return false; });
  }
  if (strcmp(k.op, "allReduce") && strcmp(k.op, "broadcast")) { fail("unexpected-operation", k.op); block(r, [] { return false; }); }
  p.bufs[r] = t; p.works[r] = w; p.issued++;
  return w;
}
void Coop::complete(int i) {
  Pending& p = ops[i];
  for (int64_t e = 0; e < p.numel; e++) {
    double v = 0;
    if (!strcmp(p.op, "broadcast")) v = readAt(p.bufs[p.root], e);
    else {
      for (int r = 0; r < n; r++) v += readAt(p.bufs[r], e);
      if (p.red == AVG) v /= n;
    }
    for (int r = 0; r < n; r++) writeAt(p.bufs[r], e, v);
  }
  p.done = true;
  completions++;
  for (auto& w : p.works) static_cast<MockWork*>(w.get())->fin = true;
  p.bufs.clear(); p.works.clear();
}

// --- model ---------------------------------------------------------------------------------------
static int64_t num(const Sh& s) { return numelOf(s); }
// forward: sum over the parameters, in the given order, of (p*w).sum() or (p*p*w).sum(); w comes in the input's place
struct Net : nn::Module {
  std::vector<Tensor> p;
  std::vector<Tensor> w;       // of this pass
  std::vector<int> order, kind;
  bool bare = false;           // the output is the sum of the parameters themselves (all of one shape)
  std::vector<Tensor> sums;    // one per element type other than float (conversions are not differentiable)
  Tensor forward(const Tensor& in) override {
    Tensor y = in;
    sums.clear();
    for (int i : order) {
      if (bare) { y = y + p[i]; continue; }
      Tensor s;
      switch (kind[i]) {
        case 0: s = (p[i] * w[i]).sum(); break;
        case 1: s = (p[i] * p[i] * w[i]).sum(); break;               // used twice
        case 2: s = (p[i] * w[i]).sum() + (p[i] * w[i]).sum(); break;    // used in two places
        default: { Tensor q = p[i] * w[i]; for (int k = 0; k < 5; k++) q = q * 1.f; s = q.sum(); break; }   // deep
      }
      if (s.dtype() == y.dtype()) { y = y + s; continue; }
      bool found = false;
      for (auto& o : sums) if (o.dtype() == s.dtype()) { o = o + s; found = true; break; }
      if (!found) sums.push_back(s);
    }
    return y;
  }
 protected:
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override {
    std::vector<std::pair<std::string, TensorPtr>> r;
    for (size_t i = 0; i < p.size(); i++) r.emplace_back("p" + std::to_string(i), &p[i]);
    return r;
  }
};
struct Spec { Sh shape; DType dt = DType::Float32; bool train = true; };
static std::vector<double> values(Tensor& t) { std::vector<double> v; for (int64_t i = 0; i < t.numel(); i++) v.push_back(readAt(t, i)); return v; }
static Tensor make(const Sh& s, DType dt, std::function<double(int64_t)> f) {
  Tensor t = Tensor::zeros(s, Options(DeviceType::CPU, dt));
  for (int64_t i = 0; i < t.numel(); i++) writeAt(t, i, f(i));
  return t;
}
static double initial(int r, int i, int64_t e) { return 1 + (r * 3 + i * 2 + e) % 5; }
static double weight(int r, int it, int i, int64_t e) { return 1 + (r * 5 + it * 2 + i * 3 + e * (r + 1)) % 7; }
static double tol(DType t) { return t == DType::Float32 ? 1e-5 : t == DType::Float16 ? 4e-3 : 3e-2; }

struct Replica {
  std::shared_ptr<DistributedProcessGroup> g;
  Net net;
  std::unique_ptr<DistributedModule> dm;
  std::vector<std::vector<double>> acc;   // gradient this replica must hold
};
struct World {
  mc::Ctx& c;
  int n;
  Coop k;
  std::vector<Spec> spec;
  std::vector<Replica> R;
  int root = 0;
  int64_t cap = kDefaultBucketBytesCap;
  std::vector<std::vector<std::vector<double>>> local;   // [replica][param][element] of this pass
  struct Clear { ~Clear() { BackendNCCL::handler = nullptr; G = nullptr; } } clear;
  World(mc::Ctx& c, int n, std::vector<Spec> s, int dev, bool all) : c(c), n(n), k(c, n, dev, all), spec(std::move(s)), R(n), local(n) {
    G = &k;
    BackendNCCL::handler = [](BackendNCCL& b, BackendNCCL::Call call) { return G->issue(b.getRank(), call); };
  }
  void build(int r) {   // without wrapping
    auto& x = R[r];
    x.g = std::make_shared<DistributedProcessGroup>();
    if (!x.g->initProcessGroup(NCCL, "file://" + mc::scratchDir() + "/pg", r, n, std::chrono::milliseconds(1000), false)) { k.fail("init", "group not set up"); return; }
    x.g->getProcessGroup()->setBackend(DeviceType::CPU, NCCL, std::nullopt);
    for (size_t i = 0; i < spec.size(); i++) {
      x.net.p.push_back(make(spec[i].shape, spec[i].dt, [&](int64_t e) { return initial(r, (int)i, e); }));
      x.net.p.back().setRequiresGrad(spec[i].train);
      x.net.order.push_back((int)i);
      x.net.kind.push_back(0);
    }
    x.acc.assign(spec.size(), {});
  }
  void wrap(int r) {
    R[r].dm = std::make_unique<DistributedModule>(R[r].net, R[r].g, root, cap);
    // parameters start equal to the root's
    for (size_t i = 0; i < spec.size(); i++)
      for (int64_t e = 0; e < num(spec[i].shape); e++)
        if (readAt(R[r].net.p[i], e) != initial(root, (int)i, e)) { k.fail("start", "after wrapping, parameter " + std::to_string(i) + " of replica " + std::to_string(r) + " differs from replica " + std::to_string(root) + "'s" + k.report()); return; }
  }
  // one forward and backward pass of replica r
  void pass(int r, int it, bool wrapped = true, int backwards = 1) {
    auto& x = R[r];
    x.net.w.clear();
    local[r].assign(spec.size(), {});
    for (size_t i = 0; i < spec.size(); i++) {
      x.net.w.push_back(make(spec[i].shape, spec[i].dt, [&](int64_t e) { return weight(r, it, (int)i, e); }));
      for (int64_t e = 0; e < num(spec[i].shape); e++) {
        double w = weight(r, it, (int)i, e), p = readAt(x.net.p[i], e);
        local[r][i].push_back((x.net.kind[i] == 1 ? 2 * p * w : x.net.kind[i] == 2 ? 2 * w : w));
      }
    }
    Tensor in = Tensor::zeros({}, Options(DeviceType::CPU, DType::Float32));
    Tensor out = wrapped ? x.dm->forward(in) : x.net.forward(in);
    double want = 0;
    for (size_t i = 0; i < spec.size(); i++) for (int64_t e = 0; e < num(spec[i].shape); e++) { double w = weight(r, it, (int)i, e), p = readAt(x.net.p[i], e); want += x.net.kind[i] == 1 ? p * p * w : x.net.kind[i] == 2 ? 2 * p * w : p * w; }
    double worst = 1e-5; for (auto& s : spec) worst = std::max(worst, tol(s.dt));
    double got = out.item<float>();
    for (auto& o : x.net.sums) got += readAt(o, 0);
    if (std::abs(got - want) > worst * (1 + std::abs(want)) * 4) { k.fail("forward", "forward returned " + std::to_string(got) + ", expected " + std::to_string(want)); return; }
    for (int b = 0; b < backwards; b++) {
      for (auto& o : x.net.sums) if (o.requiresGrad()) o.backward();
      if (out.requiresGrad()) out.backward();
    }
  }
  // what every replica must hold after all have done the pass (b: how many backward calls)
  void account(int it, bool zeroed, int backwards = 1) {
    (void)it;
    for (size_t i = 0; i < spec.size(); i++) {
      if (!spec[i].train) continue;
      std::vector<double> mean(num(spec[i].shape), 0);
      for (int b = 0; b < backwards; b++)
        for (int64_t e = 0; e < num(spec[i].shape); e++) { double s = 0; for (int r = 0; r < n; r++) s += local[r][i][e]; mean[e] += s / n; }
      for (int r = 0; r < n; r++) {
        if (zeroed || R[r].acc[i].empty()) R[r].acc[i].assign(mean.size(), 0);
        for (size_t e = 0; e < mean.size(); e++) R[r].acc[i][e] += mean[e];
      }
    }
  }
  void compare(const char* when) {
    for (int r = 0; r < n; r++)
      for (size_t i = 0; i < spec.size(); i++) {
        if (!spec[i].train) { if (R[r].net.p[i].requiresGrad()) c.fail("frozen-gradient", "%s: frozen parameter %zu of replica %d requires a gradient%s", when, i, r, k.report().c_str()); continue; }
        auto& g = R[r].net.p[i].grad();
        if (num(spec[i].shape) == 0) continue;
        if (!g.defined()) c.fail("no-gradient", "%s: parameter %zu of replica %d has no gradient%s", when, i, r, k.report().c_str());
        if (shapeOf(g) != spec[i].shape || g.dtype() != spec[i].dt) c.fail("gradient-form", "%s: gradient %zu of replica %d has shape %s %s", when, i, r, str(shapeOf(g)).c_str(), dtName(g.dtype()));
        if (g.requiresGrad()) c.fail("gradient-form", "%s: gradient %zu requires grad", when, i);
        auto got = values(const_cast<Tensor&>(g));
        for (size_t e = 0; e < got.size(); e++)
          if (!(std::abs(got[e] - R[r].acc[i][e]) <= tol(spec[i].dt) * (1 + std::abs(R[r].acc[i][e]))))
            c.fail("gradient", "%s: replica %d, parameter %zu: gradient %s, the mean over the replicas is %s%s", when, r, i, mc::str(got).c_str(), mc::str(R[r].acc[i]).c_str(), k.report().c_str());
      }
    for (auto& o : k.ops) if (!o.done) c.fail("left-over", "%s: an operation is still pending%s", when, k.report().c_str());
  }
  void finish() { k.run([&](int r) { R[r].dm.reset(); }); for (int r = 0; r < n; r++) R[r].g->destroyProcessGroup(); c.outcome(mix(k.ops.size(), k.maxPending)); }
};

static const std::vector<std::vector<Sh>>& layouts() {
  static const std::vector<std::vector<Sh>> l = {{{1}}, {{2}, {3}}, {{3}, {1}, {2}}, {{2, 2}, {1}, {3}}, {{1}, {1}, {1}, {1}}, {{0}, {2}, {1}}, {{2}, {0}, {1}, {0}}, {{}, {2}, {}}, {{4}, {1}, {4}, {1}}, {{0}}, {{5}, {2}, {2}, {2}, {2}}};
  return l;
}
static std::vector<Spec> specs(const std::vector<Sh>& l) { std::vector<Spec> s; for (auto& x : l) { Spec p; p.shape = x; s.push_back(p); } return s; }
static std::vector<int> permutation(int n, int k) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); while (k--) std::next_permutation(p.begin(), p.end()); return p; }
static int fact(int n) { int f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static std::string describe(const std::vector<Spec>& s) { std::string t; for (auto& p : s) t += str(p.shape) + (p.dt == DType::Float32 ? "" : dtName(p.dt)) + (p.train ? " " : "(frozen) "); return t; }

// every list of sizes, bucket limit and order of use
static void buckets(mc::Ctx& c) {
  int n = c.pick({1, 2, 3});
  auto s = specs(layouts()[c.pick((int)layouts().size())]);
  int64_t cap = c.pick({1, 4, 8, 12, 16, 20, 1 << 20});
  int m = (int)s.size();
  int perm = c.pick(std::min(fact(m), c.thorough() ? 120 : 24));
  int kind = n == 1 || c.thorough() ? c.pick(4) : perm % 4;
  c.desc("%d replicas, parameters %s, bucket limit %d bytes, order %d, kind %d", n, describe(s).c_str(), (int)cap, perm, kind);
  if (n > 1 && m > 1) c.nontrivial();
  World w(c, n, s, n == 1 ? 0 : 1, false);
  w.cap = cap;
  if (n == 3 && !c.thorough()) w.k.devLeft = m <= 3 ? 1 : 0;
  w.k.run([&](int r) { w.build(r); w.R[r].net.order = permutation(m, perm); if (m > 1) w.R[r].net.kind[perm % m] = kind; w.wrap(r); w.pass(r, 0); });
  w.account(0, true);
  w.compare("after backward");
  w.finish();
}

// every schedule of replicas and completions, without bound
static void schedules(mc::Ctx& c) {
  int n = c.pick({2, 3});
  int L = c.pick(n == 2 ? 3 : 1);
  static const std::vector<std::vector<Sh>> ls = {{{2}, {1}}, {{1}, {2}, {1}}, {{2}, {0}, {1}, {1}}};
  auto s = specs(ls[L]);
  int64_t cap = c.pick({4, 8});
  int m = (int)s.size();
  int pa = c.pick(fact(m)), pb = c.pick(fact(m));
  if (!c.thorough() && m > 2 && pa > 2 && pb != pa && pb) c.skip();
  if (!c.thorough() && m > 3 && (pa || pb > 5)) c.skip();
  c.desc("%d replicas, parameters %s, limit %d, orders %d and %d, every schedule", n, describe(s).c_str(), (int)cap, pa, pb);
  c.nontrivial();
  World w(c, n, s, m < 3 && n == 2 ? 0 : c.thorough() ? 4 : m > 3 || (pa && pb > 1) ? 2 : 3, m < 3 && n == 2);
  w.cap = cap;
  w.k.exploring = false;
  w.k.run([&](int r) { w.build(r); w.R[r].net.order = permutation(m, r ? pb : pa); w.wrap(r); });
  w.k.exploring = true;
  w.k.run([&](int r) { w.pass(r, 0); });
  w.account(0, true);
  w.compare("after backward");
  w.finish();
}

// several iterations: zeroing or accumulating, training steps, evaluation passes, more forwards than backwards
static void histories(mc::Ctx& c) {
  int n = c.pick({1, 2});
  int L = c.pick(3);
  static const std::vector<std::vector<Sh>> ls = {{{2}, {1}}, {{1}, {2}, {1}}, {{2}, {0}, {1}}};
  auto s = specs(ls[L]);
  int64_t cap = c.pick({4, 8, 1000});
  int m = (int)s.size();
  int frozen = c.pick(m + 1);
  if (frozen) s[frozen - 1].train = false;
  int steps = c.thorough() ? 4 : 3;
  c.desc("%d replicas, parameters %s, limit %d:", n, describe(s).c_str(), (int)cap);
  c.nontrivial();
  World w(c, n, s, 0, false);
  w.cap = cap;
  w.k.run([&](int r) { w.build(r); for (int i = 0; i < m; i++) w.R[r].net.kind[i] = i % 2; w.wrap(r); });
  bool zeroed = true, anyTrain = false;
  for (auto& p : s) anyTrain = anyTrain || (p.train && num(p.shape));
  if (!anyTrain) c.skip();
  for (int it = 0; it < steps; it++) {
    int op = c.pick(7);
    static const char* names[] = {"pass", "zeroGrad", "pass in the other order", "step", "evaluation", "two backward calls", "forward thrown away"};
    c.desc(" %s", names[op]);
    switch (op) {
      case 0: case 2: case 5:
        w.k.run([&](int r) { auto o = permutation(m, 0); if (op == 2) std::reverse(o.begin(), o.end()); w.R[r].net.order = o; w.pass(r, it, true, op == 5 ? 2 : 1); });
        w.account(it, zeroed, op == 5 ? 2 : 1);
        zeroed = false;
        break;
      case 1: w.k.run([&](int r) { w.R[r].dm->zeroGrad(); }); zeroed = true; for (auto& x : w.R) for (size_t i = 0; i < s.size(); i++) if (s[i].train && !x.acc[i].empty()) x.acc[i].assign(x.acc[i].size(), 0);
        break;
      case 3:
        w.k.run([&](int r) { NoGradGuard g; for (int i = 0; i < m; i++) if (s[i].train && num(s[i].shape) && w.R[r].net.p[i].grad().defined()) for (int64_t e = 0; e < num(s[i].shape); e++) writeAt(w.R[r].net.p[i], e, readAt(w.R[r].net.p[i], e) - 0.5 * readAt(const_cast<Tensor&>(w.R[r].net.p[i].grad()), e)); });
        break;
      case 4: w.k.run([&](int r) { NoGradGuard g; w.R[r].dm->eval(); w.R[r].net.w.clear(); for (int i = 0; i < m; i++) w.R[r].net.w.push_back(make(s[i].shape, s[i].dt, [](int64_t) { return 1; })); w.R[r].dm->forward(Tensor::zeros({})); w.R[r].dm->train(); });
        break;
      case 6: w.k.run([&](int r) { w.R[r].net.w.clear(); for (int i = 0; i < m; i++) w.R[r].net.w.push_back(make(s[i].shape, s[i].dt, [](int64_t) { return 1; })); w.R[r].dm->forward(Tensor::zeros({})); });
        break;
    }
    bool have = false;
    for (auto& x : w.R) for (auto& a : x.acc) have = have || !a.empty();
    if (have) w.compare(names[op]);
    for (int r = 1; r < n; r++) for (int i = 0; i < m; i++) for (int64_t e = 0; e < num(s[i].shape); e++)
      if (readAt(w.R[r].net.p[i], e) != readAt(w.R[0].net.p[i], e)) c.fail("drift", "parameter %d differs between the replicas after %s", i, names[op]);
  }
  w.finish();
}

// element types, frozen parameters, roots
static void kinds(mc::Ctx& c) {
  int n = c.pick({1, 2, 3});
  int root = c.pick(n);
  static const DType T[] = {DType::Float32, DType::Float16, DType::BFloat16};
  int m = c.pick({1, 2, 3});
  std::vector<Spec> s(m);
  int mask = c.pick(1 << m);
  static const Sh shapes[] = {{3}, {2, 1}, {1}};
  for (int i = 0; i < m; i++) { s[i].shape = shapes[i]; s[i].dt = T[c.pick(3)]; s[i].train = !(mask >> i & 1); }
  int64_t cap = c.pick({2, 8, 1 << 20});
  c.desc("%d replicas, root %d, parameters %s, limit %d", n, root, describe(s).c_str(), (int)cap);
  c.nontrivial();
  if (n == 3 && !c.thorough() && cap == 8) c.skip();
  World w(c, n, s, n == 2 && m < 3 ? 1 : 0, false);
  w.cap = cap; w.root = root;
  w.k.run([&](int r) { w.build(r); w.wrap(r); w.pass(r, 0); });
  w.account(0, true);
  w.compare("after backward");
  w.k.run([&](int r) { w.pass(r, 1); });
  w.account(1, false);
  w.compare("after a second backward");
  w.finish();
}

// after the wrapper is gone the module works on its own
static void destroyed(mc::Ctx& c) {
  int n = c.pick({1, 2});
  auto s = specs(layouts()[c.pick((int)layouts().size())]);
  int m = (int)s.size();
  int64_t cap = c.pick({4, 1 << 20});
  int before = c.pick(3);    // passes before
  int again = c.flip();      // wrapped again afterwards
  c.desc("%d replicas, parameters %s, limit %d, %d passes, wrapper destroyed%s", n, describe(s).c_str(), (int)cap, before, again ? ", wrapped again" : "");
  c.nontrivial();
  World w(c, n, s, 0, false);
  w.cap = cap;
  w.k.run([&](int r) { w.build(r); w.wrap(r); });
  for (int b = 0; b < before; b++) { w.k.run([&](int r) { w.pass(r, b); }); w.account(b, b == 0); }
  if (before) w.compare("after backward");
  size_t ops = w.k.ops.size();
  w.k.run([&](int r) { w.R[r].dm.reset(); for (auto& p : w.R[r].net.p) if (p.grad().defined()) p.zeroGrad(); w.pass(r, 7, false); });
  if (w.k.ops.size() != ops) c.fail("still-reducing", "collective operations are issued although the wrapper is gone%s", w.k.report().c_str());
  for (int r = 0; r < n; r++) for (int i = 0; i < m; i++) {
    auto& g = w.R[r].net.p[i].grad();
    if (num(s[i].shape) == 0) continue;
    if (!g.defined()) c.fail("no-gradient", "no gradient without the wrapper");
    auto v = values(const_cast<Tensor&>(g));
    for (size_t e = 0; e < v.size(); e++) if (std::abs(v[e] - w.local[r][i][e]) > 1e-4) c.fail("local-gradient", "without the wrapper the gradient is %s", mc::str(v).c_str());
  }
  if (again) {
    w.k.run([&](int r) { for (int i = 0; i < m; i++) { for (int64_t e = 0; e < num(s[i].shape); e++) writeAt(w.R[r].net.p[i], e, initial(r, i, e)); if (w.R[r].net.p[i].grad().defined()) w.R[r].net.p[i].zeroGrad(); } w.wrap(r); w.pass(r, 3); });
    w.account(3, true);
    w.compare("after wrapping again");
  }
  w.finish();
}

// gradients that would share storage with one another or with the caller's
static void aliases(mc::Ctx& c) {
  int n = c.pick({1, 2, 3});
  int m = c.pick({1, 2, 3});
  std::vector<Spec> s(m);
  for (auto& p : s) p.shape = {2};
  int64_t cap = c.pick({8, 16, 1000});
  int its = c.pick({1, 2});
  c.desc("%d replicas, %d parameters added up as they are, limit %d, %d passes", n, m, (int)cap, its);
  c.nontrivial();
  World w(c, n, s, c.thorough() ? 2 : 1, false);
  w.cap = cap;
  std::string bad;
  w.k.run([&](int r) {
    w.build(r); w.R[r].net.bare = true; w.wrap(r);
    for (int it = 0; it < its; it++) {
      Tensor in = Tensor::zeros({2}), g = make({2}, DType::Float32, [&](int64_t e) { return 1 + r + e * 2 + it; });
      Tensor out = w.R[r].dm->forward(in);
      out.backward(g);
      for (int e = 0; e < 2; e++) if (readAt(g, e) != 1 + r + e * 2 + it) bad = "the caller's gradient tensor was changed";
    }
  });
  if (!bad.empty()) c.fail("callers-gradient", "%s", bad.c_str());
  for (int r = 0; r < n; r++) for (int i = 0; i < m; i++) {
    auto v = values(const_cast<Tensor&>(w.R[r].net.p[i].grad()));
    for (int e = 0; e < 2; e++) {
      double want = 0;
      for (int it = 0; it < its; it++) { double q = 0; for (int x = 0; x < n; x++) q += 1 + x + e * 2 + it; want += q / n; }
      if (std::abs(v[e] - want) > 1e-4) c.fail("gradient", "replica %d parameter %d: gradient %s, element %d should be %g%s", r, i, mc::str(v).c_str(), e, want, w.k.report().c_str());
    }
  }
  w.finish();
}

struct Reg {
  Reg() {
    mc::add("buckets", "1-3 replicas, every list of sizes, bucket limit and order of use, schedules with one deviation", buckets, 4);
    mc::add("schedules", "2-3 replicas with different orders of use: every interleaving and completion order (unbounded for 2 replicas and 2 parameters, else 2-4 deviations)", schedules, 4);
    mc::add("histories", "every history of passes, zeroing, steps, evaluation and discarded passes", histories, 4);
    mc::add("kinds", "every choice of element types, frozen parameters and root", kinds, 4);
    mc::add("destroyed", "passes, then the wrapper is destroyed and the module used alone or wrapped again", destroyed, 3);
    mc::add("aliases", "gradients that could share storage with each other or the caller's", aliases, 2);
  }
} reg;
