// P07: process groups over several GPUs.  Replicas are fibers of one thread, each with its own emulated GPU; the
// collective library is emulated (mc/ncclemu.h): a collective is queued work that runs when all replicas' streams
// have reached it.  The explorer decides which replica goes on and which queued work runs.
#include "../mc/ncclemu.h"
#include "../mc/cuemu.h"
#include "../mc/tt.h"
#include "Distributed/BackendNCCL.h"
#include "Distributed/DistributedModule.h"
#include "Distributed/DistributedProcessGroup.h"
#include "Functions.h"
#include "Modules.h"
#include "Operations.h"
#include "Optimizer.h"
#include "Tensor/CachedAllocator.h"
#include <filesystem>
#include <map>
using namespace tinytorch;
using namespace tinytorch::distributed;
using namespace mc;
namespace {
using std::chrono::milliseconds;

// what the replicas share besides the collectives
struct Shared : Store {
  std::map<std::string, std::vector<uint8_t>> m;
  long limit = 5000;
  void set(const std::string& k, const std::vector<uint8_t>& v) override { m[k] = v; ncclemu::yield(); }
  std::vector<uint8_t> get(const std::string& k) override {
    for (long t0 = ncclemu::now(); !m.count(k); ncclemu::pass(10)) if (ncclemu::now() - t0 > limit) return {};
    return m[k];
  }
  int64_t add(const std::string& k, int64_t v) override { return v; }
  bool deleteKey(const std::string& k) override { return m.erase(k) > 0; }
  bool check(const std::vector<std::string>& ks) override { for (auto& k : ks) if (!m.count(k)) return false; return true; }
  int64_t getNumKeys() override { return (int64_t)m.size(); }
  void wait(const std::vector<std::string>& ks) override { for (auto& k : ks) get(k); }
};

struct Rep {
  Ctx& c; int rank, n, dev;
  std::shared_ptr<ProcessGroup> g;
  std::shared_ptr<BackendNCCL> b;
  Options opt(DType d) const { return options::dtype(d).device(Device(DeviceType::CUDA, (DeviceIndex)dev)); }
  Tensor put(const Sh& s, const std::vector<double>& v, DType d) const { return mk(s, v, d).to(Device(DeviceType::CUDA, (DeviceIndex)dev)); }
};
struct World {
  bool cached = true, shut = true;
  int deviations = 0;
  std::vector<int> devs = {0, 1, 2};
  bool stuckOk = false;
};
std::vector<double> fetch(const Tensor& t) { return rt(t.to(Device(DeviceType::CPU))).v; }

void warmUp();
// Runs f on n replicas.
void world(Ctx& c, int n, const World& w, const std::function<void(Rep&)>& f) {
  static bool warm = false;
  if (!warm) { warm = true; auto m = ncclemu::mode; warmUp(); ncclemu::mode = m; }
  cuemu::mode = cuemu::Mode{};
  cuemu::mode.lazy = true; cuemu::mode.queriesRun = false;
  cuemu::reset(); ncclemu::reset();
  CachedAllocator::setCacheEnabled(w.cached);
  int dev0; cudaGetDevice(&dev0);
  size_t live = cuemu::liveBytes();
  auto store = std::make_shared<Shared>();
  std::vector<std::shared_ptr<ProcessGroup>> keep;
  std::vector<std::function<void()>> reps;
  std::vector<int> endDev((size_t)n, -1), home((size_t)n, -1);
  for (int i = 0; i < n; i++) reps.push_back([&, i] {
    Rep r{c, i, n, w.devs[(size_t)i], nullptr, nullptr};
    home[(size_t)i] = i % 2 ? r.dev : 0;       // the device the user happens to have chosen
    cudaSetDevice(home[(size_t)i]);
    r.g = std::make_shared<ProcessGroup>(store, i, n);
    r.g->setDefaultBackend(NCCL);
    r.b = std::make_shared<BackendNCCL>(store, i, n);
    r.g->setBackend(DeviceType::CUDA, NCCL, r.b);
    f(r);
    if (w.shut) r.g->shutdown();
    r.g.reset(); r.b.reset();
    cudaGetDevice(&endDev[(size_t)i]);
  });
  struct Spoil { bool ok = false; ~Spoil() { if (!ok) mc::spoilt(); } } spoil;
  bool ok = ncclemu::run(reps, [&](int k) { int q = c.pick(k); return q; }, w.deviations);
  reps.clear();
  cuemu::finish();
  if (!ok) c.fail("stuck", "the replicas wait for ever");
  if (!cuemu::problem().empty()) c.fail("device", "%s", cuemu::problem().c_str());
  for (int i = 0; i < n; i++) if (endDev[(size_t)i] != home[(size_t)i]) c.fail("current-device", "replica %d's current device became %d, it was %d", i, endDev[(size_t)i], home[(size_t)i]);
  if (ncclemu::openComms()) c.fail("left-open", "%d communicators stay open", ncclemu::openComms());
  store.reset();
  if (!w.cached && cuemu::liveBytes() != live) c.fail("leak", "%zd bytes of device memory stay allocated", (ssize_t)(cuemu::liveBytes() - live));
  c.transition(ncclemu::switches());
  spoil.ok = true;
}
void same(Rep& r, const char* key, const std::vector<double>& got, const std::vector<double>& want, const std::string& what) {
  if (got.size() != want.size()) r.c.fail(key, "replica %d: %s has %zu elements, expected %zu", r.rank, what.c_str(), got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) if (!sameD(got[i], want[i], 1e-5, 1e-6)) r.c.fail(key, "replica %d: element %zu of %s is %g, expected %g; got %s expected %s", r.rank, i, what.c_str(), got[i], want[i], str(got).c_str(), str(want).c_str());
}
const std::vector<DType> kT = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32, DType::Bool};
double val(int rank, size_t i, DType d, int salt = 0) {
  if (d == DType::Bool) return (i + (size_t)rank * 2 + (size_t)salt) % 3 == 0 || (i % 4 == 3);
  double v = (double)((i * 3 + (size_t)rank * 5 + (size_t)salt * 7) % 9) - 3;
  return v == 0 ? 2 : v;
}
std::vector<double> vals(int rank, size_t n, DType d, int salt = 0) { std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = val(rank, i, d, salt); return v; }
const ReduceOpType kOps[] = {SUM, MAX, AVG, MIN, PRODUCT};
const char* kOpN[] = {"SUM", "MAX", "AVG", "MIN", "PRODUCT"};
std::vector<double> reduced(const std::vector<std::vector<double>>& x, ReduceOpType o, DType d) {
  std::vector<double> r = x[0];
  for (size_t k = 1; k < x.size(); k++) for (size_t i = 0; i < r.size(); i++) { double a = r[i], b = x[k][i]; r[i] = o == PRODUCT ? a * b : o == MAX ? std::max(a, b) : o == MIN ? std::min(a, b) : a + b; }
  for (auto& v : r) {
    if (o == AVG) v /= (double)x.size();
    if (d == DType::Bool) v = v != 0;
    else if (d == DType::Int32 || d == DType::Int64) v = std::trunc(v);
    else v = roundTo(v, d);
  }
  return r;
}
enum Coll { CBroadcast, CAllReduce, CReduce, CAllGather, CReduceScatter };
const char* kColl[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter"};
const std::vector<Sh> kSh = {{5}, {2, 3}, {}, {1, 1, 4}, {0}, {600}};

// a tensor of a value computed on its device, on its own or inside a larger one
struct Made { Tensor t, around; };
Made make(Rep& r, const Sh& s, const std::vector<double>& v, DType d, int prov) {
  if (prov == 1 && !s.empty() && s[0] > 0) {
    Sh big = s; big[0] += 2;
    size_t row = v.size() / (size_t)s[0];
    std::vector<double> b(row, 1); b.insert(b.end(), v.begin(), v.end()); b.insert(b.end(), row, 1);
    Tensor a = r.put(big, b, d);
    return {a.narrow(0, 1, s[0]), a};
  }
  Tensor t = r.put(s, v, d);
  if (prov == 2) return {t.clone(), t};
  return {t, Tensor()};
}
void litter(Rep& r, const Sh& s, DType d, int rows) {
  for (int k = 0; k < 3; k++) {
    Sh b = s; b.insert(b.begin(), k == 0 ? rows : 1);
    Tensor t = Tensor::full(b, d == DType::Bool ? Scalar(true) : d == DType::Int32 || d == DType::Int64 ? Scalar((int64_t)77) : Scalar(77.f), r.opt(d));
  }
}
void bystander(Rep& r, const Made& m, const Sh& s, const std::vector<double>& was, int prov) {
  if (prov != 1 || !m.around.defined()) return;
  auto v = fetch(m.around);
  size_t row = was.size() / (size_t)s[0];
  for (size_t i = 0; i < v.size(); i++) if ((i < row || i >= row + was.size()) && v[i] != 1) r.c.fail("bystander", "replica %d: element %zu around the tensor became %g", r.rank, i, v[i]);
}
bool done(Rep& r, const std::shared_ptr<Work>& w, int how) {
  if (!w) r.c.fail("refused", "replica %d: the call returned no work", r.rank);
  bool ok = how == 0 ? w->wait() : how == 1 ? w->wait(milliseconds(60000)) : (w->wait(), w->wait(milliseconds(60000)));
  if (!ok || !w->isSuccess() || !w->exception().empty()) r.c.fail("wait", "replica %d: wait reports a failure: %s", r.rank, w->exception().c_str());
  return ok;
}
Tensor use(const Tensor& t) { Tensor f = t.to(DType::Float32); return f + f; }
void collectives(Ctx& c) {
  int n = c.thorough() ? 1 + c.pick(3) : 2 + c.pick(2);
  int k = c.pick(5);
  bool red = k == CAllReduce || k == CReduce || k == CReduceScatter, rooted = k == CBroadcast || k == CReduce;
  ReduceOpType op = red ? kOps[c.pick(5)] : SUM;
  int root = rooted ? c.pick(n) : 0;
  DType d = kT[(size_t)c.pick((int)kT.size())];
  if (d == DType::Bool && op == AVG) c.skip();
  const Sh& s = kSh[(size_t)c.pick((int)kSh.size())];
  int prov = c.pick(3), how, slow;
  bool cached;
  if (c.thorough()) { how = c.pick(3); slow = c.pick(2); cached = c.flip(); }
  else { int q = c.pick(n == 2 ? 3 : 1); how = q == 1; slow = q == 2; cached = q != 1; }
  ncclemu::mode = {};
  ncclemu::mode.slow = slow ? 3 : 0;
  World w; w.cached = cached;
  c.desc("%d replicas, %s%s%s, root %d, %s %s, %s%s%s", n, kColl[k], red ? " " : "", red ? kOpN[std::find(kOps, kOps + 5, op) - kOps] : "", root, dtName(d), str(s).c_str(), prov == 1 ? "part of a larger tensor" : prov == 2 ? "shared storage" : "own storage", slow ? ", slow start" : "", cached ? ", cached memory" : "");
  size_t ne = (size_t)numelOf(s);
  auto q = [&](std::vector<double> v) { for (auto& x : v) x = roundTo(x, d); return v; };
  world(c, n, w, [&](Rep& r) {
    std::vector<std::vector<double>> in;
    for (int i = 0; i < n; i++) in.push_back(vals(i, ne, d));
    if (k <= CReduce) {
      Made m = make(r, s, in[(size_t)r.rank], d, prov);
      std::vector<Tensor> ts = {m.t};
      Tensor shared = prov == 2 ? m.around : Tensor();
      std::shared_ptr<Work> wk;
      if (k == CBroadcast) { BroadcastOptions o; o.rootRank = root; wk = r.g->broadcast(ts, o); }
      else if (k == CAllReduce) { AllReduceOptions o; o.reduceOp = op; wk = r.g->allReduce(ts, o); }
      else { ReduceOptions o; o.reduceOp = op; o.rootRank = root; wk = r.g->reduce(ts, o); }
      // the work alone keeps the data
      bool drop = prov == 0;
      if (drop) { ts.clear(); m.t = Tensor(); }
      litter(r, s, d, 1);
      done(r, wk, how);
      if (wk->getRank() != r.rank || wk->getOpType() != (k == CBroadcast ? OpType::BROADCAST : k == CAllReduce ? OpType::ALL_REDUCE : OpType::REDUCE)) c.fail("work-kind", "the work says rank %d, %s", wk->getRank(), opTypeToString(wk->getOpType()));
      auto res = wk->result();
      if (res.size() != 1) c.fail("result", "%zu results", res.size());
      std::vector<double> want = k == CBroadcast ? in[(size_t)root] : reduced(in, op, d);
      Tensor t = drop ? res[0] : ts[0];
      Tensor twice = use(t);
      if (k == CReduce && r.rank != root) { if (numelOf(s) != (int64_t)fetch(t).size()) c.fail("size", "size changed"); return; }   // others' tensors may hold anything
      same(r, kColl[k], fetch(t), want, kColl[k]);
      same(r, kColl[k], fetch(res[0]), want, "result()");
      std::vector<double> w2 = want; for (auto& x : w2) x *= 2;
      same(r, "order", fetch(twice), w2, "what is computed from it");
      if (!drop) bystander(r, m, s, want, prov);
    } else if (k == CAllGather) {
      Made m = make(r, s, in[(size_t)r.rank], d, prov);
      std::vector<Made> os;
      std::vector<std::vector<Tensor>> outs(1);
      for (int i = 0; i < n; i++) { os.push_back(make(r, s, vals(9, ne, d), d, prov)); outs[0].push_back(os.back().t); }
      std::vector<Tensor> ts = {m.t};
      auto wk = r.g->allGather(outs, ts, {});
      if (prov == 0) { ts.clear(); m.t = Tensor(); }
      litter(r, s, d, n);
      done(r, wk, how);
      if (wk->getOpType() != OpType::ALL_GATHER) c.fail("work-kind", "the work says %s", opTypeToString(wk->getOpType()));
      std::vector<Tensor> twice;
      for (int i = 0; i < n; i++) twice.push_back(use(outs[0][(size_t)i]));
      for (int i = 0; i < n; i++) {
        same(r, "allGather", fetch(os[(size_t)i].t), in[(size_t)i], "what replica " + std::to_string(i) + " gave");
        std::vector<double> w2 = in[(size_t)i]; for (auto& x : w2) x *= 2;
        same(r, "order", fetch(twice[(size_t)i]), w2, "what is computed from it");
        bystander(r, os[(size_t)i], s, in[(size_t)i], prov);
      }
      if (m.t.defined()) same(r, "input", fetch(m.t), in[(size_t)r.rank], "the input");
    } else {
      std::vector<std::vector<Tensor>> ins(1);
      std::vector<Made> is;
      for (int i = 0; i < n; i++) { is.push_back(make(r, s, vals(r.rank, ne, d, i), d, prov)); ins[0].push_back(is.back().t); }
      Made m = make(r, s, vals(9, ne, d), d, prov);
      std::vector<Tensor> ts = {m.t};
      ReduceScatterOptions o; o.reduceOp = op;
      auto wk = r.g->reduceScatter(ts, ins, o);
      if (prov == 0) { is.clear(); ins.clear(); }
      litter(r, s, d, n);
      done(r, wk, how);
      if (wk->getOpType() != OpType::REDUCE_SCATTER) c.fail("work-kind", "the work says %s", opTypeToString(wk->getOpType()));
      Tensor t = m.t, twice = use(t);
      std::vector<std::vector<double>> x;
      for (int i = 0; i < n; i++) x.push_back(vals(i, ne, d, r.rank));
      std::vector<double> want = reduced(x, op, d), w2 = want;
      for (auto& v : w2) v *= 2;
      same(r, "reduceScatter", fetch(t), want, "reduceScatter");
      same(r, "order", fetch(twice), w2, "what is computed from it");
      bystander(r, m, s, want, prov);
      for (size_t i = 0; i < is.size(); i++) same(r, "input", fetch(is[i].t), vals(r.rank, ne, d, (int)i), "an input");
    }
  });
  if (n > 1 && ne) c.nontrivial();
  c.outcome(mix(mix((uint64_t)k, (uint64_t)d), mix((uint64_t)n, ne)));
}
// ---- several operations
void histories(Ctx& c, int depth, int deviations) {
  static const char* on[] = {"allReduce a", "allReduce b MAX", "broadcast a", "a += 1", "b = 2 a", "send a to b", "gather a", "barrier"};
  int n = c.thorough() ? 2 + c.pick(2) : 2;
  std::vector<int> ops;
  std::string log;
  for (int k = 0; k < depth; k++) { ops.push_back(c.pick(8)); log += std::string(k ? ", " : "") + on[ops.back()]; }
  int policy = c.pick(3);
  ncclemu::mode = {};
  World w; w.deviations = deviations;
  c.desc("%d replicas: %s; %s", n, log.c_str(), policy == 0 ? "each awaited at once" : policy == 1 ? "awaited when needed" : "awaited when needed, the last first");
  std::vector<int> entered((size_t)depth, 0);
  uint64_t h = 0;
  world(c, n, w, [&](Rep& r) {
    std::vector<std::vector<double>> A, B;
    for (int i = 0; i < n; i++) { A.push_back(vals(i, 4, DType::Float32)); B.push_back(vals(i, 4, DType::Float32, 1)); }
    Tensor a = r.put({4}, A[(size_t)r.rank], DType::Float32), b = r.put({4}, B[(size_t)r.rank], DType::Float32);
    std::vector<std::pair<std::shared_ptr<Work>, int>> pend;
    auto await = [&]() {
      if (policy == 2) std::reverse(pend.begin(), pend.end());
      for (auto& p : pend) { done(r, p.first, 0); if (p.second >= 0 && entered[(size_t)p.second] < n) c.fail("barrier", "replica %d is through the barrier, %d of %d are there", r.rank, entered[(size_t)p.second], n); }
      pend.clear();
    };
    std::vector<std::vector<Tensor>> hold;
    for (int k = 0; k < depth; k++) {
      std::vector<Tensor> ta = {a}, tb = {b};
      std::shared_ptr<Work> wk; bool coll = true; int bar = -1;
      switch (ops[(size_t)k]) {
        case 0: { wk = r.g->allReduce(ta, {}); auto v = reduced(A, SUM, DType::Float32); for (auto& x : A) x = v; break; }
        case 1: { AllReduceOptions o; o.reduceOp = MAX; wk = r.g->allReduce(tb, o); auto v = reduced(B, MAX, DType::Float32); for (auto& x : B) x = v; break; }
        case 2: { BroadcastOptions o; o.rootRank = 1; wk = r.g->broadcast(ta, o); for (auto& x : A) x = A[1]; break; }
        case 3: await(); a += 1.f; for (auto& x : A) for (auto& y : x) y += 1; coll = false; break;
        case 4: await(); b.copy_(a * 2.f); for (int i = 0; i < n; i++) { B[(size_t)i] = A[(size_t)i]; for (auto& y : B[(size_t)i]) y *= 2; } coll = false; break;
        case 5: if (r.rank == 0) wk = r.g->send(ta, 1); else if (r.rank == 1) wk = r.g->recv(tb, 0); else coll = false; B[1] = A[0];
                if (wk && wk->getOpType() != (r.rank ? OpType::RECV : OpType::SEND)) c.fail("work-kind", "the work says %s", opTypeToString(wk->getOpType())); break;
        case 6: { // all of a, the peer's part into b
          std::vector<std::vector<Tensor>> outs(1);
          for (int i = 0; i < n; i++) outs[0].push_back(i == (r.rank + 1) % n ? b : Tensor::full({4}, 9.f, r.opt(DType::Float32)));
          wk = r.g->allGather(outs, ta, {}); hold.push_back(outs[0]);
          for (int i = 0; i < n; i++) B[(size_t)i] = A[(size_t)((i + 1) % n)];
          break; }
        default: { BarrierOptions o; o.deviceIds = {r.dev}; entered[(size_t)k]++; wk = r.g->barrier(o); bar = k; }
      }
      if (coll) { if (!wk) c.fail("refused", "replica %d: %s returned no work", r.rank, on[ops[(size_t)k]]); pend.push_back({wk, bar}); if (policy == 0) await(); }
    }
    await();
    same(r, "a", fetch(a), A[(size_t)r.rank], "a");
    same(r, "b", fetch(b), B[(size_t)r.rank], "b");
    for (double x : A[(size_t)r.rank]) h = mix(h, (uint64_t)(int64_t)x);
  });
  c.nontrivial(); c.outcome(h);
}
void sequences(Ctx& c) { histories(c, c.thorough() ? 5 : 4, 0); }
void schedules(Ctx& c) { histories(c, c.thorough() ? 3 : 2, c.thorough() ? 2 : 1); }

// ---- waiting
void waits(Ctx& c) {
  const int late[] = {0, 50, 500}, lim[] = {20, 100, 1000};
  int kind = c.pick(3), L = late[c.pick(3)], T = lim[c.pick(3)], who = c.pick(2), way = c.pick(3), n = 2 + c.pick(2), slow = c.pick(2);
  static const char* kn[] = {"allReduce", "broadcast", "barrier"};
  c.desc("%d replicas, %s, replica %d is %d ms late, %s %d ms%s", n, kn[kind], who, L, way == 0 ? "wait for" : way == 1 ? "wait without limit, then" : "ask whether it is complete for", T, slow ? ", slow start" : "");
  ncclemu::mode = {}; ncclemu::mode.slow = slow * 3;
  World w; w.deviations = 1;
  bool called = false;
  world(c, n, w, [&](Rep& r) {
    auto call = [&](Tensor& t) {
      std::vector<Tensor> ts = {t};
      if (r.rank == who) called = true;
      if (kind == 0) return r.g->allReduce(ts, {});
      if (kind == 1) { BroadcastOptions o; o.rootRank = who; return r.g->broadcast(ts, o); }
      BarrierOptions o; o.device = Device(DeviceType::CUDA, (DeviceIndex)r.dev); return r.g->barrier(o);
    };
    Tensor t0 = Tensor::ones({2}, r.opt(DType::Float32)), t = r.put({3}, vals(r.rank, 3, DType::Float32), DType::Float32);
    std::vector<Tensor> ts = {t0};
    done(r, r.g->allReduce(ts, {}), 1);
    BarrierOptions bo; bo.deviceIds = {r.dev}; done(r, r.g->barrier(bo), 1);
    if (r.rank == who) { called = false; ncclemu::pass(L + 1); }
    long at = ncclemu::now();
    auto wk = call(t);
    if (!wk) c.fail("refused", "replica %d: no work", r.rank);
    if (r.rank == who || way == 1) {
      bool ok = wk->wait();
      if (!ok || !wk->isSuccess()) c.fail("wait", "wait without limit reports a failure");
      if (kind == 2 && !called) c.fail("barrier", "replica %d is through the barrier, replica %d is not there", r.rank, who);
      if (way == 1 && r.rank != who) { if (!wk->wait(milliseconds(100000))) c.fail("wait", "wait reports a failure"); if (!called) c.fail("early", "wait with a limit returned true before replica %d had called", who); if (!wk->isCompleted()) c.fail("completed", "not complete after wait with a limit returned true"); }
    } else if (way == 0) {
      bool ok = wk->wait(milliseconds(T));
      long took = ncclemu::now() - at;
      if (ok && !called) c.fail("early", "wait returned true before replica %d had called", who);
      if (!ok && took < T - 1) c.fail("short", "wait for %d ms gave up after %ld ms", T, took);
      if (took > T + L / 2 + 40 && took > L + 40) c.fail("long", "wait for %d ms took %ld ms, the others were there after %d ms", T, took, L);
      if (!ok && took > T + 40) c.fail("long", "wait for %d ms gave up after %ld ms", T, took);
      if (ok && T + 40 < L) c.fail("late", "wait for %d ms succeeded although a replica was %d ms late", T, L);
      if (!ok && L + 40 < T) c.fail("given-up", "wait for %d ms failed although all were there after %d ms", T, L);
      if (!ok) {
        if (wk->isSuccess() || wk->exception().empty()) c.fail("silent", "after a wait that ran out of time the work says it succeeded");
        if (wk->wait(milliseconds(T))) c.fail("again", "a wait ran out of time and the next one reports success");
        if (wk->wait()) c.fail("again", "a wait ran out of time and one without limit reports success");
        if (wk->isSuccess() || wk->exception().empty()) c.fail("silent", "after a wait that ran out of time the work says it succeeded");
      } else if (!wk->isSuccess() || !wk->isCompleted()) c.fail("completed", "after a successful wait the work is not complete");
    } else {
      while (!wk->isCompleted()) { if (ncclemu::now() - at > 5000) c.fail("never", "the work is not complete after 5 s"); ncclemu::pass(7); }
      if (!called) c.fail("early", "the work is complete before replica %d has called", who);
      if (!wk->isSuccess() || !wk->wait(milliseconds(1))) c.fail("wait", "the work is complete and wait reports a failure");
    }
    if (kind == 2) return;
    std::vector<std::vector<double>> x; for (int i = 0; i < n; i++) x.push_back(vals(i, 3, DType::Float32));
    same(r, "data", fetch(t), kind == 1 ? x[(size_t)who] : reduced(x, SUM, DType::Float32), "the result");
  });
  c.nontrivial(); c.outcome(mix(mix((uint64_t)L, (uint64_t)T), (uint64_t)way));
}

// ---- barriers
void barriers(Ctx& c) {
  int n = 2 + c.pick(2), how = c.pick(4), lag = c.pick(3), rounds = 1 + c.pick(2), limit = c.pick(2);
  static const char* hn[] = {"device numbers", "a device", "the bound device", "the first of several device numbers"};
  c.desc("%d replicas, barrier on %s, %s, %d times%s", n, hn[how], lag == 0 ? "together" : lag == 1 ? "the last one late" : "the first one late", rounds, limit ? ", wait with a limit" : "");
  ncclemu::mode = {};
  World w; w.deviations = c.thorough() ? 2 : 1; w.devs = {1, 2, 0};
  std::vector<int> there((size_t)rounds, 0);
  world(c, n, w, [&](Rep& r) {
    if (how == 2) r.b->setBoundDeviceId(Device(DeviceType::CUDA, (DeviceIndex)r.dev));
    for (int k = 0; k < rounds; k++) {
      if (lag == 1 && r.rank == n - 1) ncclemu::pass(30);
      if (lag == 2 && r.rank == 0) ncclemu::pass(30);
      BarrierOptions o;
      if (how == 0) o.deviceIds = {r.dev};
      if (how == 1) o.device = Device(DeviceType::CUDA, (DeviceIndex)r.dev);
      if (how == 3) o.deviceIds = {r.dev, 1};
      there[(size_t)k]++;
      auto wk = r.g->barrier(o);
      if (!wk) c.fail("refused", "replica %d: no work", r.rank);
      if (!(limit ? wk->wait(milliseconds(100000)) : wk->wait())) c.fail("wait", "wait reports a failure");
      if (there[(size_t)k] < n) c.fail("barrier", "replica %d is through the barrier, %d of %d are there", r.rank, there[(size_t)k], n);
      if (wk->getOpType() != OpType::BARRIER) c.fail("work-kind", "the work of a barrier says %s", opTypeToString(wk->getOpType()));
    }
  });
  c.nontrivial(); c.outcome(mix((uint64_t)n * 8 + (uint64_t)how, (uint64_t)lag));
}

// ---- failures of the library
std::shared_ptr<Work> anyOf(Rep& r, int kind, Tensor& t, std::vector<double>& want, int salt) {
  std::vector<std::vector<double>> x; for (int i = 0; i < r.n; i++) x.push_back(vals(i, 3, DType::Float32, salt));
  t = r.put({3}, x[(size_t)r.rank], DType::Float32);
  std::vector<Tensor> ts = {t};
  if (kind == CBroadcast) { want = x[0]; return r.g->broadcast(ts, {}); }
  if (kind == CAllReduce) { want = reduced(x, SUM, DType::Float32); return r.g->allReduce(ts, {}); }
  if (kind == CReduce) { want = r.rank ? std::vector<double>() : reduced(x, SUM, DType::Float32); return r.g->reduce(ts, {}); }
  if (kind == CAllGather) { std::vector<std::vector<Tensor>> o(1); for (int i = 0; i < r.n; i++) o[0].push_back(Tensor::zeros({3}, r.opt(DType::Float32))); t = o[0][0]; want = x[0]; return r.g->allGather(o, ts, {}); }
  std::vector<std::vector<Tensor>> in(1);
  std::vector<std::vector<double>> y;
  for (int i = 0; i < r.n; i++) { in[0].push_back(r.put({3}, vals(r.rank, 3, DType::Float32, salt + i), DType::Float32)); y.push_back(vals(i, 3, DType::Float32, salt + r.rank)); }
  want = reduced(y, SUM, DType::Float32);
  return r.g->reduceScatter(ts, in, {});
}
// what happens only once in a process has happened before the first case
void warmUp() {
  try {
  for (int n = 1; n <= 3; n++) for (int k = 0; k < 2; k++) {
    Ctx c; ncclemu::mode = {};
    World w; w.cached = k;
    world(c, n, w, [&](Rep& r) { Tensor t; std::vector<double> want; for (int op = 0; op < 5; op++) { auto wk = anyOf(r, op, t, want, op); if (wk) wk->wait(milliseconds(1000)); (void)fetch(t); } BarrierOptions o; o.deviceIds = {r.dev}; auto wk = r.g->barrier(o); if (wk) wk->wait(); });
  }
  } catch (const mc::FailCase&) { mc::spoilt(); }
}
void failures(Ctx& c) {
  const ncclResult_t rs[] = {ncclInternalError, ncclRemoteError, ncclSystemError};
  int n = 1 + c.pick(2), kind = c.pick(5), what = c.pick(3), err = c.pick(c.thorough() ? 3 : 2), at = 1 + c.pick(what == 0 ? 14 : what == 1 ? 4 : 1), after = c.pick(2);
  ncclemu::mode = {};
  ncclemu::mode.failWith = rs[err];
  if (what == 0) ncclemu::mode.failAt = at;
  if (what == 1) ncclemu::mode.asyncAt = at;
  if (what == 2) { if (err) c.skip(); ncclemu::mode.slow = 1 << 28; }
  static const char* wn[] = {"call %d of the library fails", "group %d fails later", "groups never get done (%d)"};
  char b[80]; snprintf(b, sizeof b, wn[what], at);
  c.desc("%d replicas, %s twice: %s with %d, then %s", n, kColl[kind], b, (int)rs[err], after ? "shutdown" : "abort");
  World w; w.shut = false;
  int refused = 0;
  world(c, n, w, [&](Rep& r) {
    r.g->setTimeout(milliseconds(300));
    auto give = [&] {
      if (after) r.g->shutdown();
      else { r.g->abort(); if (r.b->getError() == BackendErrorType::SUCCESS) c.fail("error", "no error is recorded after abort"); }
    };
    bool broken = false;
    for (int k = 0; k < 2; k++) {
      if (r.b->getError() != BackendErrorType::SUCCESS && !broken) c.fail("error", "replica %d: an error is recorded and nothing failed", r.rank);
      Tensor t; std::vector<double> want;
      auto wk = anyOf(r, kind, t, want, k);
      if (!wk) {
        refused++; broken = true;
        if (r.b->getError() == BackendErrorType::SUCCESS) c.fail("error", "replica %d: an operation was refused and no error is recorded", r.rank);
        if (n == 1 && what == 0) continue;     // the communicator itself is whole
        break;
      }
      if (!wk->wait(milliseconds(2000))) { broken = true; break; }
      if (!want.empty()) same(r, "data", fetch(t), want, "the result");
    }
    // a replica that gives up alone would leave the other one waiting
    if (n > 1 && broken) r.g->abort();
    else if (n > 1 && after) r.g->shutdown();
    else give();
  });
  if (what == 0 && ncclemu::calls() < at) c.skip();
  if (!refused && !(what == 1 && at > 2 * n)) c.fail("unnoticed", "a failure of the library went unnoticed");
  if (n == 1 && what == 0 && refused > 1) c.fail("stays-broken", "one call of the library failed and the next operation was refused too");
  c.nontrivial(); c.outcome(mix((uint64_t)at, (uint64_t)(what * 8 + kind)));
}

// ---- the end, and a new start
void lifecycles(Ctx& c) {
  static const char* en[] = {"shutdown", "shutdown twice", "abort", "abort, then shutdown", "the group goes away", "one replica aborts an operation the others never start"};
  int n = 1 + c.pick(3), end = c.pick(6), before = c.pick(3), again = c.pick(2), waited = c.pick(2);
  if (end == 5 && n == 1) c.skip();
  if (again && end != 0 && end != 1) c.skip();
  if (before == 0 && waited) c.skip();
  ncclemu::mode = {};
  World w; w.shut = false; w.deviations = 1; w.cached = true;
  c.desc("%d replicas, %d operations%s, %s%s", n, before, waited ? " awaited" : " under way", en[end], again ? ", all once more" : "");
  world(c, n, w, [&](Rep& r) {
    for (int round = 0; round <= again; round++) {
      std::vector<std::shared_ptr<Work>> ws; std::vector<Tensor> ts; std::vector<std::vector<double>> wants;
      for (int k = 0; k < before; k++) {
        Tensor t; std::vector<double> want;
        auto wk = anyOf(r, k ? CAllReduce : CReduceScatter, t, want, k + round);
        if (!wk) c.fail("refused", "replica %d: no work", r.rank);
        if (waited && !wk->wait(milliseconds(60000))) c.fail("wait", "wait reports a failure");
        ws.push_back(wk); ts.push_back(t); wants.push_back(want);
      }
      if (end == 5) {
        if (r.rank == 0 && before) { std::vector<Tensor> x = {ts[0]}; BroadcastOptions o; auto wk = r.g->broadcast(x, o); if (!wk) c.fail("refused", "replica 0: no work"); if (wk->wait(milliseconds(200))) c.fail("early", "an operation the others never start is complete"); }
        else if (before) ncclemu::pass(400);
        r.g->abort();
        if (r.b->getError() == BackendErrorType::SUCCESS) c.fail("error", "no error is recorded after abort");
        return;
      }
      if (end == 0 || end == 1) r.g->shutdown();
      if (end == 1) r.g->shutdown();
      if (end == 2 || end == 3) { r.g->abort(); if (r.b->getError() == BackendErrorType::SUCCESS) c.fail("error", "no error is recorded after abort"); }
      if (end == 3) r.g->shutdown();
      if (end == 4) { r.g.reset(); r.b.reset(); }
      if (end == 0 || end == 1) if (r.b->getError() != BackendErrorType::SUCCESS) c.fail("error", "an error is recorded after shutdown");
      if (end == 2 || end == 3) { if (!waited) return; }   // what was under way may be lost
      for (size_t k = 0; k < ts.size(); k++) { if (!ws[k]->wait()) c.fail("wait", "wait reports a failure"); same(r, "data", fetch(ts[k]), wants[k], "the result"); }
    }
  });
  if (before) c.nontrivial();
  c.outcome(mix((uint64_t)n, (uint64_t)(end * 8 + before)));
}

// ---- replicas that use several devices
void devices(Ctx& c) {
  int depth = c.thorough() ? 4 : 3;
  std::vector<int> cfg; std::string log;
  const int dv[3][2] = {{0, 1}, {2, 0}, {1, 2}};
  for (int k = 0; k < depth; k++) { cfg.push_back(c.pick(3)); log += " " + std::to_string(dv[cfg.back()][0]) + "/" + std::to_string(dv[cfg.back()][1]); }
  int wait = c.pick(2), kind = c.pick(3);
  const int kinds[] = {CAllReduce, CReduceScatter, CAllGather};
  c.desc("2 replicas, %s on devices%s%s", kColl[kinds[kind]], log.c_str(), wait ? "" : ", awaited at the end");
  ncclemu::mode = {};
  World w;
  world(c, 2, w, [&](Rep& r) {
    std::vector<std::shared_ptr<Work>> ws; std::vector<Tensor> ts; std::vector<std::vector<double>> wants;
    for (int k = 0; k < depth; k++) {
      r.dev = dv[cfg[(size_t)k]][r.rank];
      Tensor t; std::vector<double> want;
      auto wk = anyOf(r, kinds[kind], t, want, k);
      if (!wk) c.fail("refused", "replica %d: no work", r.rank);
      if (wait && !wk->wait()) c.fail("wait", "wait reports a failure");
      ws.push_back(wk); ts.push_back(t); wants.push_back(want);
    }
    for (size_t k = 0; k < ts.size(); k++) { if (!ws[k]->wait()) c.fail("wait", "wait reports a failure"); if (ts[k].device().index != dv[cfg[k]][r.rank]) c.fail("device", "the result is on device %d", ts[k].device().index); same(r, "data", fetch(ts[k]), wants[k], "the result"); }
  });
  c.nontrivial(); c.outcome(mix((uint64_t)cfg[0], (uint64_t)(kind * 8 + cfg[1])));
}

// ---- training in parallel
struct Net : nn::Module {
  nn::Linear a, b;
  Net() : a(3, 4), b(4, 2) { registerModules({{"a", a}, {"b", b}}); }
  Tensor forward(const Tensor& x) override { return b(function::relu(a(x))); }
};
void fill(nn::Module& m, int salt, Device d) {
  int k = 0;
  for (auto* p : m.parameters()) { std::vector<double> v((size_t)p->numel()); for (size_t i = 0; i < v.size(); i++) v[i] = (double)((int)((i * 7 + (size_t)k * 5 + (size_t)salt * 3) % 11) - 5) / 8; p->copy_(mk(p->shape().empty() ? Sh{} : Sh(p->shape().begin(), p->shape().end()), v, DType::Float32).to(d)); k++; }
}
void training(Ctx& c) {
  int n = 1 + c.pick(3), cap = c.pick(3), root = c.pick(n), steps = 1 + c.pick(c.thorough() ? 3 : 2), cached = c.pick(2), clock = c.pick(2);
  const int64_t caps[] = {1, 60, 1 << 20};
  c.desc("%d replicas, buckets of %lld bytes, weights of replica %d, %d steps%s", n, (long long)caps[cap], root, steps, clock ? ", slow start" : "");
  ncclemu::mode = {}; ncclemu::mode.slow = clock * 2;
  World w; w.cached = cached; w.deviations = c.thorough() || (n == 2 && cap == 1 && steps == 1) ? 1 : 0;
  if (n > 1) w.devs = {1, 0, 2};
  const int per = 2, rows = per * n;
  std::vector<double> X((size_t)rows * 3), Y((size_t)rows * 2);
  for (size_t i = 0; i < X.size(); i++) X[i] = (double)((int)(i * 5 % 9) - 4) / 4;
  for (size_t i = 0; i < Y.size(); i++) Y[i] = (double)((int)(i * 3 % 5) - 2) / 2;
  // one replica with all the data
  std::vector<std::vector<double>> ref;
  {
    Net m; fill(m, root, Device(DeviceType::CPU));
    optim::SGD opt(m.parameters(), 0.1f);
    Tensor x = mk({rows, 3}, X, DType::Float32), y = mk({rows, 2}, Y, DType::Float32);
    for (int s = 0; s < steps; s++) { opt.zeroGrad(); auto l = function::mseLoss(m(x), y); l.backward(); opt.step(); }
    for (auto* p : m.parameters()) ref.push_back(rt(*p).v);
  }
  std::string file = mc::scratchDir() + "/store";
  std::filesystem::remove_all(file);
  world(c, n, w, [&](Rep& r) {
    std::shared_ptr<DistributedProcessGroup> g = std::make_shared<DistributedProcessGroup>();
    if (!g->initProcessGroup(NCCL, "file://" + file, r.rank, n, milliseconds(20000))) c.fail("init", "replica %d: the group is not made", r.rank);
    if (g->getRank() != r.rank || g->getWorldSize() != n || !g->isInitialized()) c.fail("init", "rank %d of %d", g->getRank(), g->getWorldSize());
    Device dev(DeviceType::CUDA, (DeviceIndex)r.dev);
    {
      Net m; m.to(dev); fill(m, r.rank, dev);
      DistributedModule dm(m, g, root, caps[cap]);
      optim::SGD opt(m.parameters(), 0.1f);
      std::vector<double> xs(X.begin() + r.rank * per * 3, X.begin() + (r.rank + 1) * per * 3), ys(Y.begin() + r.rank * per * 2, Y.begin() + (r.rank + 1) * per * 2);
      Tensor x = r.put({per, 3}, xs, DType::Float32), y = r.put({per, 2}, ys, DType::Float32);
      for (int s = 0; s < steps; s++) { opt.zeroGrad(); auto l = function::mseLoss(dm(x), y); l.backward(); opt.step(); }
      int k = 0;
      for (auto* p : m.parameters()) { same(r, "weights", fetch(*p), ref[(size_t)k], "parameter " + std::to_string(k)); k++; }
    }
    g->barrier(false, {r.dev});
    g->destroyProcessGroup();
    if (g->isInitialized()) c.fail("init", "initialised after destroyProcessGroup");
  });
  std::filesystem::remove_all(file);
  if (n > 1) c.nontrivial();
  c.outcome(mix((uint64_t)(n * 8 + cap), (uint64_t)steps));
}
int reg() {
  add("collectives", "every collective, reduction, root, type, shape, kind of storage and way to wait", collectives, 4);
  add("sequences", "every sequence of operations and computations, three ways to wait", sequences, 3);
  add("schedules", "shorter sequences under every schedule with one deviation", schedules, 2);
  add("waits", "waiting with and without a limit for a late replica", waits, 5);
  add("barriers", "nobody passes a barrier before all have come", barriers, 5);
  add("failures", "a failure of every call of the collective library", failures, 4);
  add("lifecycles", "shutdown, abort and destruction with work under way, and a new start", lifecycles, 4);
  add("devices", "replicas that change devices", devices, 3);
  add("training", "data-parallel training against training on all the data", training, 5);
  return 0;
}
int r_ = reg();
}  // namespace
