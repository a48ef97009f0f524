// C01: threads that work on tensors of their own, on clones of a common tensor, or only read common ones.
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <memory>
#include <mutex>
#include <set>
#include <unistd.h>
#include "optable.h"
#include "../mc/sim.h"
#include "Data/DataLoader.h"
#include "Modules.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include "Serializer.h"
using namespace mc;
using namespace sim;

// ---- output of the library: every call that writes text is a scheduling point and touches its buffers
extern "C" {
void __tsan_write_range(void*, size_t);
void __tsan_read_range(void*, size_t);
#define NOTSAN __attribute__((no_sanitize("thread")))
static NOTSAN bool visible() { return cur && !g_internal; }
NOTSAN int vsnprintf(char* b, size_t n, const char* f, va_list a) {
  static auto rf = (int (*)(char*, size_t, const char*, va_list))sim::real("vsnprintf");
  if (visible()) point("text formatting");
  int r = rf(b, n, f, a);
  if (visible() && n && r >= 0) __tsan_write_range(b, (size_t)r < n ? r + 1 : n);
  return r;
}
NOTSAN int vfprintf(FILE* o, const char* f, va_list a) {
  static auto rf = (int (*)(FILE*, const char*, va_list))sim::real("vfprintf");
  if (visible()) {
    point("text output");
    va_list b; va_copy(b, a);
    // strings given as arguments are read now
    for (const char* p = f; *p; p++) {
      if (*p != '%') continue;
      p++;
      if (*p == 's') { char* s = va_arg(b, char*); __tsan_read_range(s, strlen(s) + 1); }
      else if (*p == 'd') (void)va_arg(b, int);
      else break;
    }
    va_end(b);
  }
  return rf(o, f, a);
}
NOTSAN int fprintf(FILE* o, const char* f, ...) { va_list a; va_start(a, f); int r = vfprintf(o, f, a); va_end(a); return r; }
NOTSAN int printf(const char* f, ...) { va_list a; va_start(a, f); int r = vfprintf(stdout, f, a); va_end(a); return r; }
NOTSAN int fputs(const char* s, FILE* o) {
  static auto rf = (int (*)(const char*, FILE*))sim::real("fputs");
  if (visible()) { point("text output"); __tsan_read_range((void*)s, strlen(s) + 1); }
  return rf(s, o);
}
NOTSAN size_t fwrite(const void* p, size_t a, size_t b, FILE* o) {
  static auto rf = (size_t(*)(const void*, size_t, size_t, FILE*))sim::real("fwrite");
  if (visible()) { point("text output"); __tsan_read_range((void*)p, a * b); }
  return rf(p, a, b, o);
}
}

namespace {
typedef std::vector<double> Out;
void put(Out& o, const Tensor& t) {
  o.push_back(t.dim());
  for (auto d : t.shape()) o.push_back((double)d);
  for (double v : rawValues(t)) o.push_back(v);
  o.push_back(t.requiresGrad());
}
bool sameOut(const Out& a, const Out& b) {
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}

// ---- what a thread does: `prep` makes its own objects before the threads start, `body` runs in the thread
struct Own { TL x; std::shared_ptr<void> obj; std::string file; };
struct Prog {
  const char* n;
  std::function<void(Own&)> prep;
  std::function<void(Own&, Out&)> body;
  bool logs = false;
};
Tensor T(Sh s, double k, bool g = false, DType d = DType::Float32) {
  std::vector<double> v(numelOf(s));
  for (size_t i = 0; i < v.size(); i++) v[i] = k + 0.25 * (double)((i * 7 + 3) % 11);
  return mk(s, v, d, g);
}
struct Net : nn::Module {
  nn::Linear a{3, 4}, b{4, 2};
  Net() {
    registerModules({{"a", a}, {"b", b}});
    double k = 0.1;
    for (auto* p : parameters()) { auto* d = p->dataPtr<float>(); for (int64_t i = 0; i < p->numel(); i++) d[i] = (float)(k += 0.05) - 0.5f; }
  }
  Tensor forward(const Tensor& x) override { return b(function::relu(a(x))); }
};
void putNet(Out& o, Net& n) { for (auto* p : n.parameters()) { put(o, *p); if (p->grad().defined()) put(o, p->grad()); } }
template <class O> void train(Own& s, Out& o, O&& opt, Net& n, int steps) {
  for (int k = 0; k < steps; k++) {
    opt.zeroGrad();
    Tensor l = function::mseLoss(n(s.x[0]), s.x[1]);
    l.backward();
    opt.step();
    o.push_back(l.item<float>());
  }
  putNet(o, n);
}
struct Numbers : data::Dataset {
  size_t size() const override { return 5; }
  std::vector<Tensor> getItem(size_t i) override { return {Tensor::full({2}, (float)i), Tensor::full({1}, (int64_t)i, options::dtype(DType::Int64))}; }
};

const std::vector<Prog>& progs() {
  using namespace function;
  auto none = [](Own&) {};
  auto two = [](Own& s) { s.x = {T({2, 3}, 0.5, true), T({2, 3}, 1.0, true)}; };
  auto net = [](Own& s) { s.obj = std::make_shared<Net>(); s.x = {T({2, 3}, 0.25), T({2, 2}, 0.5)}; };
#define NET (*(Net*)s.obj.get())
  static const std::vector<Prog> v = {
    {"fill", none, [](Own&, Out& o) {
       put(o, Tensor::zeros({2, 3})); put(o, Tensor::ones({3})); put(o, Tensor::full({2}, 1.5f)); put(o, Tensor::arange<int64_t>(0, 5)); put(o, Tensor::linspace<float>(0.f, 1.f, 4));
       Tensor t = Tensor::zeros({2, 2}); t.fill_(2.f); put(o, t); put(o, Tensor::scalar(3.f)); put(o, Tensor(std::vector<std::vector<float>>{{1, 2}, {3, 4}})); }},
    {"inplace", two, [](Own& s, Out& o) {
       Tensor t = s.x[0].clone(); t.setRequiresGrad(false); Tensor u = t; t += Scalar(1.f); t *= s.x[1]; t.reshape_({3, 2}); t.transpose_(0, 1); t.unsqueeze_(0); t.squeeze_(0); t.flatten_(); t.fillMasked_(t < Scalar(1.f), 9.f);
       put(o, t); put(o, u); put(o, s.x[0]); Tensor w = u.view({6}); w += Scalar(1.f); put(o, u); put(o, w); }},
    {"reorder", [](Own& s) { s.x = {T({2, 3, 4}, 0)}; }, [](Own& s, Out& o) { put(o, s.x[0].permute({2, 0, 1})); put(o, s.x[0].transpose(0, 2)); put(o, s.x[0].permute()); Tensor t = s.x[0]; t.permute_({1, 2, 0}); put(o, t); }},
    {"types", none, [](Own&, Out& o) { for (DType d : {DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool}) { Tensor t = T({2, 3}, 0.5).to(d); put(o, t); put(o, t.to(DType::Float32)); for (auto x : t.to(DType::Int64).toList<int64_t>()) o.push_back((double)x); } }},
    {"index", [](Own& s) { s.x = {T({3, 4}, 0), T({2, 4}, 5)}; }, [](Own& s, Out& o) {
       put(o, op::index(s.x[0], IntArrayView{0, 1})); Tensor t = s.x[0].clone(); op::indexPut(t, IntArrayView{1}, T({4}, 7)); put(o, t); auto p = s.x[0].split(2, 1); p[0] += Scalar(1.f); put(o, p[0]); put(o, s.x[0]); auto q = s.x[1].chunk(2, 0); put(o, q[1]); Tensor n = s.x[1].narrow(0, 1, 1); put(o, n); }},
    {"graph", two, [](Own& s, Out& o) {
       Tensor y = s.x[0] * s.x[1]; Tensor z = (y + y.sin()).sum() + s.x[0].sum(); z.backward(); put(o, z); put(o, s.x[0].grad()); put(o, s.x[1].grad());
       s.x[0].zeroGrad(); (s.x[0] * s.x[0]).sum().backward(); put(o, s.x[0].grad()); }},
    {"no-grad", two, [](Own& s, Out& o) {
       Tensor a = s.x[0] * s.x[1]; { NoGradGuard g; Tensor b = s.x[0] * s.x[1]; put(o, b); { NoGradGuard h; put(o, s.x[0].sin()); } put(o, s.x[0] + s.x[1]); } Tensor d = s.x[0] / s.x[1]; put(o, d); put(o, a); d.sum().backward(); put(o, s.x[1].grad()); }},
    {"train-sgd", net, [](Own& s, Out& o) { train(s, o, optim::SGD(NET.parameters(), 0.1f, 0.9f), NET, 1); }},
    {"train-adam", net, [](Own& s, Out& o) { optim::Adam a(NET.parameters(), 0.1f); train(s, o, a, NET, 1); }},
    {"optimizers", [](Own& s) { s.x = {T({3}, 1, true)}; }, [](Own& s, Out& o) {
       auto go = [&](optim::Optimizer&& k) { for (int i = 0; i < 1; i++) { k.zeroGrad(); (s.x[0] * s.x[0]).sum().backward(); k.step(); } put(o, s.x[0]); };
       go(optim::Adagrad({&s.x[0]}, 0.1f)); go(optim::RMSprop({&s.x[0]}, 0.01f, 0.9f, 1e-8f, 0, 0.9f, true)); go(optim::AdaDelta({&s.x[0]})); go(optim::AdamW({&s.x[0]})); }},
    {"schedule", net, [](Own& s, Out& o) { optim::SGD k(NET.parameters(), 0.5f); optim::lr_scheduler::StepLR l(k, 1, 0.5f); for (int i = 0; i < 2; i++) { if (i) train(s, o, k, NET, 1); l.step(); o.push_back(k.getLr()); } }},
    {"save-load", net, [](Own& s, Out& o) {
       o.push_back(save(NET, s.file)); for (auto* p : NET.parameters()) { NoGradGuard g; *p += Scalar(1.f); } o.push_back(load(NET, s.file)); putNet(o, NET); ::remove(s.file.c_str()); }},
    {"layers", [](Own& s) { s.x = {T({1, 2, 4, 4}, 0, true), T({2, 2, 3, 3}, -1, true), T({2, 4}, 0, true), T({4}, 1, true), T({1, 2, 3, 2}, 0)}; }, [](Own& s, Out& o) {
       Tensor y = maxPool2d(conv2d(s.x[0], s.x[1], Tensor(), 1, 1), 2, 2); y.sum().backward(); put(o, y); put(o, s.x[1].grad());
       Tensor z = layerNorm(s.x[2], IntArrayView{4}, s.x[3], Tensor(), 1e-5f); z = logSoftmax(z, 1); put(o, z); put(o, softmax(s.x[2], 0)); put(o, rmsNorm(s.x[2], IntArrayView{4}, s.x[3], 1e-5f)); put(o, sdpAttention(s.x[4], s.x[4], s.x[4], true)); }},
    {"select", [](Own& s) { s.x = {T({2, 5}, 0)}; }, [](Own& s, Out& o) { auto p = sort(s.x[0], 1); put(o, p.first); put(o, p.second); auto q = topk(s.x[0], 2, 1); put(o, q.first); put(o, cumsum(s.x[0], 1)); auto m = s.x[0].max(1); put(o, m.first); put(o, m.second); }},
    {"batches", [](Own& s) { s.obj = std::make_shared<data::DataLoader>(std::make_shared<Numbers>(), 2, nullptr, false); }, [](Own& s, Out& o) { for (auto [i, b] : *(data::DataLoader*)s.obj.get()) { o.push_back((double)i); for (auto& t : b) put(o, t); } }},
    {"big", none, [](Own&, Out& o) { Tensor a = Tensor::empty({600, 500}); a.dataPtr<float>()[299999] = 3.f; Tensor b = Tensor::empty({3000, 1000}); b.dataPtr<float>()[0] = 1.f; { Tensor k = Tensor::ones({3}); put(o, k); } o.push_back(a.dataPtr<float>()[299999] + b.dataPtr<float>()[0]); a = Tensor(); Tensor d = Tensor::empty({400, 500}); d.dataPtr<float>()[199999] = 2.f; o.push_back(d.dataPtr<float>()[199999]); }},
    {"hooks", two, [](Own& s, Out& o) {
       Tensor y = s.x[0] * s.x[1];
       auto id = s.x[0].registerHook([](void* p, Tensor& g) { ((Out*)p)->push_back(g.numel()); g *= Scalar(2.f); }, &o);
       y.sum().backward(); put(o, s.x[0].grad()); s.x[0].unregisterHook(id); }},
    {"bad-calls", two, [](Own& s, Out& o) { s.x[0].reshape({7}); s.x[0].squeeze(5); s.x[1].flatten(3, 4); put(o, s.x[0]); }, true},
  };
  return v;
}

// every operation of the table, with its backward pass where it has one
const std::set<std::string>& forwardOnly() { static const std::set<std::string> v = {"add-broadcast", "sqrt", "maximum", "minimum", "gelu", "silu", "matmul", "linear-bias", "embedding", "layerNorm", "rmsNorm", "sdpAttention", "siluMul", "min", "max", "min-dim", "max-dim", "sum-dim", "sum-dims", "mean", "mean-dim", "mean-dims", "var", "var-dim", "var-dims", "varMean", "varMean-dim", "topk", "sort", "cumsum", "transpose", "transpose-same", "t", "tril", "triu-all", "split", "split-whole", "split-sections", "chunk", "chunk-one", "concat", "stack", "concat-one", "hstack", "vstack", "narrow", "narrow-whole", "gather", "scatter", "expand", "expand-same", "indexSelect", "repeatInterleave", "repeatInterleave-1", "ropeApply"}; return v; }
// what needs the common random stream is left out
std::vector<int> opIds(bool shared) {
  static const std::set<std::string> views = {"add-broadcast", "linear-bias", "narrow", "narrow-whole", "split", "split-whole", "split-sections", "chunk", "chunk-one"};   // taking a view of a tensor marks it
  std::vector<int> r;
  for (size_t i = 0; i < ops().size(); i++) { std::string n = ops()[i].n; if (n == "dropout-0" || (shared && views.count(n))) continue; r.push_back((int)i); }
  return r;
}
void runOp(const Op& op, TL& x, Out& o) {
  TL r = op.f(x);
  for (auto& t : r) put(o, t);
  bool any = false;
  if (forwardOnly().count(op.n)) return;
  for (auto& t : r)
    if (t.requiresGrad() && t.dtype() == DType::Float32) { any = true; t.backward(Tensor::onesLike(t)); }
  if (any) for (int k = 0; k < op.in; k++) if (x[k].grad().defined()) put(o, x[k].grad());
}
TL inputs(bool grad) { TL x; for (int k = 0; k < 3; k++) x.push_back(mk(val(k), DType::Float32, grad)); return x; }

// what the library prints during a run
struct Capture {
  int fd, o1, o2;
  Capture() {
    static int m = memfd_create("log", 0);
    fd = m;
    fflush(stdout); fflush(stderr);
    if (ftruncate(fd, 0)) {}
    lseek(fd, 0, SEEK_SET);
    o1 = dup(1); o2 = dup(2); dup2(fd, 1); dup2(fd, 2);
  }
  ~Capture() { stop(); }
  void stop() { if (o1 < 0) return; fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); o1 = -1; }
  std::multiset<std::string> lines() {
    stop();
    std::multiset<std::string> r; std::string t; char b[4096]; ssize_t n; off_t p = 0;
    while ((n = pread(fd, b, sizeof b, p)) > 0) { t.append(b, n); p += n; }
    size_t i = 0;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); r.insert(t.substr(i, e - i)); i = e + 1; }
    return r;
  }
};
struct Ref { Out out; std::multiset<std::string> lines; bool done = false; };

struct Task { const char* n; std::function<void(Own&)> prep; std::function<void(Own&, Out&)> body; Ref* ref; };
Task progTask(int i) {
  static std::vector<Ref> refs(progs().size());
  const Prog& p = progs()[i];
  return Task{p.n, p.prep, p.body, &refs[i]};
}
Task opTask(int i) {
  static std::vector<Ref> refs(ops().size());
  const Op& op = ops()[i];
  return Task{op.n, [](Own& s) { s.x = inputs(true); }, [&op](Own& s, Out& o) { runOp(op, s.x, o); }, &refs[i]};
}
Config conf(Ctx& c, int dev) { Config k; k.deviations = dev; k.unlocks = true; k.ownAtomics = false; k.loadsAcquire = true; k.maxSteps = 2000000; return k; }
std::string fileName(int i) { return scratchDir() + "/own" + std::to_string(i); }

void together(Ctx& c, std::vector<Task> ts, int dev, bool cache) {
  CachedAllocator::setCacheEnabled(cache);
  for (auto& t : ts)
    if (!t.ref->done) {  c.site((std::string("alone: ") + t.n).c_str()); // alone; twice, so that what happens only once in a process has happened
      for (int k = 0; k < 2; k++) {
        Own s; s.file = fileName(9); t.ref->out.clear();
        Capture cap;
        t.prep(s); t.body(s, t.ref->out);
        t.ref->lines = cap.lines();
      }
      t.ref->done = true;
    }
  for (auto& t : ts) c.desc("%s%s", &t == &ts[0] ? "" : " with ", t.n);
  c.desc(cache ? "" : ", allocator cache off");
  c.site(ts[0].n);
  c.nontrivial();
  std::vector<Own> own(ts.size()); std::vector<Out> out(ts.size());
  for (size_t i = 0; i < ts.size(); i++) { own[i].file = fileName((int)i); ts[i].prep(own[i]); }
  Capture cap;
  {
    Sim s(c, conf(c, dev));
    for (size_t i = 0; i < ts.size(); i++) s.spawn("thread" + std::to_string(i), 0, [&, i] { ts[i].body(own[i], out[i]); });
    if (!s.run()) c.fail("deadlock", "threads never finish: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
    for (size_t i = 0; i < ts.size(); i++)
      if (!sameOut(out[i], ts[i].ref->out)) {
        size_t k = 0; while (k < out[i].size() && k < ts[i].ref->out.size() && !memcmp(&out[i][k], &ts[i].ref->out[k], 8)) k++;
        c.fail(std::string("result:") + ts[i].n, "thread %zu (%s) gets other results than alone: value %zu is %g instead of %g\nschedule:%s", i, ts[i].n, k, k < out[i].size() ? out[i][k] : NAN, k < ts[i].ref->out.size() ? ts[i].ref->out[k] : NAN, s.trace.c_str());
      }
    std::multiset<std::string> want;
    for (auto& t : ts) want.insert(t.ref->lines.begin(), t.ref->lines.end());
    auto got = cap.lines();
    if (got != want) {
      std::string bad; for (auto& l : got) if (got.count(l) > want.count(l)) bad = l;
      c.fail("messages", "the messages of the threads are damaged or lost: %zu lines instead of %zu; \"%s\"\nschedule:%s", got.size(), want.size(), bad.c_str(), s.trace.c_str());
    }
    c.outcome(s.steps);
  }
  out.clear();
}

void fOps(Ctx& c) {
  static const std::vector<int> ids = opIds(false);
  int n = (int)ids.size();
  int i = c.pick(n), d = c.pick(c.thorough() ? n : 3);   // quick: itself and its two neighbours
  if (c.thorough() && i + d >= n) c.skip();
  together(c, {opTask(ids[i]), opTask(ids[(i + d) % n])}, d == 0 && c.thorough() ? 2 : 1, true);
}
void fProgs(Ctx& c) {
  int n = (int)progs().size();
  int i = c.pick(n), d = c.pick(c.thorough() ? n : 3);   // quick: itself and two others
  if (c.thorough() && i + d >= n) c.skip();
  bool cache = c.pick(d == 0 || c.thorough() ? 2 : 1) == 0;
  together(c, {progTask(i), progTask((i + (c.thorough() ? d : d * 5)) % n)}, 1, cache);
}
void fDeep(Ctx& c) {
  static const std::vector<int> small = {0, 2, 4, 5, 6, 17};
  int i = c.pick((int)small.size()), j = c.pick((int)small.size());
  if (j < i) c.skip();
  together(c, {progTask(small[i]), progTask(small[j])}, 2, true);
}
void fThree(Ctx& c) {
  static const std::vector<int> some = {0, 2, 5, 6, 17};
  int i = c.pick((int)some.size()), j = c.pick((int)some.size()), k = c.pick((int)some.size());
  if (j < i || k < j) c.skip();
  together(c, {progTask(some[i]), progTask(some[j]), progTask(some[k])}, 1, true);
}

// both threads only read the same tensors, with recording off or nothing to record
void fShared(Ctx& c) {
  static const std::vector<int> ids = opIds(true);
  int n = (int)ids.size();
  int i = c.pick(n), d = c.pick(c.thorough() ? 8 : 2), mode = c.pick(2);   // mode 1: parameters that require gradients, recording off
  const Op* op[2] = {&ops()[ids[i]], &ops()[ids[(i + d) % n]]};
  CachedAllocator::setCacheEnabled(true);
  c.desc("%s and %s reading the same %s", op[0]->n, op[1]->n, mode ? "parameters in no-grad scopes" : "tensors"); c.site(op[0]->n); c.nontrivial();
  Out want[2], got[2];
  TL x = inputs(mode == 1);
  auto go = [&](const Op& o, Out& out) {
    std::unique_ptr<NoGradGuard> g; if (mode) g.reset(new NoGradGuard);
    TL r = o.f(x);
    for (auto& t : r) put(out, t);
  };
  { Capture cap; for (int r = 0; r < 2; r++) for (int k = 0; k < 2; k++) { want[k].clear(); go(*op[k], want[k]); } }
  x = inputs(mode == 1);
  Capture cap;
  Sim s(c, conf(c, 1));
  for (int k = 0; k < 2; k++) s.spawn("thread" + std::to_string(k), 0, [&, k] { go(*op[k], got[k]); });
  if (!s.run()) c.fail("deadlock", "threads never finish: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  for (int k = 0; k < 2; k++) if (!sameOut(got[k], want[k])) c.fail(std::string("shared-result:") + op[k]->n, "thread %d gets other results than alone\nschedule:%s", k, s.trace.c_str());
  for (int k = 0; k < 3; k++) expect(c, std::string("shared-changed:") + op[0]->n, x[k], val(k));
}
// one model used by several threads for inference
void fInfer(Ctx& c) {
  int threads = c.pick({2, 3});
  c.desc("%d threads run one model on their own batches", threads); c.nontrivial(); c.site("inference");
  CachedAllocator::setCacheEnabled(true);
  Net net; net.eval();
  std::vector<Tensor> in; std::vector<Out> want(threads), got(threads);
  for (int k = 0; k < threads; k++) in.push_back(T({2, 3}, k));
  for (int k = 0; k < threads; k++) { NoGradGuard g; put(want[k], net(in[k])); }
  Sim s(c, conf(c, threads == 2 ? 2 : 1));
  for (int k = 0; k < threads; k++) s.spawn("thread" + std::to_string(k), 0, [&, k] { NoGradGuard g; put(got[k], net(in[k])); });
  if (!s.run()) c.fail("deadlock", "threads never finish: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  for (int k = 0; k < threads; k++) if (!sameOut(got[k], want[k])) c.fail("inference", "thread %d gets other results than alone\nschedule:%s", k, s.trace.c_str());
}
// each thread changes its own clone of a common tensor
struct Change { const char* n; std::function<void(Tensor&)> f; };
const std::vector<Change>& changes() {
  static const std::vector<Change> v = {
    {"+= 1", [](Tensor& t) { t += Scalar(1.f); }}, {"fill", [](Tensor& t) { t.fill_(5.f); }}, {"view write", [](Tensor& t) { Tensor v = t.view({6}); v *= Scalar(2.f); }},
    {"transpose", [](Tensor& t) { t.transpose_(0, 1); }}, {"narrow write", [](Tensor& t) { Tensor n = t.narrow(0, 1, 1); n += Scalar(3.f); }}, {"copy", [](Tensor& t) { Tensor u = t; t = t.clone(); t += u; }},
    {"drop", [](Tensor& t) { t = Tensor(); }}, {"read", [](Tensor& t) { Tensor s = t.sum(); }}, {"data", [](Tensor& t) { t.copyOnWrite(); t.dataPtr<float>()[2] = 9; }}, {"mask", [](Tensor& t) { t.fillMasked_(t > Scalar(0.5f), 0.f); }}, {"backward", [](Tensor& t) { t.setRequiresGrad(true); (t * t).sum().backward(); t = t.grad(); }},
  };
  return v;
}
void fClones(Ctx& c) {
  int n = (int)changes().size(), i = c.pick(n), j = c.pick(n), keep = c.pick(3);   // keep: nobody, the harness, or a third thread holds the original
  if (j < i) c.skip();
  const Change* ch[2] = {&changes()[i], &changes()[j]};
  c.desc("\"%s\" and \"%s\" on clones of one tensor, original %s", ch[0]->n, ch[1]->n, keep == 0 ? "gone" : keep == 1 ? "kept" : "read"); c.nontrivial(); c.site(ch[0]->n);
  CachedAllocator::setCacheEnabled(true);
  Out want[2], got[2], orig, origWant;
  for (int k = 0; k < 2; k++) { Tensor t = mk(val(k == 0 ? 0 : 0)); ch[k]->f(t); if (t.defined()) put(want[k], t); }
  Tensor base = mk(val(0)); put(origWant, base);
  Tensor cl[2] = {base.clone(), base.clone()};
  if (keep == 0) base = Tensor();
  bool few = strchr("vtcmb", ch[0]->n[0]) || strchr("vtcmb", ch[1]->n[0]);   // the long ones
  Sim s(c, conf(c, (few || keep == 2 ? 1 : 2) + (c.thorough() ? 1 : 0)));
  for (int k = 0; k < 2; k++) s.spawn("thread" + std::to_string(k), 0, [&, k] { ch[k]->f(cl[k]); if (cl[k].defined()) put(got[k], cl[k]); });
  if (keep == 2) s.spawn("reader", 0, [&] { put(orig, base); });
  if (!s.run()) c.fail("deadlock", "threads never finish: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  if (keep == 1) put(orig, base);
  for (int k = 0; k < 2; k++) if (!sameOut(got[k], want[k])) c.fail(std::string("clone:") + ch[k]->n, "the clone of thread %d ends up with other values than alone\nschedule:%s", k, s.trace.c_str());
  if (keep && !sameOut(orig, origWant)) c.fail("clone-original", "the original changes\nschedule:%s", s.trace.c_str());
}

struct Reg {
  Reg() {
    mc::add("operation-pairs", "every operation (with its backward pass) in one thread against itself and its neighbours in the table (thorough: against every operation) in another, every schedule with one deviation; two deviations for an operation against itself in the thorough tier", fOps, 2);
    mc::add("programs", "18 programs against themselves and two others (thorough: every pair) (creation, in-place changes, reordering, conversions, indexing, graphs, no-grad scopes, training, optimizers, schedules, save and load, layers, selection, batches, large blocks, hooks, rejected calls), allocator cache on and, for programs against themselves, off; every schedule with one deviation", fProgs, 3);
    mc::add("programs-deep", "pairs of short programs, every schedule with two deviations", fDeep, 2, 1);
    mc::add("three-threads", "three threads with short programs, every schedule with one deviation", fThree, 3);
    mc::add("common-inputs", "pairs of operations that read the same tensors, or the same parameters in no-grad scopes", fShared, 3);
    mc::add("inference", "two or three threads run one model on their own batches, every schedule with two deviations (three threads: one)", fInfer, 1);
    mc::add("clones", "every pair of changes to clones of a common tensor, the original gone, kept or read by a third thread, every schedule with two (thorough: three) deviations", fClones, 3);
  }
} reg;
}  // namespace
