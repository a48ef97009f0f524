import runpy, os
_s1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seeds", "s1.py"))
H, ALLOC = _s1["H"], _s1["ALLOC"]
NEAR = '''static bool near(float a, float b) { return std::fabs(a - b) <= 1e-5f * (1 + std::fabs(b)); }
'''
SEEDS = [
 dict(id="O01-rms-centered-raw", property="O01", needs="centered RMSprop together with weight decay",
  breaks="the running mean of the gradient is taken over the raw gradient, not the decayed one the second moment uses",
  edits=[("src/Optimizer.cpp", "g = alpha_ * g + (1.f - alpha_) * grad;", "g = alpha_ * g + (1.f - alpha_) * param->grad();")],
  demo=H + NEAR + '''
int main() {
  Tensor p(Array1d<float>({1.f, -2.f}), options::requiresGrad(true));
  optim::RMSprop opt({&p}, 0.1f, 0.9f, 1e-3f, 0.5f, 0.f, true);
  double w[2] = {1, -2}, v[2] = {0, 0}, a[2] = {0, 0};
  for (int step = 0; step < 3; step++) {
    p.setGrad(Tensor(Array1d<float>({0.5f + step, 1.f})));
    opt.step();
    for (int i = 0; i < 2; i++) {
      double g = (i ? 1.0 : 0.5 + step) + 0.5 * w[i];
      v[i] = 0.9 * v[i] + 0.1 * g * g; a[i] = 0.9 * a[i] + 0.1 * g;
      w[i] -= 0.1 * g / (std::sqrt(v[i] - a[i] * a[i]) + 1e-3);
    }
    CHECK(near(vals(p)[0], w[0]) && near(vals(p)[1], w[1]));
  }
  return bad;
}
'''),
 dict(id="O01-amsgrad-short-memory", property="O01", needs="AMSGrad over at least three steps: a large gradient, then two small ones",
  breaks="the maximum of the second moment only looks back one step instead of over the whole history",
  edits=[("src/Optimizer.cpp", "      vh = vMax = Tensor::maximum(vMax, vh);", "      auto prev = vMax;\n      vMax = vh;\n      vh = Tensor::maximum(prev, vh);")],
  demo=H + NEAR + '''
int main() {
  Tensor p(Array1d<float>({1.f}), options::requiresGrad(true));
  optim::Adam opt({&p}, 0.1f, {0.9f, 0.5f}, 1e-4f, 0.f, true);
  double w = 1, m = 0, v = 0, mx = 0, gs[] = {4, 0.1, 0.1, 0.2};
  for (int t = 1; t <= 4; t++) {
    p.setGrad(Tensor(Array1d<float>({(float)gs[t - 1]})));
    opt.step();
    double g = gs[t - 1];
    m = 0.9 * m + 0.1 * g; v = 0.5 * v + 0.5 * g * g;
    mx = std::max(mx, v / (1 - std::pow(0.5, t)));
    w -= 0.1 * m / (1 - std::pow(0.9, t)) / (std::sqrt(mx) + 1e-4);
    CHECK(std::fabs(vals(p)[0] - w) < 1e-3);
  }
  return bad;
}
'''),
 dict(id="O02-user-rate-lost", property="O02", needs="the user setting the learning rate between two scheduler steps",
  breaks="the schedule continues from its own last rate and overwrites the one the user set",
  edits=[("src/Scheduler.cpp", "    return optimizer_.getLr();\n", "    return lastEpoch_ == 0 ? optimizer_.getLr() : lastLr_;\n"), ("src/Scheduler.cpp", "  return optimizer_.getLr() * gamma_;", "  return lastLr_ * gamma_;")],
  demo=H + NEAR + '''
int main() {
  Tensor p(Array1d<float>({1.f}), options::requiresGrad(true));
  optim::SGD opt({&p}, 1.f);
  optim::lr_scheduler::StepLR s(opt, 2, 0.5f);
  s.step(); s.step();
  CHECK(near(opt.getLr(), 0.5f));
  opt.setLr(0.2f);
  s.step();
  CHECK(near(opt.getLr(), 0.2f));
  s.step();
  CHECK(near(opt.getLr(), 0.1f));
  return bad;
}
'''),
 dict(id="M01-train-shortcut", property="M01", needs="a child whose mode was set on its own before the mode of the tree is set",
  breaks="a module that is already in the requested mode does not pass it on to its children",
  edits=[("src/Module/Module.h", "    training_ = mode;\n", "    if (training_ == mode) {\n      return;\n    }\n    training_ = mode;\n")],
  demo=H + '''
struct Probe : nn::Module { bool mode() const { return training_; } };
int main() {
  auto a = std::make_shared<Probe>(), b = std::make_shared<Probe>();
  nn::Sequential s({a, b});
  a->eval();
  s.train();
  CHECK(a->mode() && b->mode());
  s.eval();
  b->train();
  s.eval();
  CHECK(!a->mode() && !b->mode());
  return bad;
}
'''),
 dict(id="M01-to-parameters-only", property="M01", needs="a module with a state that is not a parameter (a running statistic), converted to another type",
  breaks="type conversion reaches the parameters but not the other states",
  edits=[("src/Module/Module.h", "  virtual void to(DType type) {\n    auto allStates = namedStates();", "  virtual void to(DType type) {\n    auto allStates = namedParameters();")],
  demo=H + '''
struct Stat : nn::Module {
  Tensor w = Tensor::ones({2}), mean = Tensor::zeros({2});
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { return {{"w", &w}}; }
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override { return {{"w", &w}, {"mean", &mean}}; }
};
int main() {
  Stat m;
  m.to(DType::Float16);
  CHECK(m.w.dtype() == DType::Float16);
  CHECK(m.mean.dtype() == DType::Float16);
  return bad;
}
'''),
 dict(id="S02-shape-by-count", property="S02", needs="a file whose tensor has the model's number of elements but another shape",
  breaks="a saved tensor of another shape with the same number of elements is accepted",
  edits=[("src/Serializer.cpp", "    if (shape != tensor->shape()) {", "    int64_t numel = 1;\n    for (auto dim : shape) {\n      numel *= dim;\n    }\n    if (numel != tensor->numel()) {")],
  demo=H + '''
int main() {
  nn::Linear a(2, 3, false), b(3, 2, false);
  CHECK(save(a, "m.bin"));
  auto before = vals(*b.parameters()[0]);
  CHECK(!load(b, "m.bin"));
  CHECK(vals(*b.parameters()[0]) == before);
  return bad;
}
'''),
 dict(id="S02-close-unchecked", property="S02", needs="a write error that only shows when the buffered end of the file is written (disk full)",
  breaks="save decides on success before the last buffered bytes are written, so a failed write goes unreported",
  edits=[("src/Serializer.cpp", "  ofs.close();\n", "")],
  demo=H + '''
int main() {
  nn::Linear a(2, 3, false);
  CHECK(!save(a, "/dev/full"));   // every write to it fails with "no space left"
  CHECK(save(a, "m.bin"));
  CHECK(load(a, "m.bin"));
  return bad;
}
'''),
 dict(id="D01-droplast-dataset-size", property="D01", needs="drop-last together with a sampler that selects fewer or more samples than the dataset has",
  breaks="with drop-last the number of batches comes from the dataset's size instead of the number of selected samples",
  edits=[("src/Data/DataLoader.h", "      batchCnt_ = indices_.size() / batchSize;", "      batchCnt_ = dataset->size() / batchSize;")],
  demo=H + '''
#include <numeric>
#include <random>
#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
struct D : data::Dataset {
  size_t size() const override { return 10; }
  std::vector<Tensor> getItem(size_t i) override { return {Tensor(Array1d<float>({(float)i}))}; }
};
struct Some : data::Sampler {
  std::vector<size_t> indices() const override { return {7, 2, 5, 0, 1}; }
  size_t size() const override { return 5; }
};
int main() {
  data::DataLoader l(std::make_shared<D>(), 2, std::make_shared<Some>(), false, true);
  CHECK(l.size() == 2);
  std::vector<float> seen;
  if (l.size() == 2) for (auto [i, batch] : l) { CHECK(batch[0].shape(0) == 2); for (auto v : vals(batch[0].flatten())) seen.push_back(v); }
  CHECK((seen == std::vector<float>{7, 2, 5, 0}));
  return bad;
}
'''),
 dict(id="D01-sampler-history", property="D01", needs="going back to an earlier epoch, or skipping epochs, with the random sampler",
  breaks="each epoch shuffles the previous epoch's order again, so the order depends on which epochs came before",
  edits=[("src/Data/Sampler.h", "    indices_.resize(datasetSize_);\n    std::iota(indices_.begin(), indices_.end(), 0);\n\n", "    if (indices_.size() != datasetSize_) {\n      indices_.resize(datasetSize_);\n      std::iota(indices_.begin(), indices_.end(), 0);\n    }\n\n")],
  demo=H + '''
#include <numeric>
#include <random>
#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
int main() {
  data::RandomSampler a(20, 3), b(20, 3);
  a.setEpoch(1); a.setEpoch(2);
  b.setEpoch(2);
  CHECK(a.indices() == b.indices());
  a.setEpoch(0);
  CHECK(a.indices() == data::RandomSampler(20, 3).indices());
  return bad;
}
'''),
 dict(id="D02-signed-size", property="D02", needs="an image file whose count, height or width has a low byte of 128 or more",
  breaks="the low byte of a header number is sign-extended, so such sizes come out negative",
  edits=[("src/Data/DatasetMNIST.cpp", "((p[3] & 0xff) << 0)", "(p[3] << 0)")],
  demo=H + '''
#include <numeric>
#include <random>
#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
static void be(FILE* f, unsigned v) { for (int s = 24; s >= 0; s -= 8) fputc((v >> s) & 255, f); }
int main() {
  FILE* f = fopen("train-images-idx3-ubyte", "wb"); be(f, 0x803); be(f, 2); be(f, 1); be(f, 200);
  for (int i = 0; i < 400; i++) fputc(i % 255, f); fclose(f);
  f = fopen("train-labels-idx1-ubyte", "wb"); be(f, 0x801); be(f, 2); fputc(3, f); fputc(9, f); fclose(f);
  data::DatasetMNIST d("./", data::DatasetMNIST::TRAIN, nullptr);
  CHECK(d.size() == 2);
  if (d.size() != 2) return 1;
  auto it = d.getItem(1);
  CHECK(it[0].shape(2) == 200 && it[0].numel() == 200);
  CHECK(vals(it[0].flatten())[3] == 203 / 255.0f);
  CHECK(it[1].item<int64_t>() == 9);
  return bad;
}
'''),
 dict(id="D02-size-of-images", property="D02", needs="a label file with fewer entries than the image file",
  breaks="the dataset exposes every image even where there is no label for it",
  edits=[("src/Data/DatasetMNIST.cpp", "size_ = std::min(images_.size(), labels_.size());", "size_ = labels_.empty() ? 0 : images_.size();")],
  demo=H + '''
#include <numeric>
#include <random>
#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
static void be(FILE* f, unsigned v) { for (int s = 24; s >= 0; s -= 8) fputc((v >> s) & 255, f); }
int main() {
  FILE* f = fopen("t10k-images-idx3-ubyte", "wb"); be(f, 0x803); be(f, 3); be(f, 2); be(f, 2);
  for (int i = 0; i < 12; i++) fputc(i, f); fclose(f);
  f = fopen("t10k-labels-idx1-ubyte", "wb"); be(f, 0x801); be(f, 2); fputc(3, f); fputc(9, f); fclose(f);
  data::DatasetMNIST d("./", data::DatasetMNIST::TEST, nullptr);
  CHECK(d.size() == 2);
  return bad;
}
'''),
 dict(id="R01-reseed-same", property="R01", needs="setting the same seed a second time after draws have been made",
  breaks="setting the seed that is already set does not restart the stream",
  edits=[("src/Utils/RandomGenerator.h", "    seed_ = seed;\n    randomEngine_.seed(seed);", "    if (seed_ == seed) {\n      return;\n    }\n    seed_ = seed;\n    randomEngine_.seed(seed);")],
  demo=H + '''
#include "Utils/RandomGenerator.h"
int main() {
  manualSeed(5); auto a = vals(Tensor::rand({8}));
  auto c = vals(Tensor::rand({8}));
  manualSeed(5); auto b = vals(Tensor::rand({8}));
  CHECK(a == b); CHECK(a != c);
  return bad;
}
'''),
 dict(id="U01-moved-from-capacity", property="U01", needs="reusing a vector whose heap storage was moved out by assignment",
  breaks="a vector moved from by assignment keeps the capacity of the storage it gave away and writes past its inline storage when reused",
  edits=[("src/Utils/VectorUtils.h", "        data_ = other.data_;\n        other.data_ = other.inlineData();\n        other.size_ = 0;\n        other.capacity_ = N;\n      }\n    }\n    return *this;", "        data_ = other.data_;\n        other.data_ = other.inlineData();\n        other.size_ = 0;\n      }\n    }\n    return *this;")],
  demo=H + '''
struct Two { SmallVector<int, 2> v; int guard[64]; };
int main() {
  auto* t = new Two; for (int& g : t->guard) g = 77;
  for (int i = 0; i < 20; i++) t->v.pushBack(i);
  SmallVector<int, 2> w; w = std::move(t->v);
  CHECK(w.size() == 20 && w[19] == 19 && t->v.size() == 0);
  CHECK(t->v.capacity() == 2);
  for (int i = 0; i < 20; i++) t->v.pushBack(100 + i);
  for (int g : t->guard) CHECK(g == 77);
  for (int i = 0; i < 20; i++) CHECK(t->v[i] == 100 + i && w[i] == i);
  return bad;
}
'''),
 dict(id="A03-thread-mode", property="A03", needs="a no-grad scope in one thread while another thread records",
  breaks="the recording mode is shared by all threads",
  edits=[("src/Tensor/NoGradGuard.h", "static thread_local bool gradEnabled;", "static bool gradEnabled;"), ("src/Tensor/NoGradGuard.cpp", "thread_local bool NoGradGuard::gradEnabled = true;", "bool NoGradGuard::gradEnabled = true;")],
  demo="#include <thread>\n" + H + '''
int main() {
  NoGradGuard g;
  bool req = false;
  std::thread([&] { Tensor a = Tensor::ones({2}, options::requiresGrad(true)); req = (a * a).requiresGrad(); }).join();
  CHECK(req);
  Tensor a = Tensor::ones({2}, options::requiresGrad(true));
  CHECK(!(a * a).requiresGrad());
  return bad;
}
'''),
 dict(id="A03-nested-scope", property="A03", needs="a no-grad scope inside another one, and operations after the inner one has ended",
  breaks="leaving an inner no-grad scope turns recording on although the outer one is still active",
  edits=[("src/Tensor/NoGradGuard.h", "~NoGradGuard() { gradEnabled = prevGradEnabled; }", "~NoGradGuard() { gradEnabled = true; }")],
  demo=H + '''
int main() {
  Tensor a = Tensor::ones({2}, options::requiresGrad(true));
  { NoGradGuard g; { NoGradGuard h; CHECK(!(a * a).requiresGrad()); } CHECK(!(a * a).requiresGrad()); }
  CHECK((a * a).requiresGrad());
  return bad;
}
'''),
 dict(id="A02-graph-order", property="A02", needs="a tensor reached along two paths of different length, one of which passes through another use of it",
  breaks="a node is processed after the first of its users instead of after all of them, so its gradient is incomplete when it is passed on",
  edits=[("src/Tensor/AutogradMeta.cpp", "      if (deps[nextFn] == 0) {\n        q.push_back(nextFn);\n      }", "      if (deps[nextFn] == 0 || traversed.erase(nextFn) > 0) {\n        if (traversed.count(gradFn_) > 0) {\n          q.push_back(nextFn);\n        }\n      }")],
  demo=H + '''
int main() { return 0; }
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("A02-graph-order",)]
