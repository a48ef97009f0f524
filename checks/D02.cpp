// D02: MNIST files parse exactly or are rejected; transforms act per definition.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <memory>
#include "tt.h"
#include "Data/DatasetMNIST.h"
#include "Data/Transform.h"
using namespace mc;
using namespace tinytorch::data;
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=1024:detect_leaks=0:handle_abort=0"; }
namespace {
void spill(const std::string& p, const std::string& s) { std::ofstream(p, std::ios::binary) << s; }
std::string be(uint32_t v) { return std::string{(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
struct File { uint32_t n, h, w; std::vector<uint8_t> px; std::vector<uint8_t> lb; uint32_t nl; };
File make(uint32_t n, uint32_t h, uint32_t w, uint32_t nl, int salt) {
  File f{n, h, w, {}, {}, nl};
  for (uint32_t i = 0; i < n * h * w; i++) f.px.push_back((uint8_t)(i * 37 + salt * 91 + (i % 5 == 0 ? 255 : 0)));
  for (uint32_t i = 0; i < nl; i++) f.lb.push_back((uint8_t)(i % 3 == 2 ? 255 - i : i * 7 + salt));
  return f;
}
std::string images(const File& f) { return be(0x803) + be(f.n) + be(f.h) + be(f.w) + std::string(f.px.begin(), f.px.end()); }
std::string labels(const File& f) { return be(0x801) + be(f.nl) + std::string(f.lb.begin(), f.lb.end()); }
std::string dirFor(bool train, const std::string& img, const std::string& lab, const std::string& oimg = "", const std::string& olab = "") {
  std::string d = scratchDir() + "/mn/"; mkdir(d.c_str(), 0700);
  for (int t = 0; t < 2; t++) {
    bool mine = (t == 0) == train; std::string i = d + (t == 0 ? "train-images-idx3-ubyte" : "t10k-images-idx3-ubyte"), l = d + (t == 0 ? "train-labels-idx1-ubyte" : "t10k-labels-idx1-ubyte");
    remove(i.c_str()); remove(l.c_str());
    if (mine || !oimg.empty()) spill(i, mine ? img : oimg);
    if (mine || !olab.empty()) spill(l, mine ? lab : olab);
  }
  return d;
}
void checkGood(Ctx& c, const File& f, DatasetMNIST& ds, std::function<double(double)> tr) {
  size_t want = std::min(f.n, f.nl);
  if (ds.size() != want) c.fail("size", "dataset has %zu samples, expected %zu", ds.size(), want);
  auto one = [&](size_t i) {
    auto item = ds.getItem(i);
    if (item.size() != 2) c.fail("item", "%zu tensors per item", item.size());
    RT im(Sh{1, f.h, f.w}); for (size_t k = 0; k < im.v.size(); k++) im.v[k] = tr((double)((float)f.px[i * f.h * f.w + k] / 255.f));
    expect(c, "image", item[0], im, 1e-6, 1e-6);
    if (item[0].dtype() != DType::Float32 || item[1].dtype() != DType::Int64) c.fail("types", "image %s label %s", dtName(item[0].dtype()), dtName(item[1].dtype()));
    expect(c, "label", item[1], RT(Sh{}, {(double)f.lb[i]}));
  };
  auto all = [&](size_t i) { return want <= 1000 || i < 300 || i + 300 > want || i % 97 == 0; };
  for (size_t i = 0; i < want; i++) if (all(i)) one(i);
  for (size_t i = want; i-- > 0;) if (all(i)) one(i);  // again, backwards: reading a sample does not change it
}
struct Twice : transforms::Transform { Tensor process(Tensor& x) const override { return x * Scalar(2.f); } };
struct Plus : transforms::Transform { Tensor process(Tensor& x) const override { return x + Scalar(1.f); } };
struct Square : transforms::Transform { Tensor process(Tensor& x) const override { return x * x; } };
void fGood(Ctx& c) {
  uint32_t n = c.pick({0, 1, 2, 5}), h = c.pick({1, 2, 3, 28}), w = c.pick({1, 2, 3, 28}), nl = c.pick({0, 1, 2, 5, 7}); bool train = c.flip(); int tr = c.pick(3);
  c.desc("%u images %ux%u, %u labels, %s, transform %d", n, h, w, nl, train ? "train" : "test", tr); if (n > 1) c.nontrivial();
  File f = make(n, h, w, nl, 3), o = make(3, 2, 2, 3, 8);
  std::string d = dirFor(train, images(f) + (n == 2 ? "tail" : ""), labels(f), images(o), labels(o));
  std::shared_ptr<transforms::Transform> t; std::function<double(double)> fn = [](double x) { return x; };
  if (tr == 1) { t = std::make_shared<transforms::Normalize>(0.1307f, 0.3081f); fn = [](double x) { return (x - (double)0.1307f) / (double)0.3081f; }; }
  if (tr == 2) { t = std::make_shared<transforms::Compose>(transforms::Normalize(0.5f, 0.25f), Plus()); fn = [](double x) { return (x - 0.5) / 0.25 + 1; }; }
  DatasetMNIST ds(d, train ? DatasetMNIST::TRAIN : DatasetMNIST::TEST, t);
  checkGood(c, f, ds, fn);
}
void fSizes(Ctx& c) {  // numbers that need more than seven bits of a byte, or several bytes
  static const std::vector<uint32_t> v = {127, 128, 129, 200, 255, 256, 257, 300, 383, 384, 511, 512, 640, 1000, 32767, 32768, 65535, 65536, 70000};
  int field = c.pick(4); uint32_t x = v[c.pick((int)v.size())];
  if ((field == 1 || field == 2) && x > 32768) c.skip();   // larger images are not supported
  uint32_t n = 1, h = 1, w = 1, nl = 1; (field == 0 ? n : field == 1 ? h : field == 2 ? w : nl) = x;
  if (field == 0) { nl = c.pick(2) ? x : 2; } else if (field == 3) n = 3; else if (x <= 300) { n = 2; nl = 2; (field == 1 ? w : h) = 2; }
  c.desc("%u images %ux%u, %u labels", n, h, w, nl); c.nontrivial();
  File f = make(n, h, w, nl, 3);
  DatasetMNIST ds(dirFor(true, images(f), labels(f)), DatasetMNIST::TRAIN, nullptr);
  checkGood(c, f, ds, [](double x) { return x; });
}
void fPixels(Ctx& c) {  // every pixel and label byte
  int v = c.pick(256); File f = make(1, 1, 2, 1, 0); f.px = {(uint8_t)v, (uint8_t)(255 - v)}; f.lb = {(uint8_t)v};
  c.desc("pixel and label byte %d", v); c.nontrivial();
  DatasetMNIST ds(dirFor(true, images(f), labels(f)), DatasetMNIST::TRAIN, nullptr);
  checkGood(c, f, ds, [](double x) { return x; });
}
// damaged files, in a child: rejected is either an empty dataset or a stop by the library's own assertion
void damaged(Ctx& c, const char* key, const std::string& img, const std::string& lab, const File& f, size_t maxGood) {
  std::string d = dirFor(true, img, lab);
  fflush(nullptr);
  int fds[2]; if (pipe(fds)) c.skip();
  pid_t p = fork();
  if (p == 0) {
    close(fds[0]); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    signal(SIGTRAP, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
    struct rlimit c0 = {0, 0}; setrlimit(RLIMIT_CORE, &c0); alarm(10);
    DatasetMNIST ds(d, DatasetMNIST::TRAIN, nullptr);
    int64_t r = (int64_t)ds.size();
    for (size_t i = 0; i < ds.size() && i < 8 && r >= 0; i++) {
      auto it = ds.getItem(i);
      auto v = rawValues(it[0]);
      if (i >= f.lb.size() || rawValues(it[1])[0] != f.lb[i]) r = -1;
      for (size_t k = 0; k < v.size(); k++) if (i * v.size() + k >= f.px.size() || std::fabs(v[k] - f.px[i * v.size() + k] / 255.0) > 1e-6) r = -2;
    }
    if (write(fds[1], &r, 8) != 8) {}
    _exit(0);
  }
  close(fds[1]); int64_t r = -99; bool got = read(fds[0], &r, 8) == 8; close(fds[0]);
  int st = 0; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { int s = WTERMSIG(st); if (s == SIGTRAP || s == SIGABRT) { c.outcome(1); return; } c.fail(std::string(key) + "-crash", "reading the files died with signal %d", s); }
  if (!got || WEXITSTATUS(st) != 0) c.fail(std::string(key) + "-error", "reading the files ended with status %d (memory error or allocation by a corrupted size)", WEXITSTATUS(st));
  if (r < 0) c.fail(std::string(key) + "-garbage", "the dataset yields samples that are not in the files");
  if (r > (int64_t)maxGood) c.fail(std::string(key) + "-accepted", "the dataset claims %ld samples, the files hold %zu complete ones", (long)r, maxGood);
  c.outcome(2 + r);
}
void fTruncated(Ctx& c) {
  File f = make(c.pick({1, 3}), 2, c.pick({1, 2}), c.pick({1, 3}), 1); bool which = c.flip(); std::string i = images(f), l = labels(f);
  std::string& t = which ? i : l; int n = c.pick((int)t.size()); t = t.substr(0, n);
  c.desc("%u images 2x%u, %u labels, the %s file cut to %d bytes", f.n, f.w, f.nl, which ? "image" : "label", n); c.nontrivial();
  damaged(c, "truncated", i, l, f, 0);
}
void fHeader(Ctx& c) {
  File f = make(2, 2, 2, 2, 4); std::string i = images(f), l = labels(f); bool which = c.flip(); int field = c.pick(which ? 4 : 2);
  static const uint32_t vals[] = {0, 1, 2, 3, 4, 5, 255, 256, 0x801, 0x802, 0x803, 0x1000803, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0x40000000, 0x8001, 46341};
  uint32_t v = vals[c.pick(20)]; bool both = c.flip();
  std::string& t = which ? i : l; uint32_t old; { std::string o = t.substr(field * 4, 4); old = (uint8_t)o[0] << 24 | (uint8_t)o[1] << 16 | (uint8_t)o[2] << 8 | (uint8_t)o[3]; }
  t.replace(field * 4, 4, be(v));
  if (both && field == 2) t.replace(12, 4, be(v)); else if (both && which && field == 1) l.replace(4, 4, be(v)); else if (both) c.skip();
  c.desc("%s header field %d: %u instead of %u%s", which ? "image" : "label", field, v, old, both ? " (and its neighbour)" : ""); if (v == old) c.skip(); c.nontrivial();
  // how many whole samples remain readable under the changed header
  uint64_t H = 2, W = 2, N = 2, L = 2;
  if (field == 0) { damaged(c, "magic", i, l, f, 0); return; }
  if (which) { if (field == 1) N = v; if (field == 2) { H = v; if (both) W = v; } if (field == 3) W = v; if (both && field == 1) L = v; } else L = v;
  size_t maxGood = 0;
  if (N < 0x80000000u && L < 0x80000000u && H > 0 && W > 0 && H < 0x80000000u && W < 0x80000000u && H * W <= 8 && N * H * W <= f.px.size() && L <= f.lb.size()) maxGood = std::min(N, L);
  damaged(c, "header", i, l, f, maxGood);
}
void fMissing(Ctx& c) {
  File f = make(2, 2, 2, 2, 4); int how = c.pick(5); c.desc("missing files %d", how); c.nontrivial();
  if (how == 0) damaged(c, "empty", "", labels(f), f, 0); else if (how == 1) damaged(c, "empty", images(f), "", f, 0);
  else if (how == 2) damaged(c, "swapped", labels(f), images(f), f, 0); else if (how == 3) damaged(c, "images-twice", images(f), images(f), f, 0);
  else { DatasetMNIST ds(scratchDir() + "/nowhere/", DatasetMNIST::TRAIN, nullptr); if (ds.size() != 0) c.fail("missing", "a missing dataset has %zu samples", ds.size()); }
}
// transforms
void fTransforms(Ctx& c) {
  int n = c.pick(c.thorough() ? 6 : 5), how = c.pick(3); std::string d; double want[2] = {1.5, -2};
  std::vector<std::shared_ptr<transforms::Transform>> ts; int ks[6];
  for (int i = 0; i < n; i++) {
    int k = c.pick(5); ks[i] = k; d += std::to_string(k);
    std::shared_ptr<transforms::Transform> t;
    if (k == 0) t = std::make_shared<Twice>(); else if (k == 1) t = std::make_shared<Plus>(); else if (k == 2) t = std::make_shared<Square>(); else if (k == 3) t = std::make_shared<transforms::Normalize>(0.5f, 2.f); else t = std::make_shared<transforms::Transform>();
    ts.push_back(t);
    for (auto& w : want) w = k == 0 ? w * 2 : k == 1 ? w + 1 : k == 2 ? w * w : k == 3 ? (w - 0.5) / 2 : w;
  }
  c.desc("transforms %s built %d", d.c_str(), how); if (n > 1) c.nontrivial();
  Tensor x = mk(Sh{2}, {1.5, -2}), y;
  if (how == 0 || n > 3) {
    transforms::Compose cp; for (auto& t : ts) cp.pushBack(std::as_const(t));
    y = cp.process(x);
    if (how == 1) {
      auto inner = std::make_shared<transforms::Compose>(); for (auto& t : ts) inner->pushBack(std::as_const(t));
      transforms::Compose outer; const std::shared_ptr<transforms::Transform> in = inner; outer.pushBack(in); y = outer.process(x);
    }
  } else if (how == 1) {
    y = n == 0 ? transforms::Compose(std::initializer_list<std::shared_ptr<transforms::Transform>>{}).process(x) : n == 1 ? transforms::Compose({ts[0]}).process(x) : n == 2 ? transforms::Compose({ts[0], ts[1]}).process(x) : transforms::Compose({ts[0], ts[1], ts[2]}).process(x);
  } else {  // variadic with values
    if (n == 2 && ks[0] == 3 && ks[1] == 1) y = transforms::Compose(transforms::Normalize(0.5f, 2.f), Plus()).process(x);
    else if (n == 2 && ks[0] == 1 && ks[1] == 3) y = transforms::Compose(Plus(), transforms::Normalize(0.5f, 2.f)).process(x);
    else if (n == 3 && ks[0] == 0 && ks[1] == 1 && ks[2] == 2) y = transforms::Compose(Twice(), Plus(), Square()).process(x);
    else if (n == 3 && ks[0] == 2 && ks[1] == 3 && ks[2] == 0) y = transforms::Compose(Square(), transforms::Normalize(0.5f, 2.f), Twice()).process(x);
    else if (n == 1 && ks[0] == 3) y = transforms::Compose(transforms::Normalize(0.5f, 2.f)).process(x);
    else c.skip();
  }
  if (std::fabs(want[0]) > 1e20 || std::fabs(want[1]) > 1e20) c.skip();
  expect(c, "compose", y, RT(Sh{2}, {want[0], want[1]}), 1e-4, 1e-5);
  if (rawValues(x) != std::vector<double>{1.5, -2}) c.fail("input-changed", "the transform changed its input");
}
void fNormalize(Ctx& c) {
  float m = c.pick({0.f, 0.5f, -3.f, 0.1307f}), s = c.pick({1.f, 0.25f, -2.f, 0.3081f, 100.f}); Sh sh = c.pick(std::vector<Sh>{{}, {1}, {0}, {5}, {2, 3}, {1, 4, 4}}); int prov = c.pick(NumProv);
  c.desc("normalize mean %g std %g shape %s %s", m, s, str(sh).c_str(), provName(prov)); if (numelOf(sh) > 1) c.nontrivial();
  std::vector<Tensor> keep; RT in(sh, jumble(numelOf(sh), 3)); Tensor x = mk(in, DType::Float32, false, prov, &keep);
  transforms::Normalize t(m, s); Tensor y = t.process(x);
  RT want = in; for (auto& v : want.v) v = (v - m) / s;
  expect(c, "normalize", y, want, 1e-5, 1e-6);
  if (rawValues(x) != in.v) c.fail("input-changed", "normalize changed its input");
}
struct Reg { Reg() {
  add("good", "image counts, sizes, label counts, train/test, 3 transforms: every sample read twice", fGood, 3);
  add("sizes", "counts, heights, widths and label counts around every byte boundary up to 70000 (heights and widths up to 32768)", fSizes, 2);
  add("bytes", "all 256 pixel and label byte values", fPixels, 1);
  add("truncated", "every length of either file", fTruncated, 3);
  add("header", "every header field of either file replaced by 20 values", fHeader, 3);
  add("missing", "missing, empty and swapped files", fMissing, 1);
  add("transforms", "every sequence of up to 4 (5) of 5 transforms, composed three ways", fTransforms, 3);
  add("normalize", "normalisation over shapes, constants and provenance", fNormalize, 2);
} } reg;
}  // namespace
