import runpy, os
_s1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seeds", "s1.py"))
H, ALLOC = _s1["H"], _s1["ALLOC"]
NEAR = '''static bool near(float a, float b) { return std::fabs(a - b) <= 1e-5f * (1 + std::fabs(b)); }
'''
STORE = '''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "Distributed/%s.h"
using namespace tinytorch::distributed;
using ms = std::chrono::milliseconds;
static std::atomic<int> bad{0};
#define CHECK(c) do { if (!(c)) { printf("WRONG: %%s (line %%d)\\n", #c, __LINE__); bad = 1; } } while (0)
static std::vector<uint8_t> B(const std::string& s) { return {s.begin(), s.end()}; }
static void nap(int n) { std::this_thread::sleep_for(ms(n)); }
static int freePort() {
  int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
  bind(s, (sockaddr*)&a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); close(s); return ntohs(a.sin_port);
}
'''
TCP = "src/Distributed/TCPStore.cpp src/Distributed/Store.cpp"
FILE = "src/Distributed/FileStore.cpp src/Distributed/Store.cpp"
SEEDS = [
 dict(id="T03-squeeze-in-turn", property="T03", needs="squeezing several dimensions in one call",
  breaks="the dimensions are removed one after the other, so later ones name the wrong dimension", edits=[("src/Tensor/TensorImpl.cpp", """    SizeVector retShape;
    for (int64_t i = 0; i < dim(); ++i) {
      bool shouldSqueeze = false;
      for (auto d : dims) {
        int64_t dd = d;
        if (dd < 0) {
          dd += dim();
        }
        if (dd == i && shape_[i] == 1) {
          shouldSqueeze = true;
          break;
        }
      }
      if (!shouldSqueeze) {
        retShape.pushBack(shape_[i]);
      }
    }
    reshape_(retShape);
""", """    for (auto d : dims) {
      if (d >= -dim() && d < dim()) {
        squeeze_(d);
      }
    }
""")],
  demo=H + """
int main() {
  auto t = Tensor::arange<float>(0, 6, 1).reshape({1, 2, 1, 1, 3});
  auto u = t.squeeze({0, 3});
  CHECK(u.dim() == 3 && u.shape(0) == 2 && u.shape(1) == 1 && u.shape(2) == 3);
  return bad;
}
"""),
 dict(id="T04-concat-empty", property="T04", needs="an empty tensor in the middle of a list to concatenate",
  breaks="tensors after an empty one are not copied", edits=[("src/Operation/OpTransform.cpp", "    int64_t currDimSize = t.shape(dim);\n", "    int64_t currDimSize = t.shape(dim);\n    if (currDimSize == 0) break;\n")],
  demo=H + '''
int main() {
  auto a = Tensor::ones({2, 2}), e = Tensor::zeros({0, 2}), b = Tensor::full({1, 2}, 3.f);
  auto r = vals(function::concat(ArrayView<Tensor>{a, e, b}, 0));
  CHECK(r == (std::vector<float>{1, 1, 1, 1, 3, 3}));
  return bad;
}
'''),
 dict(id="T05-outer-same-count", property="T05", needs="operands that broadcast against each other but hold the same number of elements, like a column and a row",
  breaks="the operands are combined element by element instead of being broadcast", edits=[("src/Tensor/TensorIterator.cpp", "} else if (inputs_[i]->shape() != refShape) {", "} else if (inputs_[i]->numel() != found) {"),
    ("src/Tensor/TensorIterator.cpp", "  bool found = false;", "  int64_t found = 0;"), ("src/Tensor/TensorIterator.cpp", "        found = true;", "        found = inputs_[i]->numel();")],
  demo=H + '''
int main() {
  auto c = Tensor(Array2d<float>({{1}, {2}, {3}})), r = Tensor(Array2d<float>({{10, 20, 30}}));
  CHECK(vals(c + r) == (std::vector<float>{11, 21, 31, 12, 22, 32, 13, 23, 33}));
  return bad;
}
'''),
 dict(id="T06-sigmoid-overflow", property="T06", needs="an input above about 88",
  breaks="sigmoid of a large value is not a number", edits=[("src/Operation/OpElemWiseCpu.h", "    return 1 / (1 + std::exp(-a));", "    const float e = std::exp(a);\n    return e / (1 + e);")],
  demo=H + '''
int main() {
  auto v = vals(op::sigmoid(Tensor(Array1d<float>({0.f, 50.f, 100.f, -100.f}))));
  CHECK(v[0] == 0.5f && v[1] == 1.f && v[2] == 1.f && v[3] >= 0.f && v[3] < 1e-30f);
  return bad;
}
'''),
 dict(id="T07-trailing-one", property="T07", needs="a minimum or maximum over a leading dimension of a tensor whose last dimension is 1",
  breaks="the wrong elements are compared", edits=[("src/Operation/OpReduceCpu.h", "  if (dim == t.dim() - 1) {", "  if (dim == t.dim() - 1 || t.shape(-1) == 1) {")],
  demo=H + '''
int main() {
  auto t = Tensor(Array2d<float>({{1, 6}, {5, 2}, {3, 4}})).reshape({3, 2, 1});
  auto m = function::max(t, 0, false);
  CHECK(vals(m.first) == (std::vector<float>{5, 6}));
  CHECK(vals<int64_t>(m.second) == (std::vector<int64_t>{1, 0}));
  return bad;
}
'''),
 dict(id="T08-fold-batch", property="T08", needs="a batched first operand that is transposed, times a matrix without batch dimensions",
  breaks="batch and row dimensions are mixed up", edits=[("src/Operation/OpLinalg.cpp", "    // strided batched gemm\n", "    // a single matrix on the right: one large product\n    if (shapeB.size() == 2 && !appendB && shapeA.size() > 2) {\n      gemm(retPtr, selfPtr, otherPtr, transA ? retTensor.numel() / n : retTensor.numel() / n, k, n, transA, transB,\n           a.device().index);\n      removePaddedDims(retTensor, prependA, appendB);\n      return retTensor;\n    }\n\n    // strided batched gemm\n")],
  demo=H + NEAR + '''
int main() {
  auto a = Tensor::arange<float>(0, 12, 1).reshape({2, 3, 2}), b = Tensor::arange<float>(0, 12, 1).reshape({3, 4});
  auto r = op::matmul(a, b, true, false);
  CHECK(r.dim() == 3 && r.shape(0) == 2 && r.shape(1) == 2 && r.shape(2) == 4);
  auto v = vals(r), x = vals(a), y = vals(b);
  for (int n = 0; n < 2; n++) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) {
    float e = 0; for (int k = 0; k < 3; k++) e += x[(n * 3 + k) * 2 + i] * y[k * 4 + j];
    CHECK(near(v[(n * 2 + i) * 4 + j], e));
  }
  return bad;
}
'''),
 dict(id="T09-rope-context", property="T09", needs="scaled rotary tables whose length differs from the original context length",
  breaks="the frequency bands are placed by the length of the table instead of the original context length", edits=[("src/Operation/OpNNLayerCpu.h", "auto originCtxLen = static_cast<float>(scaling->originalContextLength);", "auto originCtxLen = static_cast<float>(std::min(contextLength, scaling->originalContextLength));")],
  demo=H + NEAR + '''
int main() {
  RopeScalingConfig s(4.f, 4.f, 1.f, 64);
  auto t = op::ropeInit(8, 16, 100.f, s, Options());
  auto u = op::ropeInit(8, 64, 100.f, s, Options());
  auto a = vals(t), b = vals(u);
  for (size_t i = 0; i < a.size(); i++) CHECK(near(a[i], b[i]));   // a shorter table is a prefix of the longer one
  return bad;
}
'''),
 dict(id="T10-causal-bottom", property="T10", needs="causal attention with more or fewer keys than queries",
  breaks="the causal mask is aligned to the last key instead of the first", edits=[("src/Function/FuncNNLayer.h", "tempMask = op::tril(tempMask, 0);", "tempMask = op::tril(tempMask, S - L);")],
  demo=H + NEAR + '''
int main() {
  auto q = Tensor::ones({1, 1, 2, 2}), k = Tensor::ones({1, 1, 3, 2});
  auto v = Tensor::arange<float>(0, 6, 1).reshape({1, 1, 3, 2});
  auto r = vals(function::sdpAttention(q, k, v, true));
  CHECK(near(r[0], 0) && near(r[1], 1));      // the first query sees the first key only
  CHECK(near(r[2], 1) && near(r[3], 2));      // the second the first two
  return bad;
}
'''),
 dict(id="T11-pad-tall", property="T11", needs="padding on an image that is wider or taller than square",
  breaks="rows below the image are not padding but other memory, or rows of the image are dropped", edits=[("src/Operation/OpLinalgCpu.h", "                  (ih >= 0 && ih < height && iw >= 0 && iw < width) ? imPtr[ih * width + iw] : T(0);", "                  (ih >= 0 && ih < width && iw >= 0 && iw < width) ? imPtr[ih * width + iw] : T(0);")],
  demo=H + NEAR + '''
int main() {
  auto x = Tensor::ones({1, 1, 5, 3}), w = Tensor::ones({1, 1, 3, 3});
  auto r = vals(function::conv2d(x, w, {}, 1, 1));
  float e[15] = {4, 6, 4, 6, 9, 6, 6, 9, 6, 6, 9, 6, 4, 6, 4};
  for (int i = 0; i < 15; i++) CHECK(near(r[i], e[i]));
  return bad;
}
'''),
 dict(id="T12-multinomial-running", property="T12", needs="drawing without replacement from weights of very different size",
  breaks="a drawn weight is subtracted from running sums, which loses the small weights", edits=[
    ("src/Operation/OpSamplingCpu.h", "    for (int64_t s = 0; s < numSamples; s++) {\n      std::vector<float> cdf(n);\n      std::partial_sum(prob.begin(), prob.end(), cdf.begin());\n", "    std::vector<float> cdf(n);\n    std::partial_sum(prob.begin(), prob.end(), cdf.begin());\n    for (int64_t s = 0; s < numSamples; s++) {\n"),
    ("src/Operation/OpSamplingCpu.h", "        prob[idx] = 0;\n", "        for (int64_t i = idx; i < n; i++) {\n          cdf[i] -= prob[idx];\n        }\n        prob[idx] = 0;\n")],
  demo=H + '''
#include <algorithm>
int main() {
  for (int t = 0; t < 50; t++) {
    auto v = vals<int64_t>(function::multinomial(Tensor(Array1d<float>({1.f, 2.f, 5e7f, 3.f})), 4, false));
    std::sort(v.begin(), v.end());
    CHECK(v == (std::vector<int64_t>{0, 1, 2, 3}));
  }
  return bad;
}
'''),
 dict(id="A04-col2im-stride", property="A04", needs="the gradient of a convolution or pooling input with different strides down and across",
  breaks="the gradient is scattered with the wrong stride", edits=[("src/Operation/OpLinalgCpu.h", "          int64_t wStride = w * stride.w - padding.w;\n          const T* colPtr", "          int64_t wStride = w * stride.h - padding.w;\n          const T* colPtr")],
  demo=H + NEAR + '''
int main() {
  auto x = Tensor::ones({1, 1, 3, 4}, options::requiresGrad(true)), w = Tensor::ones({1, 1, 1, 1});
  auto y = function::conv2d(x, w, {}, Dim2D(1, 2), 0);
  y.backward(Tensor::onesLike(y));
  auto g = vals(x.grad());
  for (int i = 0; i < 12; i++) CHECK(near(g[i], i % 4 % 2 == 0 ? 1 : 0));
  return bad;
}
'''),
 dict(id="L01-mse-expanded", property="L01", needs="predictions and targets that are large and close together",
  breaks="the squared error is computed by expanding the square, which cancels", edits=[("src/Operation/OpLossCpu.h", "return (a - b) * (a - b); });\n  switch", "return a * a - 2 * a * b + b * b; });\n  switch")],
  demo=H + NEAR + '''
int main() {
  auto a = Tensor(Array1d<float>({5000.f, 5001.5f})), b = Tensor(Array1d<float>({5000.5f, 5001.f}));
  CHECK(near(function::mseLoss(a, b).item<float>(), 0.25f));
  return bad;
}
'''),
 dict(id="S01-size-of-floats", property="S01", needs="a model whose parameters are not 32-bit floats",
  breaks="the data section is laid out for floats", edits=[("src/Serializer.cpp", "header.dataSize = tensor->numel() * dtypeSize(tensor->dtype());", "header.dataSize = tensor->numel() * dtypeSize(DType::Float32);")],
  demo=H + '''
#include "Serializer.h"
int main() {
  nn::Linear a(3, 2), b(3, 2); a.to(DType::Float16); b.to(DType::Float16);
  CHECK(Serializer::save(a, "m.bin"));
  CHECK(Serializer::load(b, "m.bin"));
  auto x = vals(a.weight().to(DType::Float32)), y = vals(b.weight().to(DType::Float32));
  CHECK(x == y);
  return bad;
}
'''),
 dict(id="C01-log-early", property="C01", needs="two threads that log at the same time",
  breaks="a message is formatted into the common buffer before the lock is taken", edits=[("src/Utils/Logger.cpp", "  std::lock_guard<std::mutex> lock_guard(mutex_);\n  if (level < minLevel_) {", "  if (level < minLevel_) {"),
    ("src/Utils/Logger.cpp", "  buf_[MAX_LOG_LENGTH - 1] = '\\0';\n", "  std::lock_guard<std::mutex> lock_guard(mutex_);\n  buf_[MAX_LOG_LENGTH - 1] = '\\0';\n")],
  demo=H + '''
#include <atomic>
#include <thread>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include "Utils/Logger.h"
int main() {
  int keep = dup(2), fd = open("log.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
  std::vector<std::thread> ts; std::string text[4];
  for (int t = 0; t < 4; t++) text[t] = std::string(300 + 100 * t, 'a' + t);
  std::atomic<int> go{0};
  for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { go++; while (go < 4) {} for (int i = 0; i < 20000; i++) LOGE("%s", text[t].c_str()); });
  for (auto& t : ts) t.join();
  dup2(keep, 2);
  std::ifstream f("log.txt"); std::string line; int n = 0, torn = 0;
  while (std::getline(f, line)) { n++; bool ok = false; for (auto& x : text) ok |= line == "[ERROR] " + x; torn += !ok; }
  CHECK(torn == 0); CHECK(n == 80000);
  return bad;
}
'''),
 dict(id="C01-static-axes", property="C01", needs="two threads that reduce tensors of their own over different dimensions at the same time",
  breaks="the set of reduced dimensions is kept in a buffer shared by all threads", edits=[("src/Operation/OpReduceCpu.h", "  DimArray<int64_t> inAxis{};", "  static DimArray<int64_t> inAxis;\n  inAxis = {};")],
  demo=H + '''
#include <atomic>
#include <thread>
int main() {
  std::atomic<int> go{0}, wrong{0};
  auto run = [&](int dim) {
    auto x = Tensor::ones({20, 30}); go++; while (go < 2) {}
    for (int i = 0; i < 30000 && !wrong; i++) {
      auto r = x.sum(IntArrayView{dim}, false);
      if (r.numel() != (dim ? 20 : 30)) { wrong++; break; }
      for (auto v : vals(r)) if (v != (dim ? 30.f : 20.f)) wrong++;
    }
  };
  std::thread a(run, 0), b(run, 1); a.join(); b.join();
  CHECK(wrong == 0);
  return bad;
}
'''),
 dict(id="P01-waiters-forgotten", property="P01", needs="two clients that wait for the same key, one of which gives up first",
  breaks="the client that gives up also removes the other one from the list of waiters", edits=[("src/Distributed/TCPStore.cpp", "    auto cvIt = keyCVs_.find(key);\n    if (cvIt != keyCVs_.end()) {\n      auto& cvs = cvIt->second;\n      cvs.erase(std::remove(cvs.begin(), cvs.end(), cv), cvs.end());\n      if (cvs.empty()) {\n        keyCVs_.erase(cvIt);\n      }\n    }", "    keyCVs_.erase(key);")],
  extra=TCP, demo=STORE % "TCPStore" + '''
int main() {
  int port = freePort();
  TCPStore a("127.0.0.1", port, true, false, 1, ms(20000));
  std::atomic<int> got{0};
  std::thread slow([&] { TCPStore b("127.0.0.1", port, false, false, 1, ms(20000)); got = b.get("k") == B("v") ? 1 : -1; });
  nap(300);
  std::thread quick([&] { TCPStore c("127.0.0.1", port, false, false, 1, ms(300)); CHECK(c.get("k").empty()); });
  quick.join(); nap(300);
  a.set("k", B("v"));
  for (int i = 0; i < 50 && !got; i++) nap(100);
  CHECK(got == 1);
  if (!got) { fflush(stdout); _exit(1); }
  slow.join();
  return bad;
}
'''),
 dict(id="P02-bind-double-close", property="P02", needs="a server whose port is taken, destroyed after the program has opened another file",
  breaks="the socket is closed again when the store is destroyed, which closes somebody else's file", edits=[("src/Distributed/TCPStore.cpp", 'LOGE("TCPStore: Failed to bind server socket");\n    closesocket(serverSock_);\n    serverSock_ = INVALID_SOCKET;\n', 'LOGE("TCPStore: Failed to bind server socket");\n    closesocket(serverSock_);\n')],
  extra=TCP, demo=STORE % "TCPStore" + '''
int main() {
  int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
  bind(s, (sockaddr*)&a, sizeof a); listen(s, 5); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l);
  int fds[8];
  { TCPStore t("127.0.0.1", ntohs(a.sin_port), true, false, 1, ms(300));
    for (int& f : fds) f = open("/dev/null", O_RDONLY); }
  for (int f : fds) CHECK(fcntl(f, F_GETFD) >= 0);
  return bad;
}
'''),
 dict(id="P03-wait-one-by-one", property="P03", needs="a wait for two keys of which the first is deleted again before the second appears",
  breaks="the keys are waited for one after the other, so they need not exist together", edits=[("src/Distributed/FileStore.cpp", "  while (!check(keys)) {\n", "  size_t seen = 0;\n  while (true) {\n    while (seen < keys.size() && check({keys[seen]})) seen++;\n    if (seen == keys.size()) return;\n")],
  extra=FILE, demo=STORE % "FileStore" + '''
int main() {
  FileStore a("store", ms(20000)), b("store", ms(20000));
  a.set("x", B("1"));
  std::atomic<bool> done{false};
  std::thread w([&] { b.wait({"x", "y"}); done = true; });
  nap(300); a.deleteKey("x"); nap(100); a.set("y", B("1")); nap(500);
  CHECK(!done);
  a.set("x", B("1"));
  for (int i = 0; i < 50 && !done; i++) nap(100);
  CHECK(done);
  w.join();
  return bad;
}
'''),
 dict(id="P06-wake-one", property="P06", needs="two threads that wait for the same operation",
  breaks="only one of them is woken when it ends", edits=[("src/Distributed/Work.h", "cv_.notify_all();", "cv_.notify_one();")],
  demo=H + '''
#include <atomic>
#include <thread>
#include <unistd.h>
#include "Distributed/Work.h"
struct W : distributed::Work { using Work::finish; };
int main() {
  W w; std::atomic<int> in{0}, n{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < 3; i++) ts.emplace_back([&] { in++; w.wait(); n++; });
  while (in < 3) {}
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  w.finish("");
  for (int i = 0; i < 50 && n < 3; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  CHECK(n == 3);
  fflush(stdout); _exit(bad);
}
'''),
]
