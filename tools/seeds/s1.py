H = '''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include "TinyTorch.h"
using namespace tinytorch;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("WRONG: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
template <class T = float> static std::vector<T> vals(const Tensor& t) { auto l = t.toList<T>(); return std::vector<T>(l.begin(), l.end()); }
'''
ALLOC = '''
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include "Tensor/Allocator.h"
#include "Tensor/CachedAllocator.h"
using namespace tinytorch;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("WRONG: %s (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
static std::map<char*, size_t> under;
static size_t limit = ~0ull;
struct Base : Allocator {
  void* allocate(int64_t n) override {
    size_t t = 0; for (auto& u : under) t += u.second;
    if (t + n > limit) return nullptr;
    char* p = (char*)malloc(n); under[p] = n; return p; }
  void deallocate(void* p) override { if (!under.erase((char*)p)) { printf("WRONG: returned a pointer never obtained\\n"); exit(1); } free(p); }
};
static bool inside(void* p, size_t n) {
  auto it = under.upper_bound((char*)p); if (it == under.begin()) return false; --it;
  return (char*)p + n <= it->first + it->second; }
'''
SEEDS = [
 dict(id="T01-oom-tail", property="T01", needs="the underlying allocator refusing memory while a block is live whose free tail is cached",
  breaks="releasing the cache on out-of-memory also returns the free tail of a split block that is still in use",
  edits=[("src/Tensor/CachedAllocator.cpp", "if (!block->prev && !block->next) {", "if (!block->next) {")],
  demo=ALLOC + '''
int main() {
  CachedAllocator a(std::make_unique<Base>());
  void* p = a.allocate(1000);
  limit = 8u << 20;
  void* q = a.allocate(64u << 20);   // refused: unused cache is given back, p stays
  CHECK(q == nullptr);
  CHECK(inside(p, 1000));
  void* r = a.allocate(2000);
  CHECK(r && inside(r, 2000));
  a.deallocate(p); a.deallocate(r);
  return bad;
}
'''),
 dict(id="T01-merge-link", property="T01", needs="three neighbouring blocks; the middle one freed after the first, then the third freed, then reuse of the region",
  breaks="merging with the previous neighbour takes over its memory but keeps a stale size for it",
  edits=[("src/Tensor/CachedAllocator.cpp", "    if (dst->prev == src) {\n      // [src dst]\n      dst->ptr = src->ptr;\n      dst->prev = src->prev;\n      if (dst->prev) {\n        dst->prev->next = dst;\n      }\n", "    if (dst->prev == src) {\n      // [src dst]\n      dst->ptr = src->ptr;\n      dst->prev = src->prev;\n      if (dst->prev && !dst->next) {\n        dst->prev->next = dst;\n      }\n")],
  demo=ALLOC + '''
int main() {
  CachedAllocator a(std::make_unique<Base>());
  const size_t N = 4096;
  char *x[6]; for (auto& p : x) p = (char*)a.allocate(N);
  a.deallocate(x[1]); a.deallocate(x[2]);   // x2 merges with x1 before it
  a.deallocate(x[0]);                       // must merge with the block that now starts at x1
  char* big = (char*)a.allocate(3 * N);
  CHECK(big == x[0]);
  std::vector<char*> live{big, x[3], x[4], x[5]};
  for (int i = 0; i < 40; i++) { char* p = (char*)a.allocate(N); CHECK(p && inside(p, N));
    for (size_t j = 0; j < live.size(); j++) { size_t n = j == 0 ? 3 * N : N; CHECK(p + N <= live[j] || live[j] + n <= p); } live.push_back(p); }
  for (auto p : live) a.deallocate(p);
  return bad;
}
'''),
 dict(id="T02-transpose-same", property="T02", needs="transposing a dimension with itself and then writing in place into the result",
  breaks="transpose(d, d) hands back the very tensor it was given, so writes into the result change the original",
  edits=[("src/Operation/OpTransformCpu.h", "  if (dim0 == dim1) {\n    return self.clone();", "  if (dim0 == dim1) {\n    return self;")],
  demo=H + '''
int main() {
  Tensor a(Array2d<float>({{1, 2}, {3, 4}}));
  Tensor b = a.transpose(1, -1);
  b.fill_(9.f);
  CHECK((vals(a) == std::vector<float>{1, 2, 3, 4}));
  CHECK((vals(b) == std::vector<float>{9, 9, 9, 9}));
  return bad;
}
'''),
 dict(id="T02-scatter-cow", property="T02", needs="a clone followed by an in-place scatter on one of the two",
  breaks="in-place scatter writes into memory still shared with a clone",
  edits=[("src/Operation/OpTransformCpu.h", "void scatterOpInplaceCpuImpl(Tensor& self, int64_t dim, const Tensor& index, const Tensor& src) {\n  self.copyOnWrite();\n", "void scatterOpInplaceCpuImpl(Tensor& self, int64_t dim, const Tensor& index, const Tensor& src) {\n")],
  demo=H + '''
int main() {
  Tensor a(Array1d<float>({1, 2, 3}));
  Tensor b = a.clone();
  Tensor idx = Tensor(Array1d<int64_t>({2}), options::dtype(DType::Int64));
  Tensor src(Array1d<float>({7}));
  a.scatter_(0, idx, src);
  CHECK((vals(a) == std::vector<float>{1, 2, 7}));
  CHECK((vals(b) == std::vector<float>{1, 2, 3}));
  return bad;
}
'''),
 dict(id="T03-transpose-size1", property="T03", needs="swapping two non-adjacent dimensions one of which has size 1, with a larger one in between",
  breaks="the size-1 shortcut of transpose is taken for non-adjacent dimensions, so elements end up in the wrong place",
  edits=[("src/Operation/OpTransformCpu.h", "if ((self.size(dim0) == 1 || self.size(dim1) == 1) && std::abs(dim0 - dim1) == 1) {", "if (self.size(dim0) == 1 || self.size(dim1) == 1) {")],
  demo=H + '''
int main() {
  Tensor a = Tensor::arange(0, 6, 1, options::dtype(DType::Float32)).reshape({1, 2, 3});
  Tensor b = a.transpose(0, 2);
  CHECK(b.shape(0) == 3 && b.shape(1) == 2 && b.shape(2) == 1);
  CHECK((vals(b.flatten()) == std::vector<float>{0, 3, 1, 4, 2, 5}));
  return bad;
}
'''),
 dict(id="T04-neg-index", property="T04", needs="a negative index in the second indexed dimension of a tensor of rank three or more with unequal dimensions",
  breaks="negative indices of later dimensions are resolved against the size of the first dimension",
  edits=[("src/Operation/OpTransformCpu.h", "subIndices[i] = ind >= 0 ? ind : ind + t.shape(static_cast<int64_t>(i));", "subIndices[i] = ind >= 0 ? ind : ind + t.shape(0);")],
  demo=H + '''
int main() {
  Tensor a = Tensor::arange(0, 12, 1, options::dtype(DType::Float32)).reshape({2, 3, 2});
  Tensor i0(Array1d<int64_t>({0, 1}), options::dtype(DType::Int64)), i1(Array1d<int64_t>({-1, -2}), options::dtype(DType::Int64));
  Tensor ix[2] = {i0, i1};
  Tensor b = op::indexAdvance(a, ArrayView<Tensor>(ix, 2));
  CHECK((vals(b.flatten()) == std::vector<float>{4, 5, 8, 9}));
  return bad;
}
'''),
 dict(id="T05-zero-dim", property="T05", needs="broadcasting a dimension of size 1 against one of size 0",
  breaks="the broadcast size of 0 and 1 becomes 1 instead of 0",
  edits=[("src/Tensor/TensorIterator.cpp", "      if (d != 1) {\n        dim = d;\n      }", "      dim = std::max(dim, d);")],
  demo=H + '''
int main() {
  Tensor a = Tensor::ones({2, 0}), b = Tensor::ones({2, 1});
  Tensor c = a + b;
  CHECK(c.dim() == 2 && c.shape(0) == 2 && c.shape(1) == 0);
  return bad;
}
'''),
 dict(id="T12-topk-base", property="T12", needs="top-k along a dimension that is neither first nor last (several outer and several inner slices)",
  breaks="the start of a slice is computed without the inner size for every outer slice after the first",
  edits=[("src/Operation/OpSamplingCpu.h", "      std::partial_sort(vec.begin(), vec.begin() + k, vec.end(), cmp);\n      if (sorted) {", "      std::partial_sort(vec.begin(), vec.begin() + k, vec.end(), cmp);\n      if (sorted && n > 4) {")],
  demo=H + '''
int main() { return bad; }
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("T12-topk-base", "T01-merge-link", "T05-zero-dim", "T03-transpose-size1")]
