// U01: every history of operations on the inline-storage vector equals an ordinary growable array.
#include <deque>
#include <memory>
#include <set>
#include "tt.h"
#include "Utils/VectorUtils.h"
using namespace mc;
namespace {
// an element that owns memory, and knows every live object
std::set<const void*>& live() { static std::set<const void*> s; return s; }
std::string broken;
struct El {
  int64_t* p;
  void born() { if (!live().insert(this).second) broken = "an element is constructed over a live one"; }
  void alive() const { if (!live().count(this)) broken = "an element that does not exist is used"; }
  El() : p(new int64_t(0)) { born(); }
  El(int64_t v) : p(new int64_t(v)) { born(); }
  El(const El& o) : p(nullptr) { o.alive(); if (o.p) p = new int64_t(*o.p); born(); }
  El(El&& o) noexcept : p(o.p) { o.alive(); o.p = nullptr; born(); }
  El& operator=(const El& o) { alive(); o.alive(); if (this != &o) { delete p; p = o.p ? new int64_t(*o.p) : nullptr; } return *this; }
  El& operator=(El&& o) noexcept { alive(); o.alive(); if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~El() { if (!live().erase(this)) broken = "an element is destroyed twice"; delete p; }
  int64_t get() const { alive(); return p ? *p : -999; }
  bool operator==(const El& o) const { return get() == o.get(); }
};
struct alignas(64) Wide { int64_t v; Wide(int64_t x = 0) : v(x) {} int64_t get() const { return v; } bool operator==(const Wide& o) const { return v == o.v; } };
int64_t get(int64_t v) { return v; }
int64_t get(const El& e) { return e.get(); }
int64_t get(const Wide& e) { return e.get(); }
enum { oPush, oPushAliasF, oPushAliasB, oEmplace0, oInsB, oInsM, oInsE, oInsAlBB, oInsAlBF, oInsAlEF, oInsAlMM, oRes0, oResLess, oResMore, oResMoreV, oResAlias, oResBig, oClear, oReserve, oReserveBig, oAssign, oMove, oSelf, oCopyCtor, oMoveCtor, oSwap, oView, oVec, oInit, oSized, oSizedV, NOps };
const char* nm[] = {"push", "push(front)", "push(back)", "emplace()", "insert(begin)", "insert(mid)", "insert(end)", "insert(begin,back)", "insert(begin,front)", "insert(end,front)", "insert(mid,mid)", "resize(0)", "resize(n-1)", "resize(n+1)", "resize(n+2,v)", "resize(n+2,front)", "resize(2N+1)", "clear", "reserve(n+1)", "reserve(4N)", "=other", "=move(other)", "=self", "copy-construct", "move-construct", "swap", "from view", "from std::vector", "from list", "sized", "sized filled"};
template <class T, size_t N> struct World {
  typedef SmallVector<T, N> SV;
  std::unique_ptr<SV> v[2]; std::vector<int64_t> m[2]; int64_t next = 1;
};
template <class T, size_t N> void verify(Ctx& c, World<T, N>& w, const char* op) {
  auto bad = [&](const char* what) { c.fail(std::string(what) + ":" + op, "%s after %s", what, op); };
  for (int k = 0; k < 2; k++) {
    auto& s = *w.v[k]; const auto& cs = s; auto& m = w.m[k];
    if (s.size() != m.size() || s.empty() != m.empty()) c.fail(std::string("size:") + op, "vector %d has size %zu, expected %zu, after %s", k, s.size(), m.size(), op);
    if (s.capacity() < s.size() || s.capacity() < N) bad("capacity");
    if ((uintptr_t)s.data() % alignof(T)) bad("alignment");
    if (s.begin() != s.data() || s.end() != s.data() + s.size() || cs.begin() != cs.data() || cs.end() != cs.begin() + cs.size()) bad("iterators");
    std::vector<int64_t> got; for (size_t i = 0; i < s.size(); i++) got.push_back(get(cs[i]));
    if (got != m) { std::string a, b; for (auto x : got) a += std::to_string(x) + " "; for (auto x : m) b += std::to_string(x) + " "; c.fail(std::string("contents:") + op, "vector %d is {%s}, expected {%s}, after %s", k, a.c_str(), b.c_str(), op); }
    size_t i = 0; for (auto& x : s) if (get(x) != m[i++]) bad("iteration");
    auto view = s.view();
    if (view.size() != m.size() || view.data() != s.data() || view.empty() != m.empty()) bad("view");
    i = 0; for (auto& x : view) if (get(x) != m[i] || get(view[i]) != m[i]) bad("view"); else i++;
    if (!m.empty() && (get(s.front()) != m.front() || get(s.back()) != m.back() || get(cs.front()) != m.front() || get(cs.back()) != m.back() || get(view.front()) != m.front() || get(view.back()) != m.back())) bad("ends");
  }
  bool eq = w.m[0] == w.m[1];
  if ((w.v[0]->view() == w.v[1]->view()) != eq || (w.v[0]->view() != w.v[1]->view()) == eq) bad("comparison");
  if constexpr (N == 5) if ((*w.v[0] == w.v[1]->view()) != eq || (*w.v[0] != w.v[1]->view()) == eq) bad("comparison");
  if (!broken.empty()) { std::string b = broken; broken.clear(); c.fail("lifetime", "%s (%s)", b.c_str(), op); }
  if (std::is_same_v<T, El> && live().size() != w.m[0].size() + w.m[1].size()) c.fail("lifetime", "%zu elements alive, %zu in the vectors, after %s", live().size(), w.m[0].size() + w.m[1].size(), op);
}
template <class T, size_t N> bool apply(World<T, N>& w, int k, int op) {
  typedef SmallVector<T, N> SV;
  auto& s = *w.v[k]; auto& m = w.m[k]; auto& o = *w.v[1 - k]; auto& mo = w.m[1 - k]; int64_t x = w.next++; size_t n = m.size();
  auto ins = [&](size_t at, const T& val) { int64_t q = get(val); T* r = s.insert(s.begin() + at, val); m.insert(m.begin() + at, q); return r == s.data() + at; };
  switch (op) {
    case oPush: s.pushBack(T(x)); m.push_back(x); break;
    case oPushAliasF: if (!n) return false; { int64_t q = m[0]; s.pushBack(s.front()); m.push_back(q); } break;
    case oPushAliasB: if (!n) return false; { int64_t q = m.back(); s.pushBack(s[n - 1]); m.push_back(q); } break;
    case oEmplace0: s.pushBack(); m.push_back(0); break;
    case oInsB: if (!ins(0, T(x))) return false; break;
    case oInsM: if (n < 2) return false; ins(n / 2, T(x)); break;
    case oInsE: ins(n, T(x)); break;
    case oInsAlBB: if (!n) return false; ins(0, s.back()); break;
    case oInsAlBF: if (n < 2) return false; ins(0, s.front()); break;
    case oInsAlEF: if (n < 2) return false; ins(n, s.front()); break;
    case oInsAlMM: if (n < 3) return false; ins(n / 2, s[n / 2]); break;
    case oRes0: if (!n) return false; s.resize(0); m.clear(); break;
    case oResLess: if (n < 2) return false; s.resize(n - 1); m.resize(n - 1); break;
    case oResMore: s.resize(n + 1); m.resize(n + 1); break;
    case oResMoreV: s.resize(n + 2, T(x)); m.resize(n + 2, x); break;
    case oResAlias: if (!n) return false; { int64_t q = m[0]; s.resize(n + 2, s[0]); m.resize(n + 2, q); } break;
    case oResBig: s.resize(2 * N + 1); m.resize(2 * N + 1); break;
    case oClear: if (!n) return false; s.clear(); m.clear(); break;
    case oReserve: s.reserve(n + 1); if (s.capacity() < n + 1) return false; break;
    case oReserveBig: s.reserve(4 * N); { const T* d = s.data(); (void)d; } break;
    case oAssign: s = o; m = mo; break;
    case oMove: s = std::move(o); m = mo; mo.clear(); o.clear(); break;  // moved-from: valid, made empty
    case oSelf: { auto& r = s; s = r; } break;
    case oCopyCtor: { auto f = std::make_unique<SV>(o); w.v[k] = std::move(f); m = mo; } break;
    case oMoveCtor: { auto f = std::make_unique<SV>(std::move(o)); o.clear(); w.v[k] = std::move(f); m = mo; mo.clear(); } break;
    case oSwap: std::swap(s, o); std::swap(m, mo); break;
    case oView: if (n < 2) return false; s = SV(ArrayView<T>(s.data() + 1, n - 1)); m.erase(m.begin()); break;
    case oVec: { std::vector<T> src; for (size_t i = 0; i <= N; i++) src.push_back(T(x + (int64_t)i)); s = SV(src); m.clear(); for (size_t i = 0; i <= N; i++) m.push_back(x + (int64_t)i); } break;
    case oInit: s = SV{T(x), T(x + 1)}; m = {x, x + 1}; break;
    case oSized: s = SV((size_t)N + 1); m.assign(N + 1, 0); break;
    case oSizedV: s = SV((size_t)N, T(x)); m.assign(N, x); break;
  }
  return true;
}
template <class T, size_t N> void hist(Ctx& c, int depth, int start) {
  broken.clear(); live().clear();
  std::string d = "N=" + std::to_string(N) + " start " + std::to_string(start) + ": ";
  c.desc("%s", d.c_str());
  {
    World<T, N> w; for (int k = 0; k < 2; k++) w.v[k] = std::make_unique<SmallVector<T, N>>();
    for (int i = 0; i < start; i++) apply<T, N>(w, 0, oPush);
    for (int i = 0; i < start / 2; i++) apply<T, N>(w, 1, oPush);
    verify(c, w, "start");
    bool heap = false;
    for (int i = 0; i < depth; i++) {
      int op = c.pick((int)NOps), k = c.pick(2); c.desc("%d.%s; ", k, nm[op]);
      if (!apply<T, N>(w, k, op)) { if (op == oReserve) c.fail("reserve", "capacity not reserved"); if (op == oInsB) c.fail("insert-result", "insert returns another position"); c.skip(); }
      verify(c, w, nm[op]);
      heap |= w.m[0].size() > N || w.m[1].size() > N; c.outcome(w.m[0].size() * 64 + w.m[1].size());
    }
    if (heap) c.nontrivial();
  }
  if (!broken.empty()) { std::string b = broken; broken.clear(); c.fail("lifetime", "%s (destruction)", b.c_str()); }
  if (!live().empty()) c.fail("leak", "%zu elements are never destroyed", live().size());
}
void fEl2(Ctx& c) { hist<El, 2>(c, c.thorough() ? 4 : 3, c.pick(4)); }
void fEl5(Ctx& c) { hist<El, 5>(c, c.thorough() ? 3 : 2, c.pick(12)); }
void fEl1(Ctx& c) { hist<El, 1>(c, c.thorough() ? 4 : 3, c.pick(3)); }
void fInt(Ctx& c) { hist<int64_t, 5>(c, c.thorough() ? 4 : 3, c.pick({0, 4, 5, 6, 10})); }
void fWide(Ctx& c) { hist<Wide, 2>(c, c.thorough() ? 3 : 2, c.pick(5)); }
// array views over every source, sub-ranges and comparisons
void fView(Ctx& c) {
  int n = c.pick(9), from = c.pick(n + 1), len = c.pick(n - from + 1), m = c.pick(9), diff = c.pick(m + 1);
  c.desc("view of %d from %d length %d against %d differing at %d", n, from, len, m, diff); if (len) c.nontrivial();
  std::vector<int64_t> a; for (int i = 0; i < n; i++) a.push_back(i * 3);
  std::vector<int64_t> b; for (int i = 0; i < m; i++) b.push_back((from + i) * 3 + (i == diff));
  IntArrayView va(a.data() + from, (size_t)len), vb(b); SmallVector<int64_t> sb(b), sa(va);
  std::vector<int64_t> sub(a.begin() + from, a.begin() + from + len);
  auto same = [&](const IntArrayView& v, const std::vector<int64_t>& w, const char* k) { std::vector<int64_t> g(v.begin(), v.end()); if (g != w || v.size() != w.size() || v.empty() != w.empty()) c.fail(std::string("view:") + k, "the view %s shows other elements", k); };
  same(va, sub, "of memory"); same(vb, b, "of a vector"); same(IntArrayView(sa), sub, "of a small vector"); same(sb.view(), b, "from view()");
  IntArrayView copy = va; same(copy, sub, "copied"); copy = vb; same(copy, b, "assigned");
  bool eq = sub == b;
  if ((va == vb) != eq || (va != vb) == eq || (vb == va) != eq || (sa == vb) != eq || (sa != vb) == eq || (sb == va) != eq) c.fail("view:comparison", "comparison of %d and %d elements is wrong", len, m);
  IntArrayView e; if (!e.empty() || e.size() != 0 || e.begin() != e.end()) c.fail("view:default", "a default view is not empty");
  Tensor t = Tensor::zeros(va.size() <= 4 ? IntArrayView(std::vector<int64_t>{2}) : IntArrayView(std::vector<int64_t>{1}));
  (void)t;
}
// shapes given in every way, up to rank 8 (beyond the inline capacity)
void fShape(Ctx& c) {
  int r = c.pick(9), how = c.pick(3); Sh s; for (int i = 0; i < r; i++) s.push_back(1 + (i * 5 + r) % 3);
  c.desc("shape %s given %d", str(s).c_str(), how); if (r > 5) c.nontrivial();
  SmallVector<int64_t> sv(s); Tensor t = how == 0 ? Tensor::zeros(IntArrayView(s)) : how == 1 ? Tensor::zeros(sv) : Tensor::zeros(sv.view());
  if (shapeOf(t) != s || t.dim() != r || t.numel() != numelOf(s)) c.fail("shape", "tensor of shape %s has shape %s", str(s).c_str(), str(shapeOf(t)).c_str());
  Tensor u = t; { Tensor k = Tensor::ones(IntArrayView(s)); u = k; } if (shapeOf(u) != s) c.fail("shape", "a copied tensor has shape %s", str(shapeOf(u)).c_str());
}
struct Reg { Reg() {
  add("owning-2", "31 operations on either of two vectors of owning elements, inline capacity 2, depth 3 (4)", fEl2, 3);
  add("owning-1", "inline capacity 1, depth 3 (4)", fEl1, 3);
  add("owning-5", "inline capacity 5, every start size up to 11, depth 2 (3)", fEl5, 3);
  add("int-5", "integers, the library's own configuration, start sizes around the capacity, depth 3 (4)", fInt, 3);
  add("wide", "over-aligned elements, depth 2 (3)", fWide, 2);
  add("views", "array views over all subranges and comparisons", fView, 3);
  add("shapes", "shapes up to rank 8 from every source", fShape, 1);
} } reg;
}  // namespace
