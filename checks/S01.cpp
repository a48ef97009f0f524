// S01: a saved model loads back bit for bit, into the model and nothing else; saving is deterministic and harmless.
#include <fstream>
#include <functional>
#include <memory>
#include "tt.h"
#include "Modules.h"
#include "Serializer.h"
using namespace mc;
namespace {
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
std::vector<uint8_t> bytesOf(const Tensor& t) {
  std::vector<uint8_t> o((size_t)t.numel() * dtypeSize(t.dtype()));
  if (!o.empty()) memcpy(o.data(), t.dataPtr<>(), o.size());
  return o;
}
void setBytes(Tensor& t, uint32_t salt) {
  // every class of bit pattern: zeros of both signs, subnormals, NaN payloads, infinities, integers
  static const uint32_t special[] = {0x00000000, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0xffbfffff, 0x7f800001, 0x00000001, 0x807fffff, 0x3f800000, 0xdeadbeef, 0x7c017e02, 0xfc00ffff};
  size_t n = (size_t)t.numel() * dtypeSize(t.dtype()); if (!n) return;
  uint8_t* p = (uint8_t*)t.dataPtr<>();
  for (size_t i = 0; i < n; i++) { uint32_t w = special[(i / 4 + salt) % 13]; p[i] = t.dtype() == DType::Bool ? (i + salt) % 2 : (uint8_t)(w >> (8 * (i % 4))); }
}
struct Any : nn::Module {
  std::vector<std::unique_ptr<Tensor>> t; std::vector<std::string> n; std::vector<bool> par;
  std::vector<std::shared_ptr<nn::Module>> kids;
  void put(const std::string& name, const Sh& s, DType d, bool param) { t.push_back(std::make_unique<Tensor>(mk(s, std::vector<double>(numelOf(s), 0), d, param && (d == DType::Float32 || d == DType::Float16 || d == DType::BFloat16)))); n.push_back(name); par.push_back(param); }
 protected:
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { std::vector<std::pair<std::string, TensorPtr>> r; for (size_t i = 0; i < t.size(); i++) if (par[i]) r.emplace_back(n[i], t[i].get()); return r; }
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override { std::vector<std::pair<std::string, TensorPtr>> r; for (size_t i = 0; i < t.size(); i++) r.emplace_back(n[i], t[i].get()); return r; }
};
typedef std::function<std::shared_ptr<nn::Module>()> Maker;
void roundtrip(Ctx& c, const Maker& make, uint32_t salt) {
  auto a = make(), b = make(), a2 = make();
  std::vector<TensorPtr> sa = a->states(), sb = b->states(), s2 = a2->states();
  uint32_t k = salt; for (auto t : sa) setBytes(*t, k++);
  k = salt; for (auto t : s2) setBytes(*t, k++);
  for (auto t : sb) setBytes(*t, 7 + salt);
  std::string f = scratchDir() + "/m", f2 = scratchDir() + "/m2";
  // tensors related to the target's parameters
  std::vector<Tensor> clones, grads; std::vector<std::vector<uint8_t>> cb;
  for (auto t : sb) { clones.push_back(t->clone()); cb.push_back(bytesOf(*t)); if (t->requiresGrad()) { Tensor g = mk(shapeOf(*t), std::vector<double>(t->numel(), 2), t->dtype()); t->setGrad(g); } }
  std::vector<Tensor> aclones; for (auto t : sa) aclones.push_back(t->clone());
  std::vector<std::vector<uint8_t>> want; for (auto t : sa) want.push_back(bytesOf(*t));
  c.site("save");
  if (!save(*a, f)) c.fail("save-failed", "save returned false");
  for (size_t i = 0; i < sa.size(); i++) if (bytesOf(*sa[i]) != want[i] || bytesOf(aclones[i]) != want[i]) c.fail("save-changed", "saving changed tensor %zu", i);
  if (!save(*a2, f2)) c.fail("save-failed", "save returned false");
  if (slurp(f) != slurp(f2)) c.fail("files-differ", "files saved from equal models differ");
  c.site("load");
  bool strict = c.pick(2) == 0;
  if (!load(*b, f, strict)) c.fail("load-failed", "load of a file just saved returned false");
  auto nb = b->states();
  if (nb != sb) c.fail("states-moved", "load changed which tensors the model lists");
  for (size_t i = 0; i < sb.size(); i++) {
    if (shapeOf(*sb[i]) != shapeOf(*sa[i]) || sb[i]->dtype() != sa[i]->dtype()) c.fail("shape", "tensor %zu changed shape or type", i);
    if (bytesOf(*sb[i]) != want[i]) c.fail("bits", "tensor %zu is not bit-identical after loading", i);
    if (bytesOf(clones[i]) != cb[i]) c.fail("clone-changed", "loading changed a clone of tensor %zu", i);
    if (sb[i]->requiresGrad() != sa[i]->requiresGrad() || (sb[i]->requiresGrad() && !sb[i]->isLeaf())) c.fail("requires-grad", "tensor %zu requiresGrad %d after loading", i, sb[i]->requiresGrad());
    if (sb[i]->requiresGrad() && sb[i]->grad().defined()) for (double x : rawValues(sb[i]->grad())) if (x != 2) c.fail("grad-changed", "loading changed the gradient of tensor %zu", i);
    if (bytesOf(*sa[i]) != want[i]) c.fail("source-changed", "loading into another model changed the saved model");
  }
  // saving what was loaded gives the same file, also over a longer file
  { std::ofstream(f2, std::ios::binary) << slurp(f) << "tail that must disappear"; }
  if (!save(*b, f2) || slurp(f2) != slurp(f)) c.fail("resave", "saving the loaded model over a longer file gives a different file");
  // the loaded tensors own their values: the file and the source may change
  for (auto t : sa) setBytes(*t, 11); { std::ofstream(f, std::ios::binary) << "gone"; }
  for (size_t i = 0; i < sb.size(); i++) if (bytesOf(*sb[i]) != want[i]) c.fail("bits-later", "tensor %zu changed when the file or source changed", i);
  remove(f.c_str()); remove(f2.c_str());
}
const DType dts[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
void fTensors(Ctx& c) {
  DType d1 = dts[c.pick(6)], d2 = dts[c.pick(6)];
  static const std::vector<Sh> shapes = {{}, {0}, {1}, {13}, {2, 3}, {2, 0, 3}, {1, 1, 1, 1}, {2, 1, 2, 1, 2}, {1, 2, 1, 1, 2, 1, 1, 2}};
  Sh s1 = c.pick(shapes), s2 = c.pick(shapes); bool p1 = c.flip();
  c.desc("one module with %s %s (%s) and %s %s", dtName(d1), str(s1).c_str(), p1 ? "parameter" : "state", dtName(d2), str(s2).c_str());
  if (numelOf(s1) + numelOf(s2) > 1) c.nontrivial();
  roundtrip(c, [&] { auto m = std::make_shared<Any>(); m->put("w", s1, d1, p1); m->put("v", s2, d2, false); return m; }, (uint32_t)c.pick(c.thorough() ? 6 : 1));
}
void fNames(Ctx& c) {
  static const std::vector<std::string> names = {"w", "", ".", "a.b", "weight ", "\xc3\xa9\xe4\xb8\xad", std::string(300, 'n'), std::string("nul\0in", 6), "W", "0", "../x"};
  std::string a = c.pick(names), b = c.pick(names); int depth = c.pick(3);
  c.desc("names '%s' and '%s' nested %d deep", a.c_str(), b.c_str(), depth); c.nontrivial();
  roundtrip(c, [&] {
    std::shared_ptr<nn::Module> m; auto x = std::make_shared<Any>(); x->put(a, {3}, DType::Float32, true); if (b != a) x->put(b, {3}, DType::Float32, true);
    m = x;
    for (int i = 0; i < depth; i++) { auto u = std::make_shared<Any>(); u->registerModule(i ? "k" : b, *m); u->kids.push_back(m); u->put("own", {2}, DType::Float16, true); m = u; }
    return m;
  }, 3);
}
std::shared_ptr<nn::Module> leafOf(int k) {
  switch (k) {
    case 0: return std::make_shared<nn::Linear>(2, 3);
    case 1: return std::make_shared<nn::Conv2D>(1, 2, 2, 1, 0, false);
    case 2: return std::make_shared<nn::LayerNorm>(IntArrayView{3});
    case 3: return std::make_shared<nn::RMSNorm>(IntArrayView{2});
    case 4: return std::make_shared<nn::Embedding>(3, 2);
    case 5: return std::make_shared<nn::RoPE>(4, 3);
    case 6: { auto a = std::make_shared<Any>(); a->put("w", {2}, DType::BFloat16, true); a->put("count", {1}, DType::Int64, false); return a; }
    default: return std::make_shared<nn::Relu>();
  }
}
void fTrees(Ctx& c) {
  int n = c.pick(c.thorough() ? 5 : 4); std::vector<int> ks; for (int i = 0; i < n; i++) ks.push_back(c.pick(8));
  int shape = n ? c.pick(n + 1) : 0; int conv = c.pick(3);
  std::string d; for (int k : ks) d += std::to_string(k) + ",";
  c.desc("sequential of kinds %s, the last %d in a nested list, %s", d.c_str(), shape, conv == 0 ? "f32" : conv == 1 ? "converted to f16" : "converted to bf16");
  if (n > 1) c.nontrivial();
  roundtrip(c, [&] {
    auto s = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
    auto l = std::make_shared<nn::ModuleList>();
    for (int i = 0; i < n; i++) if (i < n - shape) s->pushBack(leafOf(ks[i])); else l->pushBack(leafOf(ks[i]));
    if (shape) s->pushBack(l);
    if (conv == 1) s->to(DType::Float16); else if (conv == 2) s->to(DType::BFloat16);
    return s;
  }, 1);
}
// histories of saves, loads and updates over two models and two files
void fHist(Ctx& c) {
  struct Mod { std::shared_ptr<nn::Module> m; std::vector<std::vector<uint8_t>> v; };
  Mod M[2]; for (int i = 0; i < 2; i++) { M[i].m = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{std::make_shared<nn::Linear>(2, 1), leafOf(6)}); int k = 0; for (auto t : M[i].m->states()) { setBytes(*t, i * 5 + k++); M[i].v.push_back(bytesOf(*t)); } }
  std::string F[2] = {scratchDir() + "/h0", scratchDir() + "/h1"};
  bool has[2] = {false, false}; std::vector<std::vector<uint8_t>> fv[2];
  remove(F[0].c_str()); remove(F[1].c_str());
  Tensor clone; std::vector<uint8_t> cv;
  int depth = c.thorough() ? 6 : 5; bool didLoad = false;
  for (int s = 0; s < depth; s++) {
    int a = c.pick(12); 
    if (a < 4) { int m = a & 1, f = a >> 1; c.desc("save(M%d,F%d);", m, f); if (!save(*M[m].m, F[f])) c.fail("save", "save failed"); has[f] = true; fv[f] = M[m].v; }
    else if (a < 8) { int m = a & 1, f = (a >> 1) & 1; c.desc("load(M%d,F%d);", m, f); bool ok = load(*M[m].m, F[f]); if (ok != has[f]) c.fail("load", "load returned %d, the file %s", ok, has[f] ? "exists" : "does not exist"); if (ok) { M[m].v = fv[f]; didLoad = true; } }
    else if (a < 10) { int m = a & 1; c.desc("update(M%d);", m); int k = 0; for (auto t : M[m].m->states()) { Tensor src = mk(shapeOf(*t), jumble(t->numel(), s * 3 + k), t->dtype()); { NoGradGuard g; t->copy_(src); } M[m].v[k++] = bytesOf(src); } }
    else if (a == 10) { c.desc("clone(M0[0]);"); clone = M[0].m->states()[0]->clone(); cv = M[0].v[0]; }
    else { c.desc("delete F0;"); if (!has[0]) c.skip(); remove(F[0].c_str()); has[0] = false; }
    uint64_t h = has[0] * 2 + has[1];
    for (auto& m : M) { auto st = m.m->states(); for (size_t i = 0; i < st.size(); i++) { if (bytesOf(*st[i]) != m.v[i]) c.fail("history", "tensor %zu of model %ld is not what the history gives", i, (long)(&m - M)); for (auto b : m.v[i]) h = mix(h, b); } }
    if (clone.defined() && bytesOf(clone) != cv) c.fail("clone-changed", "a clone taken before changed");
    c.transition(); c.state(h);
  }
  if (didLoad) c.nontrivial();
  c.trace();
}
struct Reg { Reg() {
  add("tensors", "every pair of element types and of 9 shapes (rank 0-8, empty) as parameter or state, all classes of bit patterns", fTensors, 3);
  add("names", "every pair of 11 unusual tensor names at 3 nesting depths", fNames, 2);
  add("trees", "every sequence of up to 3 (4) of 8 module kinds, flat or partly nested, in 3 element types", fTrees, 3);
  add("histories", "every history of 5 (6) saves, loads, updates, clones and deletions over two models and two files", fHist, 3);
} } reg;
}  // namespace
