// S02: damaged files and failing writes: reported, never half-applied, never read past the end.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <set>
#include "tt.h"
#include "Modules.h"
#include "Serializer.h"
// a mapped file ends exactly at an inaccessible page: reading one byte past it faults
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
static std::map<void*, std::pair<void*, size_t>>& maps() { static std::map<void*, std::pair<void*, size_t>> m; return m; }
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd < 0 || off != 0 || n == 0) return __real_mmap(a, n, prot, flags, fd, off);
  size_t pg = 4096, up = (n + pg - 1) / pg * pg;
  char* base = (char*)__real_mmap(nullptr, up + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  char* p = base + up - n;
  size_t got = 0; while (got < n) { ssize_t r = pread(fd, p + got, n - got, got); if (r <= 0) break; got += r; }
  mprotect(base, up, PROT_READ); mprotect(base + up, pg, PROT_NONE);
  maps()[p] = {base, up + pg};
  return p;
}
int __wrap_munmap(void* p, size_t n) {
  auto it = maps().find(p);
  if (it == maps().end()) return __real_munmap(p, n);
  auto b = it->second; maps().erase(it); return __real_munmap(b.first, b.second);
}
}
using namespace mc;
namespace {
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
void spill(const std::string& p, const std::string& s) { std::ofstream(p, std::ios::binary) << s; }
std::vector<uint8_t> bytesOf(const Tensor& t) { std::vector<uint8_t> o((size_t)t.numel() * dtypeSize(t.dtype())); if (!o.empty()) memcpy(o.data(), t.dataPtr<>(), o.size()); return o; }
typedef std::vector<std::vector<uint8_t>> Vals;
struct Ts { std::string n; Sh s; DType d; };
struct Any : nn::Module {
  std::vector<std::unique_ptr<Tensor>> t; std::vector<std::string> n;
  explicit Any(const std::vector<Ts>& v) { for (auto& x : v) { t.push_back(std::make_unique<Tensor>(mk(x.s, std::vector<double>(numelOf(x.s), 0), x.d, x.d == DType::Float32))); n.push_back(x.n); } }
  Vals vals() { Vals v; for (auto& x : t) v.push_back(bytesOf(*x)); return v; }
  void fill(int salt) { int k = 0; for (auto& x : t) { auto v = jumble(x->numel(), salt + k++); rawStore(*x, v); } }
  void zero() { for (auto& x : t) rawStore(*x, std::vector<double>(x->numel(), 0)); }
 protected:
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { std::vector<std::pair<std::string, TensorPtr>> r; for (size_t i = 0; i < t.size(); i++) r.emplace_back(n[i], t[i].get()); return r; }
};
std::vector<Ts> kind(int k) {
  switch (k) {
    case 0: return {{"w", {3}, DType::Float32}};
    case 1: return {{"fc.weight", {2, 2}, DType::Float32}, {"fc.bias", {2}, DType::Float32}};
    case 2: return {{"a", {}, DType::Int64}, {"b", {0, 2}, DType::Float32}, {"c", {3}, DType::Float16}};
    case 3: return {};
    case 4: return {{"a", {2}, DType::Float32}, {"b", {2}, DType::Float32}, {"ab", {2}, DType::Float32}};
    case 5: return {{"w", {4}, DType::Float32}};
    case 6: return {{"w", {3}, DType::Int32}};
    case 7: return {{"b", {2}, DType::Float32}, {"a", {2}, DType::Float32}};
    case 8: return {{"w", {3, 1}, DType::Float32}};
    case 9: return {{"w", {3}, DType::Float32}, {"v", {1}, DType::Float32}};
    case 10: return {{"v", {1}, DType::Float32}, {"w", {4}, DType::Float32}};
    default: return {{"b", {0}, DType::Float32}};
  }
}
constexpr int kKinds = 12;
std::string saved(Any& m) { std::string f = scratchDir() + "/good"; remove(f.c_str()); if (!save(m, f)) return "?"; return slurp(f); }
int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
// loads `bytes` into m, which must come out as `want` (empty: must be refused and unchanged)
void tryLoad(Ctx& c, Any& m, const std::string& bytes, bool strict, const char* key, bool mustFail, const Vals* want = nullptr) {
  std::string f = scratchDir() + "/bad"; spill(f, bytes);
  Vals before = m.vals(); size_t live = maps().size(); int fds = openFds();
  c.site(key);
  bool ok = load(m, f, strict);
  if (maps().size() != live || openFds() != fds) c.fail(std::string(key) + "-leak", "load left a mapping or file descriptor open");
  Vals after = m.vals();
  if (ok && mustFail) c.fail(std::string(key) + "-accepted", "load returned true");
  if (!ok && !mustFail) c.fail(std::string(key) + "-refused", "load returned false");
  if (!ok && after != before) c.fail(std::string(key) + "-partial", "load failed but changed the model");
  if (ok && want && after != *want) c.fail(std::string(key) + "-values", "load succeeded with other values than the file holds for it");
}
// header length of a file: the data of all tensors comes last
size_t dataLen(Any& m) { size_t n = 0; for (auto& x : m.t) n += bytesOf(*x).size(); return n; }
void fTruncate(Ctx& c) {
  int k = c.pick(6); Any a(kind(k)); bool zeros = c.flip();
  if (zeros) a.zero(); else a.fill(1);
  std::string b = saved(a); if (b == "?") c.fail("save", "save failed");
  bool strict = c.pick(2) == 0;
  int len = c.pick((int)b.size() + 1);
  c.desc("model %d (%s) cut to %d of %zu bytes, strict=%d", k, zeros ? "all zero" : "values", len, b.size(), strict); c.nontrivial();
  Any m(kind(k)); m.fill(5);
  Vals w = a.vals();
  tryLoad(c, m, b.substr(0, len), strict, "truncated", len < (int)b.size(), &w);
}
void fByte(Ctx& c) {
  int k = c.pick(6); Any a(kind(k)); a.fill(1);
  std::string b = saved(a); bool strict = c.pick(2) == 0;
  size_t head = b.size() - dataLen(a);
  int pos = c.pick((int)b.size()); 
  static const int vals[] = {-1, -2, -3, 0, 255, -4, -5, -6, -7, -8, -9, -10};
  int how = c.pick(c.thorough() ? 12 : 7); int v = vals[how]; uint8_t old = b[pos];
  uint8_t nw = v >= 0 ? v : v == -1 ? old ^ 1 : v == -2 ? old + 1 : v == -3 ? old ^ 0x80 : v == -4 ? old - 1 : v == -5 ? old ^ 2 : v == -6 ? old ^ 4 : v == -7 ? old ^ 8 : v == -8 ? old ^ 16 : v == -9 ? old ^ 32 : old ^ 64;
  if (nw == old) c.skip();
  b[pos] = (char)nw;
  c.desc("model %d byte %d of %zu: %d -> %d, strict=%d", k, pos, b.size(), old, nw, strict); c.nontrivial();
  Any m(kind(k)); m.fill(5); Vals before = m.vals();
  if ((size_t)pos >= head) {  // payload: the value in the file is what must be loaded
    Vals w = a.vals(); size_t o = pos - head; size_t i = 0; while (o >= w[i].size()) o -= w[i++].size(); w[i][o] = nw;
    tryLoad(c, m, b, strict, "payload", false, &w);
    return;
  }
  if (strict) { tryLoad(c, m, b, true, "header-byte", true); return; }
  // not strict: a changed name is an unknown key, which is allowed; every tensor is then either as before or as saved
  std::string f = scratchDir() + "/bad"; spill(f, b); c.site("header-byte");
  bool ok = load(m, f, false); Vals after = m.vals(), w = a.vals();
  for (size_t i = 0; i < w.size(); i++) if (after[i] != before[i] && !(ok && after[i] == w[i])) c.fail("header-byte-lenient", "tensor %zu has neither its old nor its saved value (load %d)", i, ok);
}
void fField(Ctx& c) {  // every aligned or unaligned 8-byte window of the header replaced by extreme numbers
  int k = c.pick(6); Any a(kind(k)); a.fill(1);
  std::string b = saved(a); bool strict = c.pick(2) == 0; size_t head = b.size() - dataLen(a);
  if (head < 8) c.skip();
  int pos = c.pick((int)head - 7);
  static const uint64_t vals[] = {0, 1, 2, 7, 0x7f, 1ull << 31, (1ull << 31) - 1, 1ull << 32, 1ull << 61, 1ull << 63, (1ull << 63) - 1, ~0ull, ~0ull - 7, ~0ull - 23, ~0ull - 47, ~0ull - 200};
  int how = c.pick(18); uint64_t old; memcpy(&old, &b[pos], 8);
  uint64_t v = how < 16 ? vals[how] : how == 16 ? b.size() : old + (1ull << 62);
  if (v == old) c.skip();
  memcpy(&b[pos], &v, 8);
  c.desc("model %d bytes %d..%d = %llu, strict=%d", k, pos, pos + 7, (unsigned long long)v, strict); c.nontrivial();
  Any m(kind(k)); m.fill(5); Vals before = m.vals();
  if (strict) { tryLoad(c, m, b, true, "field", true); return; }
  std::string f = scratchDir() + "/bad"; spill(f, b); c.site("field");
  bool ok = load(m, f, false); Vals after = m.vals(), w = a.vals();
  for (size_t i = 0; i < w.size(); i++) if (after[i] != before[i] && !(ok && after[i] == w[i])) c.fail("field-lenient", "tensor %zu has neither its old nor its saved value (load %d)", i, ok);
}
void fSplice(Ctx& c) {  // two files glued: the first i bytes of one and the rest of another from j on
  int k = c.pick(4), l = c.pick(6); if (k == 3) c.skip(); Any a(kind(k)), o(kind(l)); a.fill(1); o.fill(8);
  std::string x = saved(a), y = saved(o);
  int i = c.pick((int)x.size() + 1); bool same = c.flip();
  std::string b = x.substr(0, i) + (same ? ((size_t)i <= y.size() ? y.substr(i) : "") : y);
  c.desc("first %d bytes of model %d then %s model %d", i, k, same ? "the tail of" : "all of", l); c.nontrivial();
  Any m(kind(k)); m.fill(5);
  size_t head = x.size() - dataLen(a);
  if (b == y && k != l) { tryLoad(c, m, b, true, "splice", true); return; }
  if (i == (int)x.size() || (k == l && same) || (k == l && i == 0)) return;  // a complete file, possibly with a tail
  if ((size_t)i >= head && b.size() >= x.size()) return;                      // header intact and enough data: values as in the file
  if (b.size() >= head && b.substr(0, head) == x.substr(0, head) && b.size() >= x.size()) return;
  tryLoad(c, m, b, true, "splice", true);
}
void fMismatch(Ctx& c) {
  int k = c.pick(kKinds), l = c.pick(kKinds); bool strict = c.pick(2) == 0;
  Any a(kind(k)), m(kind(l)); a.fill(1); m.fill(5);
  c.desc("file of model %d into model %d strict=%d", k, l, strict); if (k != l) c.nontrivial();
  std::string b = saved(a);
  auto ka = kind(k), kl = kind(l); Vals va = a.vals(), w = m.vals(); bool ok = true; size_t hit = 0;
  for (size_t i = 0; i < kl.size(); i++) { bool found = false; for (size_t j = 0; j < ka.size(); j++) if (ka[j].n == kl[i].n) { found = true; hit++; if (ka[j].s != kl[i].s || ka[j].d != kl[i].d) ok = false; else w[i] = va[j]; } if (!found && strict) ok = false; }
  if (strict && hit != ka.size()) ok = false;
  tryLoad(c, m, b, strict, "mismatch", !ok, &w);
}
void fNoFile(Ctx& c) {
  int k = c.pick(3), what = c.pick(5); bool strict = c.flip(); Any m(kind(k)); m.fill(2); Vals before = m.vals();
  std::string f = scratchDir() + "/none"; 
  c.desc("load case %d", what); c.nontrivial();
  if (what == 1) f = scratchDir(); else if (what == 2) { f = scratchDir() + "/empty"; spill(f, ""); } else if (what == 3) f = scratchDir() + "/no/such/dir"; else if (what == 4) f = "";
  if (load(m, f, strict)) c.fail("no-file", "load of nothing succeeded");
  if (m.vals() != before) c.fail("no-file-changed", "failed load changed the model");
  if (what == 1 || what == 3 || what == 4) { c.site("save"); if (save(m, f)) c.fail("save-nowhere", "save to '%s' returned true", f.c_str()); }
}
// ---- failing and interrupted saves: the file system takes only `limit` bytes
struct Out { int ret; bool killed; };
Out limitedSave(Any& m, const std::string& f, size_t limit, bool kill_) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    signal(SIGXFSZ, kill_ ? SIG_DFL : SIG_IGN); signal(SIGTRAP, SIG_DFL);
    struct rlimit c0 = {0, 0}; setrlimit(RLIMIT_CORE, &c0);
    struct rlimit r; r.rlim_cur = limit; r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r);
    bool ok = save(m, f);
    _exit(ok ? 10 : 11);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return {-WTERMSIG(st), true};
  return {WEXITSTATUS(st), false};
}
void fWrite(Ctx& c) {
  int k = c.pick(c.thorough() ? 6 : 3), pre = c.pick(3); bool kill_ = c.flip();
  Any a(kind(k)); a.fill(1);
  std::string want = saved(a);
  Any prev(kind(pre == 2 ? 1 : k)); prev.fill(9); std::string old = saved(prev);
  int limit = c.pick((int)want.size() + 2);
  std::string dir = scratchDir() + "/w"; mkdir(dir.c_str(), 0700);
  { DIR* d = opendir(dir.c_str()); while (auto* e = readdir(d)) { if (e->d_name[0] != '.') remove((dir + "/" + e->d_name).c_str()); else if (e->d_name[1] && e->d_name[1] != '.') remove((dir + "/" + e->d_name).c_str()); } closedir(d); }
  std::string f = dir + "/model";
  if (pre) spill(f, old);
  c.desc("model %d, %s before, storage takes %d of %zu bytes, then %s", k, pre == 0 ? "nothing" : pre == 1 ? "a file of the same model" : "a file of another model", limit, want.size(), kill_ ? "the process dies" : "writes fail");
  c.site("save"); c.nontrivial();
  Vals before = a.vals();
  Out o = limitedSave(a, f, limit, kill_);
  if (a.vals() != before) c.fail("save-changed", "a failing save changed the model");
  struct stat st; bool exists = stat(f.c_str(), &st) == 0; std::string now = exists ? slurp(f) : "";
  if (o.killed && !(kill_ && o.ret == -SIGXFSZ)) c.fail("save-crash", "save died with signal %d", -o.ret);
  bool fits = limit >= (int)want.size();
  if (!o.killed && o.ret == 10 && now != want) c.fail("save-true", "save returned true but the file is not complete (%zu of %zu bytes)", now.size(), want.size());
  if (!o.killed && fits && o.ret != 10) c.fail("save-false", "save returned false although everything was written");
  // whatever happened: under the target name is the old file, the new one, or something load refuses
  if (pre && !exists) c.fail("old-lost", "the previous file is gone");
  if (pre && now != old && now != want) c.fail("old-destroyed", "the previous file was replaced by %zu bytes of something else", now.size());
  if (exists && now != want && now != old) {
    Any m(kind(k)); m.fill(5); Vals b4 = m.vals();
    bool ok = load(m, f);
    if (ok) c.fail("partial-accepted", "load accepts what a failed save left behind");
    if (m.vals() != b4) c.fail("partial-applied", "load of what a failed save left behind changed the model");
  }
  if (!kill_ && o.ret == 11) {  // a later save works and nothing of the failed one is left in the way
    if (!save(a, f) || slurp(f) != want) c.fail("save-after", "saving again after a failed save does not work");
  }
  if (!kill_) { int n = 0; DIR* d = opendir(dir.c_str()); while (auto* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); if (n > 1) c.fail("litter", "%d files left in the directory", n); }
}
struct Reg { Reg() {
  add("truncate", "every length of a saved file, 6 models, all-zero or mixed values, strict and lenient: refused, unchanged, nothing read past the end", fTruncate, 3);
  add("byte", "every byte of a saved file changed in 7 (12) ways", fByte, 3);
  add("field", "every 8-byte window of the header replaced by 18 extreme numbers", fField, 3);
  add("splice", "every cut point between two saved files", fSplice, 3);
  add("mismatch", "the file of each of 12 models loaded into each", fMismatch, 2);
  add("no-file", "missing, empty and impossible paths", fNoFile, 2);
  add("write", "every number of bytes the storage takes before writes fail or the process dies, over no file, an older file and another model's file", fWrite, 3);
} } reg;
}  // namespace
