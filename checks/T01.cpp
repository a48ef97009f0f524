// T01: the caching allocator over a harness-owned base allocator.  The base hands out address ranges
// that are never backed by memory (the allocator manages addresses only, as it must for device memory),
// keeps a ledger of them, and refuses requests where the explorer says so.
#include "tt.h"
using namespace mc;

namespace {
struct Range { uint64_t a, n; };
struct Ledger {
  std::vector<Range> out;          // handed out and not returned, by address
  std::string err;
  int policy = 0;                  // 0 ascending, adjacent; 1 descending, adjacent; 2 first returned address reused first; 3 with gaps
  uint64_t up = 1ull << 40, down = 1ull << 44;
  std::vector<Range> freed;
  int refuse = 0;                  // next requests to refuse
  int calls = 0, refused = 0;
  std::vector<bool> callOk;
  // state of the ledger seen by the request after a refusal
  std::vector<Range> atRetry; bool sawRetry = false;
};
struct Base : Allocator {
  Ledger* l;
  explicit Base(Ledger* l) : l(l) {}
  void* allocate(int64_t n) override {
    l->calls++;
    if (l->refused > 0 && !l->sawRetry) { l->sawRetry = true; l->atRetry = l->out; }
    if (n < 0) { l->err = "negative request to the underlying allocator"; return nullptr; }
    if (l->refuse > 0) { l->refuse--; l->refused++; return nullptr; }
    uint64_t sz = ((uint64_t)n + 511) / 512 * 512, a = 0;
    if (sz == 0) sz = 512;
    if (l->policy == 2)
      for (size_t i = 0; i < l->freed.size(); i++)
        if (l->freed[i].n >= sz) { a = l->freed[i].a; l->freed.erase(l->freed.begin() + i); break; }
    if (!a) {
      if (l->policy == 1) { l->down -= sz; a = l->down; }
      else { a = l->up; l->up += sz + (l->policy == 3 ? 4096 : 0); }
    }
    l->out.push_back({a, (uint64_t)n});
    return (void*)a;
  }
  void deallocate(void* p) override {
    for (size_t i = 0; i < l->out.size(); i++)
      if (l->out[i].a == (uint64_t)p) { l->freed.push_back({l->out[i].a, (l->out[i].n + 511) / 512 * 512}); l->out.erase(l->out.begin() + i); return; }
    l->err = "an address that is not outstanding was returned to the underlying allocator";
  }
};
struct Live { uint64_t a, n; };

void checkAll(Ctx& c, const Ledger& l, const std::vector<Live>& live) {
  if (!l.err.empty()) c.fail("base-misuse", "%s", l.err.c_str());
  for (size_t i = 0; i < live.size(); i++) {
    bool in = false;
    for (auto& r : l.out) in = in || (live[i].a >= r.a && live[i].a + live[i].n <= r.a + r.n);
    if (!in) c.fail("block-outside", "live block of %lu bytes lies outside memory obtained from the underlying allocator", (unsigned long)live[i].n);
    for (size_t j = 0; j < i; j++)
      if (live[i].a < live[j].a + std::max<uint64_t>(live[j].n, 1) && live[j].a < live[i].a + std::max<uint64_t>(live[i].n, 1))
        c.fail("overlap", "live blocks of %lu and %lu bytes overlap", (unsigned long)live[j].n, (unsigned long)live[i].n);
  }
}
bool hasLive(const Range& r, const std::vector<Live>& live) {
  for (auto& b : live) if (b.a >= r.a && b.a < r.a + std::max<uint64_t>(r.n, 1)) return true;
  return false;
}
uint64_t stateHash(const Ledger& l, const std::vector<Live>& live) {
  // canonical: base ranges in order of hand-out with their live blocks at offsets
  uint64_t h = 99;
  for (auto& r : l.out) {
    h = mix(h, r.n + 17);
    std::vector<std::pair<uint64_t, uint64_t>> in;
    for (auto& b : live) if (b.a >= r.a && b.a < r.a + r.n) in.push_back({b.a - r.a, b.n});
    std::sort(in.begin(), in.end());
    for (auto& p : in) h = mix(mix(h, p.first + 5), p.second + 7);
  }
  return h;
}

// sizes at and around every boundary of the size classes
const std::vector<uint64_t> kSizes = {1, 512, 513, 1024, 1048576, 1048577, 2097152 + 512, 10485759, 10485760, 19922432, 19922944, 22020096};
const std::vector<uint64_t> kSmallMix = {1, 513, 1048576 - 512, 1048576};
const std::vector<uint64_t> kLargeMix = {1048577, 9437184, 10485760, 19922432};

void history(Ctx& c, const std::vector<uint64_t>& sizes, int depth, int maxRefuse, bool toggles, bool policies) {
  Ledger l;
  l.policy = policies ? c.pick(4) : 0;
  std::vector<Live> live;
  std::string d = "policy " + std::to_string(l.policy) + ":";
  CachedAllocator::setCacheEnabled(true);
  bool on = true;
  int refusals = 0;
  uint64_t trans = 0;
  // owned here only at the end of a complete history: an abandoned case must not run the destructor
  auto* alp = new CachedAllocator(std::make_unique<Base>(&l));
  {
    CachedAllocator& al = *alp;
    for (int s = 0; s < depth; s++) {
      int nOps = (int)sizes.size() + (int)live.size() + (toggles ? 1 : 0);
      int op = c.pick(nOps);
      trans++;
      if (op < (int)sizes.size()) {
        uint64_t n = sizes[op];
        int rf = maxRefuse > refusals ? c.pick(3) : 0;   // grant, refuse once, refuse always
        if (rf) refusals++;
        d += " alloc(" + std::to_string(n) + (rf == 1 ? ", base refuses once" : rf == 2 ? ", base refuses" : "") + ")";
        c.redesc(d); c.site("CachedAllocator");
        l.refuse = rf == 2 ? 1 << 30 : rf; l.calls = l.refused = 0; l.sawRetry = false; l.atRetry.clear();
        void* p = al.allocate((int64_t)n);
        l.refuse = 0;
        if (rf && l.refused == 0) { c.skip(); }      // served from the cache: same as rf == 0
        if (l.refused && on) {
          // cached unused memory has to be given back and the request retried before failure is reported
          std::vector<Range>& seen = l.sawRetry ? l.atRetry : l.out;
          for (auto& r : seen) if (!hasLive(r, live))
            c.fail(l.sawRetry ? "retry-without-release" : "no-retry", "memory with no live block is kept although the underlying allocator refused");
          if (rf == 1 && !p && l.calls < 2) c.fail("no-retry", "a refused request was not retried");
        }
        if (!p && rf == 0) c.fail("refused", "allocate failed although the underlying allocator granted everything");
        if (!p && rf == 1 && on) c.fail("retry-lost", "the retry was granted but allocate failed");
        if (p) {
          if ((uint64_t)p % defaultAlignment) c.fail("misaligned", "block at %p is not aligned to %zu", p, defaultAlignment);
          live.push_back({(uint64_t)p, n});
        }
      } else if (op < (int)(sizes.size() + live.size())) {
        size_t i = op - sizes.size();
        Live b = live[i];
        d += " free(#" + std::to_string(i) + " of " + std::to_string(b.n) + ")";
        c.redesc(d); c.site("CachedAllocator");
        live.erase(live.begin() + i);
        al.deallocate((void*)b.a);
        checkAll(c, l, live);
        // its memory is available again: the same request needs no more memory from underneath
        if (on && c.thorough() == false && s + 1 == depth) {
          l.calls = 0;
          void* p = al.allocate((int64_t)b.n);
          if (!p) c.fail("refused", "allocate failed although the underlying allocator granted everything");
          if (!toggles && l.calls) c.fail("not-reused", "a block of %lu bytes was freed, but the same request asks the underlying allocator again", (unsigned long)b.n);
          live.push_back({(uint64_t)p, b.n});
        }
      } else {
        on = !on;
        d += on ? " cache(on)" : " cache(off)";
        CachedAllocator::setCacheEnabled(on);
      }
      checkAll(c, l, live);
      c.state(stateHash(l, live) * 2 + on);
    }
    c.redesc(d);
    // free everything, from either end
    bool fwd = c.flip();
    while (!live.empty()) {
      Live b = fwd ? live.front() : live.back();
      if (fwd) live.erase(live.begin()); else live.pop_back();
      al.deallocate((void*)b.a);
      checkAll(c, l, live);
      c.state(stateHash(l, live) * 2 + on);
      trans++;
    }
    if (on && !toggles) {
      // freed neighbours have been joined again: each underlying block can serve a request of its own size class
      uint64_t big = 0, small = 0;
      for (auto& r : l.out) { if (r.n > 2097152) big = std::max(big, r.n); else small = std::max(small, r.n); }
      if (big) {
        l.calls = 0;
        void* p = al.allocate((int64_t)big);
        if (l.calls) c.fail("not-joined", "everything is free but a request of %lu bytes asks the underlying allocator again", (unsigned long)big);
        if (p) { live.push_back({(uint64_t)p, big}); checkAll(c, l, live); al.deallocate(p); live.clear(); }
      }
      if (small) {
        l.calls = 0;
        void *p = al.allocate(1048576), *q = al.allocate((int64_t)small - 1048576);
        if (l.calls) c.fail("not-joined", "everything is free but small requests filling one block ask the underlying allocator again");
        if (p) { live.push_back({(uint64_t)p, 1048576}); }
        if (q) { live.push_back({(uint64_t)q, small - 1048576}); }
        checkAll(c, l, live);
        if (p) al.deallocate(p);
        if (q) al.deallocate(q);
        live.clear();
      }
    }
  }
  CachedAllocator::setCacheEnabled(true);
  c.site("destructor");
  delete alp;
  checkAll(c, l, live);
  if (!l.out.empty()) c.fail("leak", "%zu underlying blocks were never returned", l.out.size());
  c.transition(trans); c.trace();
  c.outcome(mix(l.up, l.down));
  if (trans > 4) c.nontrivial();
}
void fBoundary(Ctx& c) { history(c, kSizes, c.thorough() ? 5 : 4, 0, false, true); }
void fSmall(Ctx& c) { history(c, kSmallMix, c.thorough() ? 8 : 6, 0, false, true); }
void fLarge(Ctx& c) { history(c, kLargeMix, c.thorough() ? 8 : 6, 0, false, true); }
void fOom(Ctx& c) { history(c, {1, 1048576, 1048577, 10485760, 19922432}, c.thorough() ? 6 : 5, 2, false, true); }
void fToggle(Ctx& c) { history(c, {1, 1048576, 10485760}, c.thorough() ? 7 : 6, 1, true, false); }
// two allocators over different bases are independent
void fTwo(Ctx& c) {
  Ledger l[2];
  l[1].up = 1ull << 42; l[1].down = 1ull << 45;
  std::vector<Live> live[2];
  std::string d;
  CachedAllocator::setCacheEnabled(true);
  {
    CachedAllocator* al[2] = {new CachedAllocator(std::make_unique<Base>(&l[0])), new CachedAllocator(std::make_unique<Base>(&l[1]))};
    for (int s = 0; s < (c.thorough() ? 7 : 6); s++) {
      int w = c.pick(2), op = c.pick(2 + (int)live[w].size());
      if (op < 2) {
        uint64_t n = op ? 1048577 : 600;
        void* p = al[w]->allocate((int64_t)n);
        d += " alloc" + std::to_string(w) + "(" + std::to_string(n) + ")";
        live[w].push_back({(uint64_t)p, n});
      } else {
        al[w]->deallocate((void*)live[w][op - 2].a);
        d += " free" + std::to_string(w);
        live[w].erase(live[w].begin() + op - 2);
      }
      c.redesc(d);
      for (int i = 0; i < 2; i++) checkAll(c, l[i], live[i]);
      c.state(mix(stateHash(l[0], live[0]), stateHash(l[1], live[1])));
      c.transition();
    }
    for (int i = 0; i < 2; i++) for (auto& x : live[i]) al[i]->deallocate((void*)x.a);
    c.site("destructor");
    delete al[0]; delete al[1];
  }
  for (int i = 0; i < 2; i++) { checkAll(c, l[i], {}); if (!l[i].out.empty()) c.fail("leak", "underlying blocks were never returned"); }
  c.trace(); c.nontrivial();
}
struct Reg { Reg() {
  add("boundary", "every history of 4 (5) operations over 12 sizes at the size-class boundaries, 4 address policies, both final freeing orders", fBoundary, 3);
  add("small", "every history of 6 (8) operations over 4 small sizes", fSmall, 4);
  add("large", "every history of 6 (8) operations over 4 large sizes", fLarge, 4);
  add("oom", "every history of 5 (6) operations with up to 2 refusals (once or persistent) by the underlying allocator at any request", fOom, 4);
  add("toggle", "histories of 6 (7) operations including switching caching off and on", fToggle, 4);
  add("two", "two allocators over two bases, interleaved", fTwo, 4);
} } reg;
}  // namespace
