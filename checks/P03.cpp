// P03: the file store as one atomic map for threads and processes, under every schedule at file-system-call
// granularity and with a process dying at any of those calls or in the middle of a write.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include <thread>
#include "Distributed/FileStore.h"
#include "../mc/sim.h"
#include "../mc/sim_io.h"
#include "../mc/storeref.h"
using namespace tinytorch::distributed;
using namespace sim;
using namespace sref;
using std::chrono::milliseconds;

static constexpr uint64_t kSec = 1000000000ull;

static void clearDir(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
    std::string p = d + "/" + e->d_name;
    if (unlink(p.c_str()) != 0) { clearDir(p); rmdir(p.c_str()); }
  }
  closedir(dir);
}
static std::vector<std::string> listDir(const std::string& d) {
  std::vector<std::string> r;
  DIR* dir = opendir(d.c_str());
  if (!dir) return r;
  while (dirent* e = readdir(dir)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
  closedir(dir);
  std::sort(r.begin(), r.end());
  return r;
}

struct World {
  mc::Ctx& c;
  std::string top = mc::scratchDir() + "/fs", dir = top + "/store";
  Sim s;
  std::vector<FileStore*> st;
  std::vector<int> proc;
  Hist h;
  Map init;
  bool shared;
  // mode 0: a process each; 1: threads with a store object each; 2: threads sharing one store object
  World(mc::Ctx& c, Config k, int actors, milliseconds timeout, int mode = 0) : c(c), s(c, k), st(actors, nullptr), proc(actors, 0), shared(mode == 2) {
    s.exploring = false;
    mkdir(top.c_str(), 0755);
    clearDir(top);
    fileRoot(dir);
    h.timeout = timeout.count() ? (uint64_t)timeout.count() * 1000000ull : 0;
    for (int i = 0; i < actors; i++) {
      proc[i] = mode == 0 ? i : 0;
      if (shared && i) { st[i] = st[0]; continue; }
      open(i, timeout);
    }
  }
  void open(int i, milliseconds timeout) {
    s.spawn("setup" + std::to_string(i), proc[i], [this, i, timeout] { FileStore* t = new FileStore(dir, timeout); Internal in; st[i] = t; });
    phase("setup");
  }
  void phase(const char* what) {
    if (!s.runUsers()) c.fail(std::string(what) + "-hangs", "%s never ends: %s\n%s\nschedule:%s\nlog: %s", what, s.stuck().c_str(), h.text().c_str(), s.trace.c_str(), s.log.c_str());
  }
  void prepare(const std::vector<Op>& ops) {
    if (ops.empty()) return;
    s.spawn("prepare", 0, [this, ops] { for (auto& o : ops) h.run(0, st[0], o); });
    phase("prepare");
    for (auto& e : h.ev) { Map m = init; Hist::apply(e, m, true); init = m; }
    h.ev.clear();
  }
  void actor(int i, const std::vector<Op>& ops, uint64_t after = 0, uint64_t gap = 0) {
    s.spawn("actor" + std::to_string(i), proc[i], [this, i, ops, after, gap] {
      if (after) std::this_thread::sleep_for(std::chrono::nanoseconds(after));
      for (size_t n = 0; n < ops.size(); n++) {
        if (n && gap) std::this_thread::sleep_for(std::chrono::nanoseconds(gap));
        h.run(i, st[i], ops[n]);
      }
    });
  }
  void explore() { s.exploring = true; phase("calls"); s.exploring = false; }
  void inspect(int i, const std::vector<std::string>& keys) {
    s.spawn("inspect", proc[i], [this, keys, i] {
      h.run(i, st[i], num());
      for (auto& k : keys) {
        h.run(i, st[i], sref::check({k}));
        if (h.ev.back().ri) h.run(i, st[i], get(k));
      }
    });
    phase("inspection");
  }
  void judge() {
    if (!h.linearizable(init)) c.fail("not-a-map", "no sequential order explains the calls:%s\nschedule:%s\nlog: %s", h.text().c_str(), s.trace.c_str(), s.log.c_str());
    for (auto& e : h.ev) {
      if (e.t1 < 0) { if (!s.procDead(proc[e.actor])) c.fail("no-return", "%s\nschedule:%s", e.text().c_str(), s.trace.c_str()); continue; }
      bool blocking = e.op.k == GET || e.op.k == WAIT;
      if (!blocking && e.n1 - e.n0 > kSec) c.fail("slow-call", "%s took %llu ms\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - e.n0) / 1000000), s.trace.c_str());
      if (blocking && !e.timedOut) {
        uint64_t last = e.n0;
        for (auto& o : h.ev) if (o.actor != e.actor && o.t1 > 0 && o.t1 < e.t1 + 1000) last = std::max(last, std::min(o.n1, e.n1));
        if (e.n1 > last + kSec) c.fail("late-wakeup", "%s returned %llu ms after the last change:%s\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - last) / 1000000), h.text().c_str(), s.trace.c_str());
      }
      if (e.timedOut && e.n1 - e.n0 > h.timeout + 3 * kSec) c.fail("late-timeout", "%s took %llu ms\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - e.n0) / 1000000), s.trace.c_str());
    }
    uint64_t hash = 1469598103934665603ull;
    for (auto& e : h.ev) { hash = mc::mix(hash, e.ri * 7 + e.timedOut); for (char ch : e.rs) hash = mc::mix(hash, (unsigned char)ch); }
    c.outcome(hash);
  }
  void over() {
    for (int i = (int)st.size() - 1; i >= 0; i--) {
      if (!st[i] || s.procDead(proc[i]) || (shared && i)) continue;
      s.spawn("close" + std::to_string(i), proc[i], [this, i] { delete st[i]; });
      phase("destruction");
    }
    if (!s.run()) c.fail("threads-left", "%s", s.stuck().c_str());
    if (openFiles()) c.fail("files-left", "%d files are still open after everything was destroyed\nschedule:%s", openFiles(), s.trace.c_str());
    auto l = listDir(top);
    if (l != std::vector<std::string>{"store"}) c.fail("outside", "something besides the store's directory was created: %s", l.empty() ? "(nothing there)" : l[0].c_str());
  }
  void finish(const std::vector<std::string>& keys) { inspect(0, keys); judge(); over(); }
};

static const char* kStates[] = {"empty", "a=7", "a=x,b=", "b=5"};
static std::vector<Op> initial(int k) {
  switch (k) {
    case 1: return {set("a", "7")};
    case 2: return {set("a", "x"), set("b", "")};
    case 3: return {set("b", "5")};
  }
  return {};
}
static const std::vector<Op>& alphabet() {
  static const std::vector<Op> a = {set("a", "1"), get("a"), add("a", 1), sref::wait({"a"}), sref::wait({"a", "b"}), del("a"), sref::check({"a", "b"}), num(), set("b", "3"), add("a", 10), sref::check({"a"}),
                                    set("a", ""), add("b", -2), sref::wait({"b", "a"}), get("b")};
  return a;
}
static const char* kModes[] = {"processes", "threads, a store each", "threads, one store"};
static void describe(mc::Ctx& c, int st, const std::vector<std::vector<Op>>& p, int mode) {
  c.desc("%s, initially %s;", kModes[mode], kStates[st]);
  for (size_t i = 0; i < p.size(); i++) { c.desc(" actor%zu:", i); for (auto& o : p[i]) c.desc(" %s", o.text().c_str()); }
}
static void runProgram(mc::Ctx& c, int st, const std::vector<std::vector<Op>>& prog, int dev, int mode, milliseconds timeout = milliseconds(2000)) {
  describe(c, st, prog, mode);
  if (prog.size() > 1) c.nontrivial();
  Config k; k.deviations = dev; k.interrupts = false;
  World w(c, k, std::max<int>(2, (int)prog.size()), timeout, mode);
  w.prepare(initial(st));
  for (size_t i = 0; i < prog.size(); i++) w.actor((int)i, prog[i]);
  w.explore();
  w.finish({"a", "b"});
}

// one user, every sequence of calls
static void sequences(mc::Ctx& c) {
  auto& A = alphabet();
  int st = c.pick(4), n = c.thorough() ? 4 : 3;
  std::vector<Op> p;
  for (int i = 0; i < n; i++) p.push_back(A[c.pick(i < 2 ? 15 : 11)]);
  runProgram(c, st, {p}, 0, 0, milliseconds(30));
}

// two users with one call each
static void pairs(mc::Ctx& c) {
  auto& A = alphabet();
  int mode = c.pick(3), st = c.pick(4);
  int i = c.pick(15), j = c.pick(15);
  if (mode && !c.thorough() && (i > 8 || j > 8)) c.skip();
  if (!c.thorough() && st > 1 && (i > 10 || j > 10)) c.skip();
  runProgram(c, st, {{A[i]}, {A[j]}}, c.thorough() ? 4 : 2, mode);
}

// two users with two calls each
static void doubles(mc::Ctx& c) {
  static const std::vector<Op> A = {set("a", "1"), add("a", 1), del("a"), sref::check({"a", "b"}), num(), set("b", "3"), get("a")};
  int n = c.thorough() ? 7 : 6;
  int mode = c.pick(2), st = c.pick({0, 1});
  if (mode && !c.thorough()) c.skip();
  int i = c.pick(n), j = c.pick(n), k = c.pick(n), l = c.pick(n);
  if (i * n + j > k * n + l) c.skip();   // the two users are alike
  runProgram(c, st, {{A[i], A[j]}, {A[k], A[l]}}, c.thorough() ? 2 : 1, mode);
}

// one question about two keys beside changes that never, or always, leave both there
static void glimpses(mc::Ctx& c) {
  static const std::vector<Op> Q = {sref::check({"a", "b"}), sref::check({"b", "a"}), sref::wait({"a", "b"}), sref::wait({"b", "a"}), num()};
  static const std::vector<std::vector<Op>> P = {{del("a"), set("b", "3")}, {set("b", "3"), del("a")}, {del("a"), add("b", 1), set("a", "2")}, {set("b", "3"), del("a"), del("b")}, {del("b"), set("a", "1")}, {add("a", 1), del("b")}};
  int mode = c.pick(3), st = c.pick({1, 2, 3}), q = c.pick((int)Q.size()), p = c.pick((int)P.size());
  describe(c, st, {{Q[q]}, P[p]}, mode);
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 4 : mode == 1 ? 2 : 3; k.interrupts = false;
  World w(c, k, 2, milliseconds(600), mode);
  w.prepare(initial(st));
  w.actor(0, {Q[q]}); w.actor(1, P[p]);
  w.explore();
  w.finish({"a", "b"});
}

// three users
static void triples(mc::Ctx& c) {
  static const std::vector<Op> A = {add("a", 1), set("a", "4"), del("a"), sref::check({"a", "b"}), get("a"), sref::wait({"a", "b"}), num(), set("b", "9"), add("b", 3)};
  int n = c.thorough() ? 9 : 7;
  int mode = c.pick({0, 2}), st = c.pick({0, 1});
  int i = c.pick(n), j = c.pick(n), k = c.pick(n);
  if (i > j || j > k) c.skip();
  runProgram(c, st, {{A[i]}, {A[j]}, {A[k]}}, c.thorough() ? 3 : mode ? 1 : 2, mode);
}

// long values: written and read in several pieces
static void longValues(mc::Ctx& c) {
  static const std::vector<int> sizes = {1, 4095, 4096, 4097, 10000};
  int a = c.pick((int)sizes.size()), b = c.pick((int)sizes.size());
  int second = c.pick(4);
  std::string va(sizes[a], 'p'), vb(sizes[b], 'q');
  va.back() = 'P'; vb.back() = 'Q';
  std::vector<Op> o1 = {set("a", vb)}, o2 = second == 0 ? std::vector<Op>{get("a"), get("a")} : second == 1 ? std::vector<Op>{set("a", va), get("a")} : second == 2 ? std::vector<Op>{del("a"), sref::check({"a"})} : std::vector<Op>{add("a", 1)};
  c.desc("a value of %d bytes replaced by one of %d bytes beside %s", sizes[a], sizes[b], o2[0].text().c_str());
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 3 : 2; k.interrupts = false;
  World w(c, k, 2, milliseconds(2000));
  w.prepare({set("a", va)});
  w.actor(0, o1); w.actor(1, o2);
  w.explore();
  w.finish({"a"});
}

// blocked calls, woken and not
static void waiters(mc::Ctx& c) {
  static const std::vector<Op> W = {get("a"), sref::wait({"a"}), sref::wait({"a", "b"}), sref::wait({"b", "a", "a"})};
  static const std::vector<std::vector<Op>> P = {{set("a", "1")}, {add("a", 2)}, {set("b", "1"), set("a", "2")}, {set("a", "1"), del("a"), set("b", "2")}, {set("a", "1"), set("b", "2"), del("a"), set("a", "3")}, {}, {set("b", "")}, {set("a", "")}};
  int mode = c.pick({0, 2}), i = c.pick((int)W.size()), j = c.pick((int)P.size());
  int w2 = c.pick((int)W.size() + 1);
  int limit = c.pick({0, 500, 2000});
  if (limit == 2000 && !c.thorough() && (i != 2 || w2 != 4)) c.skip();
  uint64_t after = c.pick({0, 105, 495, 505}) * 1000000ull;
  uint64_t gap = P[j].size() > 1 && after != 495000000 && after != 505000000 ? c.pick({0, 45}) * 1000000ull : 0;   // long enough for a waiter to look in between
  c.desc("%s: %s", kModes[mode], W[i].text().c_str());
  if (w2 < (int)W.size()) c.desc(" and %s", W[w2].text().c_str());
  c.desc(", limit %d ms; after %llu ms:", limit, (unsigned long long)after / 1000000);
  if (gap) c.desc(" with pauses");
  for (auto& o : P[j]) c.desc(" %s", o.text().c_str());
  // without limit only if it can be satisfied in the end
  bool a = false, b = false, wantB = i > 1 || (w2 < 4 && w2 > 1);
  for (auto& o : P[j]) { bool on = o.k != DEL; (o.keys[0] == "a" ? a : b) = on; }
  if (limit == 0 && (!a || (wantB && !b))) c.skip();
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 2 : 1; k.interrupts = false;
  World w(c, k, 3, milliseconds(limit), mode);
  w.actor(1, {W[i]});
  if (w2 < (int)W.size()) w.actor(2, {W[w2]});
  w.actor(0, P[j], after, gap);
  w.explore();
  w.finish({"a", "b"});
}

// a process dies at any file-system call of its call
static void crashes(mc::Ctx& c) {
  static const std::vector<Op> V = {set("a", "1"), set("a", ""), set("a", std::string(9000, 'z')), add("a", 1), del("a"), set("n", "5"), add("n", 3), sref::check({"a", "b"}), num(), get("a"), sref::wait({"a"})};
  static const std::vector<Op> O = {Op{}, add("a", 10), set("a", "44"), del("a"), get("a"), sref::check({"a", "b"}), num(), set("b", "2"), sref::wait({"a"})};
  int st = c.pick({1, 0, 2}), v = c.pick((int)V.size()), v2 = c.pick({-1, 3, 0}), o = c.pick((int)O.size());
  if (v2 >= 0 && o > (c.thorough() ? 8 : 2)) c.skip();
  if (!st && (v > 8)) c.skip();
  if ((O[o].k == GET || O[o].k == WAIT) && (st == 0 || v == 4)) c.skip();   // would wait for its whole limit
  int dev = o ? (c.thorough() ? 2 : 1) : 0;
  c.desc("initially %s; process 1: %s", kStates[st], V[v].text().c_str());
  if (v2 >= 0) c.desc(" %s", V[v2].text().c_str());
  c.desc(" dies at some call; process 0: %s", O[o].text().c_str());
  c.nontrivial();
  Config k; k.deviations = dev; k.faults = 1; k.kills = true; k.interrupts = k.shorts = k.resets = false;
  World w(c, k, 4, milliseconds(2000));
  w.prepare(initial(st));
  std::vector<Op> vic = {V[v]};
  if (v2 >= 0) vic.push_back(V[v2]);
  w.actor(1, vic);
  if (O[o].k != NOP) w.actor(0, {O[o]});
  w.explore();
  if (!w.s.procDead(1)) { if (w.s.faultsLeft == 0) c.skip(); }
  // the others go on, and so does a process started afterwards
  w.actor(2, {sref::check({"a"}), add("later", 2), set("b", "8"), num()});
  w.phase("calls after a death");
  w.inspect(0, {"a", "b", "n", "later"});
  w.actor(3, {add("later", 1), del("later"), sref::check({"later"}), set("a", "9"), get("a"), del("a"), num()});
  w.phase("calls after a death");
  w.judge();
  w.over();
}

// two processes die
static void twoCrashes(mc::Ctx& c) {
  static const std::vector<Op> V = {set("a", "1"), add("a", 1), del("a"), set("b", "2")};
  int st = c.pick({1, 0}), v = c.pick((int)V.size()), u = c.pick((int)V.size());
  c.desc("initially %s; %s and %s, both processes may die", kStates[st], V[v].text().c_str(), V[u].text().c_str());
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 2 : 1; k.faults = 2; k.kills = true; k.interrupts = k.shorts = k.resets = false;
  World w(c, k, 4, milliseconds(2000));
  w.prepare(initial(st));
  w.actor(1, {V[v]});
  w.actor(2, {V[u]});
  w.explore();
  w.inspect(0, {"a", "b"});
  w.actor(3, {add("n", 1), set("a", "9"), num()});
  w.phase("calls after a death");
  w.judge();
  w.over();
}

// any string is a key, different strings are different keys, and nothing outside the store's directory is touched
static const std::vector<std::string>& oddKeys() {
  static const std::vector<std::string> k = {"a", "a/b", "/a", "../a", "..", ".", "", ".lock", ".tmp", "a%2Fb", "%2Fa", "%", "%%", "a b", "a\nb", std::string("a\0b", 3), std::string("\0", 1), "A", "store/0//", "a.", "a/", "..%2Fa", "%2E", "%00", "lock", "tmp", "a.lock", "a.tmp", "a~", "\xff\xfe", "%2e", "/", "//", "_", "-rf", "*", std::string(80, 'k'), std::string(80, '/')};
  return k;
}
static void keys(mc::Ctx& c) {
  auto& K = oddKeys();
  int i = c.pick((int)K.size()), j = c.pick((int)K.size());
  if (i == j) c.skip();
  int how = c.pick(3);
  std::string a = K[i], b = K[j];
  std::vector<std::vector<Op>> P = {
    {set(a, "1"), sref::check({b}), set(b, "22"), get(a), get(b), num(), del(a), sref::check({a}), sref::check({b}), get(b), num(), del(a), del(b), num()},
    {add(a, 1), add(b, 5), add(a, 2), add(b, 6), num(), set(b, ""), get(a), sref::check({a, b}), del(b), add(b, 1), num(), sref::wait({a, b})},
    {get(a), num(), sref::wait({b}), num(), sref::check({a, b}), num(), del(a), num(), set(b, "x"), add(b, 1), get(b), sref::check({a}), num()}};
  c.desc("keys #%d and #%d: %s...", i, j, P[how][0].text().c_str());
  c.nontrivial();
  Config k; k.deviations = 0;
  World w(c, k, 1, milliseconds(30));
  w.actor(0, P[how]);
  w.explore();
  w.finish({a, b});
}

// values set and read as strings or as bytes
static void text(mc::Ctx& c) {
  static const std::vector<std::string> V = {"", "7", std::string("a\0b", 3), "\xff\x80\x01", std::string(300, 'q'), std::string(2, '\0'), "-12", "\n", " x "};
  int how = c.pick(4), v = c.pick((int)V.size()), u = c.pick((int)V.size());
  c.desc("%s, %s: values #%d then #%d", how & 1 ? "set as strings" : "set as bytes", how & 2 ? "read as strings" : "read as bytes", v, u);
  c.nontrivial();
  Config k; k.deviations = 0;
  World w(c, k, 2, milliseconds(30));
  w.h.text_ = how;
  bool num = V[u] == "7" || V[u] == "-12" || V[u].empty();
  w.actor(0, {set("a", V[v]), get("a"), set("b", V[u]), get("b"), get("none"), set("a", V[u]), get("a"), num ? add("a", 3) : get("b"), get("a")});
  w.explore();
  w.finish({"a", "b"});
}

struct Reg {
  Reg() {
    mc::add("text", "values set and read as strings or bytes: every pair of nine values", text, 2);
    mc::add("sequences", "one user, every sequence of 3-4 calls in 4 initial states", sequences, 2);
    mc::add("keys", "every pair of unusual keys in three programs", keys, 2);
    mc::add("long-values", "values of several pieces replaced beside another call, every schedule", longValues, 2);
    mc::add("waiters", "blocked get and wait calls with programs that satisfy them, or not, or briefly; every schedule", waiters, 3);
    mc::add("glimpses", "a question about two keys beside two or three changes, every schedule", glimpses, 3);
    mc::add("two-crashes", "two processes that may both die at any file-system call or within a write", twoCrashes, 2);
    mc::add("crashes", "a process dies at any file-system call or within a write, beside another call, followed by survivors and a new process", crashes, 3);
    mc::add("pairs", "two processes or threads with one call each, every schedule", pairs, 3);
    mc::add("doubles", "two processes or threads with two calls each, every schedule", doubles, 4);
    mc::add("triples", "three processes or threads with one call each, every schedule", triples, 3);
  }
} reg;
