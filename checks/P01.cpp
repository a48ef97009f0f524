// P01: the TCP store as one atomic map, under every schedule of its clients, its server threads and the network.
#include <cstring>
#include <thread>
#include "Distributed/TCPStore.h"
#include "../mc/sim.h"
#include "../mc/sim_io.h"
#include "../mc/storeref.h"
using namespace tinytorch::distributed;
using namespace sim;
using namespace sref;
using std::chrono::milliseconds;

static const int kPort = 29511;
static constexpr uint64_t kSec = 1000000000ull;

struct World {
  mc::Ctx& c;
  Sim s;
  std::vector<TCPStore*> st;
  Hist h;
  Map init;
  World(mc::Ctx& c, Config k, int actors, milliseconds timeout, bool ownClients = true) : c(c), s(c, k), st(actors, nullptr) {
    s.exploring = false;
    h.timeout = timeout.count() ? (uint64_t)timeout.count() * 1000000ull : 0;
    // actor 0 lives with the server; the others are processes of their own
    for (int i = 0; i < actors; i++)
      s.spawn("setup" + std::to_string(i), i, [this, i, timeout] {
        TCPStore* t = new TCPStore("127.0.0.1", kPort, i == 0, false, -1, timeout);
        Internal in;
        st[i] = t;
      });
    phase("setup");
  }
  void phase(const char* what) {
    if (!s.runUsers()) c.fail(std::string(what) + "-hangs", "%s never ends: %s\n%s\nschedule:%s\nlog: %s", what, s.stuck().c_str(), h.text().c_str(), s.trace.c_str(), s.log.c_str());
  }
  void prepare(const std::vector<Op>& ops) {
    if (ops.empty()) return;
    Hist keep = h;
    s.spawn("prepare", 0, [this, ops] { for (auto& o : ops) h.run(0, st[0], o); });
    phase("prepare");
    for (auto& e : h.ev) { Map m = init; Hist::apply(e, m, true); init = m; }
    h.ev.clear();
  }
  void actor(int i, const std::vector<Op>& ops, uint64_t after = 0, uint64_t gap = 0) {
    s.spawn("actor" + std::to_string(i), i, [this, i, ops, after, gap] {
      if (after) std::this_thread::sleep_for(std::chrono::nanoseconds(after));
      for (size_t n = 0; n < ops.size(); n++) {
        if (n && gap) std::this_thread::sleep_for(std::chrono::nanoseconds(gap));
        h.run(i, st[i], ops[n]);
      }
    });
  }
  void explore() {
    s.exploring = true;
    phase("calls");
    s.exploring = false;
  }
  void finish(const std::vector<std::string>& keys) {
    // what is left in the map, seen by everybody
    s.spawn("inspect", 0, [this, keys] {
      h.run(0, st[0], num());
      for (auto& k : keys) {
        h.run(0, st[0], sref::check({k}));
        if (h.ev.back().ri) h.run(0, st[0], get(k));
      }
    });
    phase("inspection");
    if (!h.linearizable(init)) c.fail("not-a-map", "no sequential order explains the calls:%s\nschedule:%s\nlog: %s", h.text().c_str(), s.trace.c_str(), s.log.c_str());
    for (auto& e : h.ev) {
      bool blocking = e.op.k == GET || e.op.k == WAIT;
      if (!blocking && e.n1 - e.n0 > kSec) c.fail("slow-call", "%s took %llu ms although everybody was alive\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - e.n0) / 1000000), s.trace.c_str());
      // a blocked call returns promptly: at most one second after the last call of another actor that returned before it
      if (blocking && !e.timedOut) {
        uint64_t last = e.n0;
        for (auto& o : h.ev) if (o.actor != e.actor && o.t1 > 0 && o.t1 < e.t1 + 1000) last = std::max(last, std::min(o.n1, e.n1));
        if (e.n1 > last + kSec) c.fail("late-wakeup", "%s returned %llu ms after the last change:%s\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - last) / 1000000), h.text().c_str(), s.trace.c_str());
      }
      if (e.timedOut && e.n1 - e.n0 > h.timeout + 3 * kSec) c.fail("late-timeout", "%s took %llu ms\nschedule:%s", e.text().c_str(), (unsigned long long)((e.n1 - e.n0) / 1000000), s.trace.c_str());
    }
    uint64_t hash = 1469598103934665603ull;
    for (auto& e : h.ev) { hash = mc::mix(hash, e.ri * 7 + e.timedOut); for (char ch : e.rs) hash = mc::mix(hash, (unsigned char)ch); }
    c.outcome(hash);
    teardown();
  }
  void teardown() {
    for (int i = (int)st.size() - 1; i >= 0; i--) {
      s.spawn("close" + std::to_string(i), i, [this, i] { delete st[i]; });
      phase("destruction");
    }
    if (!s.run()) c.fail("threads-left", "threads never end after the store was destroyed: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  }
};

static const char* kStates[] = {"empty", "a=7", "a=x,b=", "b=5"};
static std::vector<Op> initial(int k) {
  switch (k) {
    case 1: return {set("a", "7")};
    case 2: return {set("a", "x"), set("b", "")};
    case 3: return {set("b", "5")};
  }
  return {};
}
static const std::vector<Op>& alphabet() {
  static const std::vector<Op> a = {set("a", "1"), get("a"), add("a", 1), sref::wait({"a"}), sref::wait({"a", "b"}), del("a"), sref::check({"a", "b"}), num(), set("b", "3"), add("a", 10), sref::check({"a"}),
                                    set("a", "22"), add("b", -2), sref::wait({"b", "a"}), get("b")};
  return a;
}
static void describe(mc::Ctx& c, int st, const std::vector<std::vector<Op>>& p) {
  c.desc("initially %s;", kStates[st]);
  for (size_t i = 0; i < p.size(); i++) { c.desc(" actor%zu:", i); for (auto& o : p[i]) c.desc(" %s", o.text().c_str()); }
}
static void runProgram(mc::Ctx& c, int st, const std::vector<std::vector<Op>>& prog, int dev, milliseconds timeout = milliseconds(20000)) {
  describe(c, st, prog);
  if (prog.size() > 1) c.nontrivial();
  Config k; k.deviations = dev; k.interrupts = false;
  World w(c, k, std::max<int>(2, (int)prog.size()), timeout);
  w.prepare(initial(st));
  for (size_t i = 0; i < prog.size(); i++) w.actor((int)i, prog[i]);
  w.explore();
  w.finish({"a", "b"});
}

// two actors, one call each
static void pairs(mc::Ctx& c) {
  int st = c.pick(4);
  auto& A = alphabet();
  int x = c.pick((int)A.size()), y = c.pick((int)A.size());
  bool all = c.thorough();
  if (!all && (y < x || (st < 2 && std::max(x, y) > 10))) c.skip();
  runProgram(c, st, {{A[x]}, {A[y]}}, (st < 2 ? 2 : 1) + all);
}
// three actors, one call each
static void triples(mc::Ctx& c) {
  int st = c.pick(2);
  static const std::vector<Op> A = {set("a", "1"), set("b", "3"), get("a"), add("a", 1), sref::wait({"a", "b"}), del("a"), sref::check({"a", "b"})};
  int x = c.pick((int)A.size()), y = c.pick((int)A.size()), z = c.pick((int)A.size());
  runProgram(c, st, {{A[x]}, {A[y]}, {A[z]}}, c.thorough() ? 2 : 1);
}
// two calls each
static void histories(mc::Ctx& c) {
  static const std::vector<Op> A = {set("a", "1"), set("b", "3"), get("a"), add("a", 1), sref::wait({"a", "b"}), del("a"), sref::check({"a", "b"})};
  int n = c.thorough() ? (int)A.size() : 6;
  int x = c.pick(n), y = c.pick(n), z = c.pick(n), w = c.pick(n);
  runProgram(c, 0, {{A[x], A[y]}, {A[z], A[w]}}, c.thorough() ? 2 : 1);
}
// several waiters woken by one or two setters, with and without a limit
static void waiters(mc::Ctx& c) {
  int limit = c.flip();
  static const std::vector<Op> W = {get("a"), sref::wait({"a"}), sref::wait({"a", "b"}), sref::wait({"b", "a"}), get("b")};
  static const std::vector<std::vector<Op>> P = {
    {set("a", "1"), set("b", "2")}, {set("b", "2"), set("a", "1")}, {add("a", 1), add("b", 1)}, {set("a", "1"), del("a"), set("b", "1"), set("a", "2")}, {set("b", "1"), del("b"), set("a", "2"), add("b", 4)}};
  int x = c.pick((int)W.size()), y = c.pick((int)W.size()), p = c.pick((int)P.size());
  describe(c, 0, {P[p], {W[x]}, {W[y]}});
  c.desc(limit ? " limit 20 s" : " no limit");
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 2 : 1; k.interrupts = false;
  World w(c, k, 3, limit ? milliseconds(20000) : Store::kNoTimeout);
  int late = c.pick(3);   // the waiters are already waiting when the keys are set, and woken between the calls
  w.actor(1, {W[x]});
  w.actor(2, {W[y]});
  w.actor(0, P[p], late ? 5 * kSec : 0, late == 2 ? kSec : 0);
  w.explore();
  w.finish({"a", "b"});
}
// one question about two keys beside changes that never, or always, leave both there
static void glimpses(mc::Ctx& c) {
  static const std::vector<Op> Q = {sref::check({"a", "b"}), sref::check({"b", "a"}), sref::wait({"a", "b"}), sref::wait({"b", "a"}), num()};
  static const std::vector<std::vector<Op>> P = {{del("a"), set("b", "3")}, {set("b", "3"), del("a")}, {del("a"), add("b", 1), set("a", "2")}, {set("b", "3"), del("a"), del("b")}, {del("b"), set("a", "1")}, {add("a", 1), del("b")}};
  int st = c.pick({1, 2, 3}), q = c.pick((int)Q.size()), p = c.pick((int)P.size()), who = c.flip();
  bool heart = q < 3 && (st == 1 ? p < 2 : st == 3 && p == 4);   // the two keys never are there together, or are only
  if (!c.thorough() && st == 2 && p > 3) c.skip();
  describe(c, st, {{Q[q]}, P[p]});
  c.nontrivial();
  Config k; k.deviations = (c.thorough() ? 2 : 1) + heart; k.interrupts = false;
  World w(c, k, 2, milliseconds(3000));
  w.prepare(initial(st));
  w.actor(who, {Q[q]}); w.actor(1 - who, P[p]);
  w.explore();
  w.finish({"a", "b"});
}
// message sizes and contents across short transfers and interrupted calls at every network call
static void transfers(mc::Ctx& c) {
  static const std::vector<size_t> sizes = {0, 1, 4095, 4096, 65535, 65536, 70000, 200000};
  size_t vs = sizes[c.pick(c.thorough() ? (int)sizes.size() : 7)];
  size_t ks = c.pick({1, 0, 300});
  int kind = c.pick(3);
  std::string key(ks, 'k'), val(vs, '\0');
  for (size_t i = 0; i < vs; i++) val[i] = (char)(i * 31 + i / 251);
  if (ks > 2) { key[1] = '\0'; key[2] = '/'; }
  std::vector<Op> p0 = {set(key, val), get(key)}, p1;
  if (kind == 0) p1 = {get(key), sref::check({key, "zz"})};
  if (kind == 1) p1 = {set("n", "41"), add("n", 1), sref::wait({key, "n"}), del(key)};
  if (kind == 2) p1 = {set(key, val + "tail"), num(), get(key)};
  if (kind == 1) p0 = {set(key, val), add("n2", 5)};
  c.desc("key of %zu, value of %zu bytes, kind %d", ks, vs, kind);
  c.nontrivial();
  Config k; k.deviations = 0; k.faults = c.thorough() ? 2 : 1; k.shorts = true; k.interrupts = true; k.resets = false;
  World w(c, k, 2, milliseconds(20000));
  w.actor(0, p0);
  w.actor(1, p1);
  w.explore();
  w.finish({key, "n", "n2"});
}
// short transfers combined with another schedule
static void transfersSched(mc::Ctx& c) {
  static const std::vector<Op> A = {set("a", "123456"), get("a"), add("a", 1), sref::wait({"a", "b"}), sref::check({"a", "b"}), del("a")};
  int x = c.pick((int)A.size()), y = c.pick((int)A.size());
  c.desc("a=7 initially, actor0 %s, actor1 %s", A[x].text().c_str(), A[y].text().c_str());
  c.nontrivial();
  Config k; k.deviations = 1; k.faults = 1; k.shorts = true; k.interrupts = true; k.resets = false;
  World w(c, k, 2, milliseconds(20000));
  w.prepare({set("a", "7"), set("b", "1")});
  w.actor(0, {A[x]});
  w.actor(1, {A[y]});
  w.explore();
  w.finish({"a", "b"});
}
// every sequence of calls by one client against the sequential map
static void sequences(mc::Ctx& c) {
  static const std::vector<Op> A = {set("a", "1"), set("a", ""), set("b", "x"), get("a"), add("a", 3), add("b", -1), del("a"), del("b"), sref::check({"a", "b"}), num(), sref::wait({"a"}), sref::check({})};
  int n = c.thorough() ? 4 : 3;
  std::vector<Op> p;
  for (int i = 0; i < n; i++) p.push_back(A[c.pick((int)A.size())]);
  int who = c.pick(2);
  describe(c, 0, {p});
  c.desc(" by actor %d", who);
  c.nontrivial();
  Config k; k.deviations = 0; k.interrupts = false;
  World w(c, k, 2, milliseconds(1500));
  w.actor(who, p);
  w.explore();
  w.finish({"a", "b"});
}

// values set and read as strings or as bytes
static void text(mc::Ctx& c) {
  static const std::vector<std::string> V = {"", "7", std::string("a\0b", 3), "\xff\x80\x01", std::string(300, 'q'), std::string(2, '\0'), "-12", "\n", " x "};
  int how = c.pick(4), v = c.pick((int)V.size()), u = c.pick((int)V.size());
  c.desc("%s, %s: values #%d then #%d", how & 1 ? "set as strings" : "set as bytes", how & 2 ? "read as strings" : "read as bytes", v, u);
  c.nontrivial();
  Config k; k.deviations = 0;
  World w(c, k, 2, milliseconds(30));
  w.h.text_ = how;
  bool num = V[u] == "7" || V[u] == "-12" || V[u].empty();
  w.actor(0, {set("a", V[v]), get("a"), set("b", V[u]), get("b"), get("none"), set("a", V[u]), get("a"), num ? add("a", 3) : get("b"), get("a")});
  w.explore();
  w.finish({"a", "b"});
}

struct Reg {
  Reg() {
    mc::add("text", "values set and read as strings or bytes: every pair of nine values", text, 2);
    mc::add("sequences", "every sequence of calls by one client against the sequential map", sequences, 3);
    mc::add("waiters", "two blocked calls, keys set (and deleted) by a third client in any order, with and without a limit", waiters, 4);
    mc::add("glimpses", "a question about two keys beside two or three changes, every schedule", glimpses, 3);
    mc::add("transfers", "keys and values of many sizes with a short transfer or interrupted call at every network call", transfers, 3);
    mc::add("pairs", "two clients, one call each, four initial states, every schedule", pairs, 3);
    mc::add("transfers-schedules", "two calls with a short or interrupted transfer anywhere and one schedule deviation", transfersSched, 2);
    mc::add("triples", "three clients, one call each", triples, 4);
    mc::add("histories", "two clients, two calls each", histories, 4);
  }
} reg;
