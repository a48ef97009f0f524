// P06: work handles under every schedule; process-group initialisation strings over a grammar.
#include <optional>
#include <unordered_map>
#include <mutex>
#include <thread>
#include <memory>
#include <cstdlib>
#include "Distributed/Backend.h"
#include "Distributed/DistributedProcessGroup.h"
#include "Distributed/BackendNCCL.h"
#include "Distributed/FileStore.h"
#include "Distributed/TCPStore.h"
#include <cstring>
#include "../mc/sim.h"
#include "../mc/sim_io.h"
using namespace tinytorch;
using namespace tinytorch::distributed;
using namespace sim;
using std::chrono::milliseconds;

struct TestWork : Work {
  TestWork() : Work(3, OpType::ALL_REDUCE) {}
  void done(std::string e) { finish(std::move(e)); }
};

struct Obs { bool done = false, r = false; uint64_t t0 = 0, t1 = 0; bool completed = false, success = false; std::string exc; };

// finishers and waiters and pollers on one handle
static void handles(mc::Ctx& c) {
  int nf = c.pick({1, 2}), nw = c.pick({1, 2, 3}), npoll = c.pick({0, 1});
  int failing = c.pick(nf == 1 ? 2 : 4);      // which finishers report an exception
  std::vector<int> to;
  for (int i = 0; i < nw; i++) to.push_back(c.pick({0, 1000}));   // 0: without limit
  int order = c.pick(3);       // 0 finishers first, 1 waiters first, 2 finishers late (after 500 ms), so nothing times out
  c.desc("%d finishers (failing mask %d), waiters with limits", nf, failing);
  for (int t : to) c.desc(" %d", t);
  c.desc(", %d pollers, order %d", npoll, order);
  c.nontrivial();
  Config k; k.deviations = nf + nw + npoll <= 3 ? (c.thorough() ? 4 : 3) : nf + nw + npoll <= 4 || c.thorough() ? 2 : 1; k.faults = 1; k.spurious = true; k.interrupts = false;
  Sim s(c, k);
  auto w = std::make_shared<TestWork>();
  std::vector<Obs> wo(nw), po(npoll * 4);
  std::vector<uint64_t> fin(nf, 0);
  auto addF = [&] {
    for (int i = 0; i < nf; i++)
      s.spawn("finisher" + std::to_string(i), 0, [&, i] {
        if (order == 2) std::this_thread::sleep_for(milliseconds(500));
        w->done((failing >> i & 1) ? "error " + std::to_string(i) : "");
        fin[i] = S->now;
        // whoever has finished it sees it finished
        if (!w->isCompleted()) fatal("not completed after it was finished");
      });
  };
  auto addW = [&] {
    for (int i = 0; i < nw; i++)
      s.spawn("waiter" + std::to_string(i), 0, [&, i] {
        wo[i].t0 = S->now;
        wo[i].r = to[i] ? w->wait(milliseconds(to[i])) : w->wait();
        wo[i].t1 = S->now;
        wo[i].completed = w->isCompleted();
        wo[i].success = w->isSuccess();
        wo[i].exc = w->exception();
        wo[i].done = true;
      });
  };
  if (order == 0) { addF(); addW(); } else { addW(); addF(); }
  for (int i = 0; i < npoll; i++)
    s.spawn("poller", 0, [&, i] {
      for (int j = 0; j < 3; j++) {
        Obs& o = po[i * 4 + j];
        o.completed = w->isCompleted();
        o.success = w->isSuccess();
        o.exc = w->exception();
        o.done = true;
      }
    });
  if (!s.run()) c.fail("waiter-lost", "a waiter never returns: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  // results: one finisher won; every view agrees with it
  auto excOf = [&](int i) { return (failing >> i & 1) ? "error " + std::to_string(i) : std::string(); };
  std::string final = w->exception();
  bool okFinal = false;
  for (int i = 0; i < nf; i++) okFinal = okFinal || final == excOf(i);
  if (!w->isCompleted() || !okFinal) c.fail("final-state", "finished handle: completed=%d exception='%s'", w->isCompleted(), final.c_str());
  if (w->isSuccess() != final.empty()) c.fail("final-success", "isSuccess() disagrees with exception() '%s'", final.c_str());
  for (int i = 0; i < nw; i++) {
    if (!wo[i].completed) c.fail("wait-returned-early", "wait() returned before the work was finished\nschedule:%s", s.trace.c_str());
    if (wo[i].r != final.empty()) c.fail("wait-result", "wait() returned %d but the outcome is '%s'\nschedule:%s", wo[i].r, final.c_str(), s.trace.c_str());
    if (wo[i].exc != final || wo[i].success != final.empty()) c.fail("outcome-changed", "after finishing, a query saw '%s' but later it was '%s'\nschedule:%s", wo[i].exc.c_str(), final.c_str(), s.trace.c_str());
  }
  bool was = false;
  for (auto& o : po) {
    if (!o.done) continue;
    if (was && !o.completed) c.fail("uncompleted", "isCompleted() went back to false");
    if (o.completed && o.success != final.empty()) c.fail("query-success", "completed, isSuccess()=%d, outcome '%s'", o.success, final.c_str());
    if (was && o.exc != final) c.fail("query-exception", "completed, exception()='%s', outcome '%s'", o.exc.c_str(), final.c_str());
    was = o.completed;
  }
  for (auto& o : po) if (o.done && !o.completed && !o.exc.empty() && final.empty()) c.fail("query-exception", "an exception was seen on work that succeeded");
  if (final.empty() != (failing == 0) && nf == 1) c.fail("outcome", "outcome '%s'", final.c_str());
  c.outcome(mc::mix(final.size(), s.steps));
}

// waits with a limit that expires before, at, or after the finish
static void timeouts(mc::Ctx& c) {
  int nw = c.pick({1, 2});
  std::vector<int> to;
  for (int i = 0; i < nw; i++) to.push_back(c.pick({1, 500, 1000, 60000}));
  int finishAt = c.pick({-1, 0, 400, 1500});   // ms; -1: never
  bool failing = c.flip();
  c.desc("finish at %d ms (%s), limits", finishAt, failing ? "failing" : "ok");
  for (int t : to) c.desc(" %d", t);
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 3 : 2; k.timeJumps = true; k.faults = 1; k.spurious = true; k.interrupts = false;
  Sim s(c, k);
  auto w = std::make_shared<TestWork>();
  std::vector<Obs> wo(nw);
  uint64_t begin = s.now;
  for (int i = 0; i < nw; i++)
    s.spawn("waiter" + std::to_string(i), 0, [&, i] {
      wo[i].t0 = S->now;
      wo[i].r = w->wait(milliseconds(to[i]));
      wo[i].t1 = S->now;
      wo[i].completed = w->isCompleted();
      wo[i].done = true;
      if (w->wait(milliseconds(1)) && failing) fatal("second wait reports success of failed work");
    });
  bool finished = false;
  if (finishAt >= 0)
    s.spawn("finisher", 0, [&] {
      std::this_thread::sleep_for(milliseconds(finishAt));
      w->done(failing ? "bad" : "");
      finished = true;
    });
  if (!s.run()) c.fail("waiter-lost", "a waiter never returns: %s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  for (int i = 0; i < nw; i++) {
    uint64_t ms = (wo[i].t1 - wo[i].t0) / 1000000;
    bool success = wo[i].r;
    if (success && (failing || finishAt < 0)) c.fail("wait-true", "wait returned true but the work %s\nschedule:%s", finishAt < 0 ? "never finished" : "failed", s.trace.c_str());
    if (success && !wo[i].completed) c.fail("wait-true-early", "wait returned true before the work was finished\nschedule:%s", s.trace.c_str());
    if (!success && !failing && ms < (uint64_t)to[i]) c.fail("wait-false-early", "wait gave up after %llu ms of %d\nschedule:%s", (unsigned long long)ms, to[i], s.trace.c_str());
    if (!s.jumps && ms > (uint64_t)to[i] + 1) c.fail("wait-late", "wait with a limit of %d ms took %llu ms\nschedule:%s", to[i], (unsigned long long)ms, s.trace.c_str());
    if (!s.jumps && finishAt >= 0 && finishAt < to[i] - 1 && !failing && !success) c.fail("wait-missed", "finished at %d ms, wait of %d ms returned false\nschedule:%s", finishAt, to[i], s.trace.c_str());
    if (!s.jumps && finishAt >= 0 && finishAt < to[i] && ms > (uint64_t)finishAt + 1) c.fail("wait-late", "finished at %d ms, waiter returned at %llu\nschedule:%s", finishAt, (unsigned long long)ms, s.trace.c_str());
  }
  (void)begin;
}

// a handle nobody has finished
static void fresh(mc::Ctx& c) {
  int ops = c.pick({1, 2, 3});
  c.desc("pending handle, queries"); c.nontrivial();
  TestWork w;
  for (int i = 0; i < ops; i++) {
    int q = c.pick(4);
    c.desc(" %d", q);
    if (q == 0 && w.isCompleted()) c.fail("fresh-completed", "pending work says it is completed");
    if (q == 2 && !w.exception().empty()) c.fail("fresh-exception", "pending work has an exception");
    if (q == 3 && (w.getRank() != 3 || w.getOpType() != OpType::ALL_REDUCE)) c.fail("fresh-attributes", "rank or kind differ from the constructor's");
  }
}

// sequences of finish/wait/queries on one thread
static void sequences(mc::Ctx& c) {
  int n = c.thorough() ? 6 : 5;
  TestWork w;
  bool done = false; std::string exc;
  Config k; k.deviations = 0;
  std::vector<int> ops;
  for (int i = 0; i < n; i++) ops.push_back(c.pick(6));
  c.desc("ops"); for (int o : ops) c.desc(" %d", o);
  c.nontrivial();
  Sim s(c, k);
  std::string bad;
  s.spawn("main", 0, [&] {
    for (int o : ops) {
      switch (o) {
        case 0: w.done(""); if (!done) { done = true; exc = ""; } break;
        case 1: w.done("E1"); if (!done) { done = true; exc = "E1"; } break;
        case 2: w.done("E2"); if (!done) { done = true; exc = "E2"; } break;
        case 3: if (w.wait(milliseconds(5)) != (done && exc.empty())) bad = "wait result"; break;
        case 4: if (w.isCompleted() != done) bad = "isCompleted"; if (done && w.isSuccess() != exc.empty()) bad = "isSuccess"; break;
        case 5: if (w.exception() != exc) bad = "exception"; break;
      }
      if (!bad.empty()) return;
    }
  });
  if (!s.run()) c.fail("sequence-hangs", "%s", s.stuck().c_str());
  if (!bad.empty()) c.fail("sequence", "%s differs from the first completion", bad.c_str());
}

// --- process groups ---------------------------------------------------------------------------------
struct Env { const char* addr; const char* port; const char* size; const char* rank; };
static void setEnv(const Env& e) {
  auto put = [](const char* n, const char* v) { if (v) setenv(n, v, 1); else unsetenv(n); };
  put("MASTER_ADDR", e.addr); put("MASTER_PORT", e.port); put("WORLD_SIZE", e.size); put("RANK", e.rank);
}
struct Want { bool ok = false; int method = 0, port = 29500, rank = -1, size = -1; std::string host, path; };
static bool number(const std::string& t, long lo, long hi, int& v) {
  if (t.empty() || t.size() > 10) return false;
  long x = 0;
  for (char ch : t) { if (ch < '0' || ch > '9') return false; x = x * 10 + (ch - '0'); }
  if (x < lo || x > hi) return false;
  v = (int)x;
  return true;
}
static Want expect(const std::string& init, const Env& e, int rank, int size, BackendType b) {
  Want w; w.rank = rank; w.size = size;
  if (init == "env://") {
    if (!e.addr) return w;
    w.method = 1; w.host = e.addr;
    if (e.port && !number(e.port, 1, 65535, w.port)) return w;
    if (size == -1 && e.size && !number(e.size, 1, INT32_MAX, w.size)) return w;
    if (rank == -1 && e.rank && !number(e.rank, 0, INT32_MAX, w.rank)) return w;
  } else if (init.rfind("tcp://", 0) == 0) {
    w.method = 1;
    std::string h = init.substr(6);
    size_t p = h.find(':');
    if (p != std::string::npos) { if (!number(h.substr(p + 1), 1, 65535, w.port)) return w; h = h.substr(0, p); }
    if (h.empty()) return w;
    w.host = h;
  } else if (init.rfind("file://", 0) == 0) {
    w.method = 2; w.path = init.substr(7);
    if (w.path.empty()) return w;
  } else return w;
  w.ok = w.size > 0 && w.rank >= 0 && w.rank < w.size && b == NCCL;
  return w;
}

// every string of a grammar, with every environment and argument: accepted and configured as written, or rejected
static void initStrings(mc::Ctx& c) {
  std::string dir = mc::scratchDir() + "/pg";
  static const std::vector<const char*> schemes = {"env://", "env://x", "env:", "ENV://", "tcp://", "tcp:/127.0.0.1:29501", "udp://127.0.0.1:29501", "", "file://", "file:", "file://@"};
  static const std::vector<const char*> hosts = {"127.0.0.1", "localhost", ""};
  static const std::vector<const char*> ports = {"", ":1", ":29501", ":65535", ":0", ":65536", ":", ":12x", ":-1", ":99999999999", ":29501:1", ":29501/"};
  int si = c.pick((int)schemes.size());
  std::string init = schemes[si];
  Env env{nullptr, nullptr, nullptr, nullptr};
  int rank, size;
  BackendType b = NCCL;
  if (init == "tcp://") {
    init += hosts[c.pick((int)hosts.size())];
    init += ports[c.pick((int)ports.size())];
    static const int rs[][2] = {{0, 1}, {-1, 1}, {1, 1}, {0, 0}, {0, -1}, {0, -5}, {1, 2}, {2, 2}, {-2, 2}, {-1, -1}, {5, 8}};
    int r = c.pick((int)(sizeof rs / sizeof *rs));
    rank = rs[r][0]; size = rs[r][1];
    if (rank == 0 && size == 1 && c.flip()) b = UNDEFINED;
  } else if (init == "env://") {
    static const std::vector<const char*> addrs = {nullptr, "127.0.0.1", "localhost"};
    static const std::vector<const char*> eports = {nullptr, "29501", "1", "65535", "0", "65536", "-1", "", "29501x", "x29501", "999999999999"};
    static const std::vector<const char*> sizes = {nullptr, "1", "2", "0", "-1", "", "2x", "two", "4294967297"};
    static const std::vector<const char*> ranks = {nullptr, "0", "1", "2", "-1", "", "1x", "one", "4294967296"};
    env.addr = addrs[c.pick((int)addrs.size())];
    env.port = eports[c.pick((int)eports.size())];
    bool odd = env.port && strcmp(env.port, "29501");
    env.size = odd ? "2" : sizes[c.pick((int)sizes.size())];
    env.rank = odd ? "1" : ranks[c.pick((int)ranks.size())];
    static const int rs[][2] = {{-1, -1}, {0, 1}, {-1, 2}, {1, -1}, {1, 2}, {3, 2}};
    int r = odd ? 0 : c.pick((int)(sizeof rs / sizeof *rs));
    rank = rs[r][0]; size = rs[r][1];
  } else {
    if (init == "file://@") init = "file://" + dir;
    static const int rs[][2] = {{0, 1}, {1, 2}, {-1, 2}, {2, 2}, {0, 0}};
    int r = c.pick((int)(sizeof rs / sizeof *rs));
    rank = rs[r][0]; size = rs[r][1];
    if (rank == 0 && size == 1 && c.flip()) b = UNDEFINED;
  }
  int timeout = c.pick({4000, 9000});
  if (timeout == 9000 && si == 0) c.skip();
  auto sh = [](const char* v) { return v ? v : "(unset)"; };
  c.desc("init '%s' rank %d size %d backend %d timeout %d, MASTER_ADDR %s MASTER_PORT %s WORLD_SIZE %s RANK %s", init.c_str(), rank, size, (int)b, timeout, sh(env.addr), sh(env.port), sh(env.size), sh(env.rank));
  Want w = expect(init, env, rank, size, b);
  if (w.ok) c.nontrivial();
  setEnv(env);
  Config k; k.deviations = 0; k.faults = 0;
  Sim s(c, k);
  fileRoot(mc::scratchDir());
  auto* g = new DistributedProcessGroup;
  std::string bad;
  TCPStore* server = nullptr;
  bool needServer = w.ok && w.method == 1 && w.rank > 0;
  auto quietly = [&](const char* what, int proc, std::function<void()> f) {
    s.spawn(what, proc, f);
    if (!s.runUsers()) c.fail("init-hangs", "%s: %s", what, s.stuck().c_str());
  };
  if (needServer) quietly("server", 1, [&] { server = new TCPStore("127.0.0.1", (uint16_t)w.port, true, false, -1, milliseconds(4000)); });
  bool r = false;
  uint64_t t0 = s.now;
  quietly("init", 0, [&] { r = g->initProcessGroup(b, init, rank, size, milliseconds(timeout), false); });
  if (s.now - t0 > (timeout + 3000) * 1000000ull) c.fail("init-late", "initialisation took %llu ms", (unsigned long long)((s.now - t0) / 1000000));
  if (r != w.ok) c.fail(r ? "init-accepted" : "init-rejected", "initialisation %s, expected %s", r ? "succeeded" : "failed", w.ok ? "success" : "rejection");
  if (g->isInitialized() != w.ok) c.fail("init-state", "isInitialized() is %d after initialisation returned %d", g->isInitialized(), r);
  if (r) {
    auto pg = g->getProcessGroup();
    if (g->getRank() != w.rank || g->getWorldSize() != w.size || pg->getRank() != w.rank || pg->getSize() != w.size)
      c.fail("init-rank", "rank %d of %d reported, expected %d of %d", g->getRank(), g->getWorldSize(), w.rank, w.size);
    if (pg->getBackendType() != NCCL || pg->getBackendName() != "nccl") c.fail("init-backend", "backend %s", pg->getBackendName().c_str());
    auto be = pg->getBackend(DeviceType::CUDA);
    if (!be || be != pg->getDefaultBackend() || be != pg->getBackend(NCCL)) c.fail("init-backend-map", "device type CUDA does not map to the named backend");
    if (be->getRank() != w.rank || be->getSize() != w.size) c.fail("init-backend-rank", "backend has rank %d of %d", be->getRank(), be->getSize());
    if (be->getBackendOptions()->timeout != milliseconds(timeout)) c.fail("init-backend-timeout", "backend has a timeout of %lld ms, not %d", (long long)be->getBackendOptions()->timeout.count(), timeout);
    auto* mine = static_cast<BackendNCCL*>(be.get());
    if (mine->store_ != pg->getStore()) c.fail("init-store", "the backend uses a different store");
    { uint64_t f = s.now;
      quietly("missing", 0, [&] { if (!pg->getStore()->get("never").empty()) fatal("a missing key has a value"); });
      long ms = (s.now - f) / 1000000;
      if (ms < timeout || ms > timeout + 3000) c.fail("init-store-timeout", "the store waits %ld ms for a missing key, its limit is %d", ms, timeout); }
    bool again = true;
    std::vector<uint8_t> seen;
    quietly("use", 0, [&] { pg->getStore()->set("who", std::vector<uint8_t>{'m', 'e'}); again = g->initProcessGroup(NCCL, init, rank, size, milliseconds(timeout), false); });
    if (again || g->getProcessGroup() != pg) c.fail("init-twice", "a second initialisation changed the group");
    quietly("look", 1, [&] {
      if (w.method == 2) { FileStore f(w.path, milliseconds(4000)); seen = f.get("who"); }
      else if (server) seen = server->get("who");
      else { TCPStore t("127.0.0.1", (uint16_t)w.port, false, false, -1, milliseconds(4000)); seen = t.get("who"); }
    });
    if (seen != std::vector<uint8_t>{'m', 'e'}) c.fail("init-place", "the group's store is not at %s port %d / path %s", w.host.c_str(), w.port, w.path.c_str());
    be.reset();
    quietly("destroy", 0, [&] { pg.reset(); g->destroyProcessGroup(); });
    if (g->isInitialized()) c.fail("destroy-state", "still initialised after destroyProcessGroup()");
    // and it can be set up again, otherwise
    bool r2 = false;
    quietly("init", 0, [&] { r2 = g->initProcessGroup(NCCL, "tcp://127.0.0.1:29777", 0, 2, milliseconds(timeout), false); });
    if (!r2 || g->getWorldSize() != 2 || g->getRank() != 0) c.fail("init-after-destroy", "a destroyed group could not be set up again");
  }
  quietly("end", 0, [&] { delete g; });
  if (server) quietly("end", 1, [&] { delete server; });
  if (!s.run()) c.fail("threads-left", "%s", s.stuck().c_str());
  if (openSockets()) c.fail("sockets-left", "%s", openSocketList().c_str());
  setEnv({nullptr, nullptr, nullptr, nullptr});
  if (w.method == 2 && !w.path.empty()) { std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
  c.outcome(mc::mix(r * 4 + w.method, w.port + 70000 * (w.rank + 2)));
}

// several ranks come up together
static void groups(mc::Ctx& c) {
  int n = c.pick({1, 2, 3});
  bool waitWorkers = c.flip();
  int missing = c.pick(n);          // 0: all come; else rank `missing` never comes
  int late = n > 1 ? c.pick(n) : 0; // this rank comes 300 ms later
  int how = c.pick(2);              // tcp string or environment
  c.desc("%d ranks%s, %s, rank %d late, %s", n, missing ? " (one never comes)" : "", waitWorkers ? "waiting for workers" : "not waiting", late, how ? "env" : "tcp");
  if (n > 1) c.nontrivial();
  Config k; k.deviations = n == 2 || c.thorough() ? 2 : 1; k.faults = 0; k.timeJumps = false; k.interrupts = k.shorts = k.resets = false;
  if (how) { k.deviations = 0; setEnv({"127.0.0.1", "29600", n == 1 ? "1" : n == 2 ? "2" : "3", nullptr}); }
  Sim s(c, k);
  const int L = 5000;
  std::vector<DistributedProcessGroup*> g(n, nullptr);
  std::vector<int> r(n, -1);
  std::vector<uint64_t> at(n, 0);
  uint64_t t0 = s.now;
  s.exploring = true;
  for (int i = 0; i < n; i++) {
    if (missing && i == missing) continue;
    s.spawn("rank" + std::to_string(i), i, [&, i] {
      if (i == late && late) std::this_thread::sleep_for(milliseconds(300));
      auto* d = new DistributedProcessGroup;
      bool ok = d->initProcessGroup(NCCL, how ? "env://" : "tcp://127.0.0.1:29600", i, how ? -1 : n, milliseconds(L), waitWorkers);
      Internal in; g[i] = d; r[i] = ok; at[i] = S->now;
    });
  }
  if (!s.runUsers()) c.fail("init-hangs", "%s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  s.exploring = false;
  for (int i = 0; i < n; i++) if (r[i] >= 0) {
    uint64_t ms = (at[i] - t0) / 1000000;
    if (ms > L + 3300) c.fail("init-late", "rank %d: initialisation took %llu ms\nschedule:%s", i, (unsigned long long)ms, s.trace.c_str());
    bool must = !missing || i > 0 || !waitWorkers;
    if (must && r[i] != 1) c.fail("init-failed", "rank %d could not be set up\nschedule:%s", i, s.trace.c_str());
    if (g[i]->isInitialized() != (r[i] == 1)) c.fail("init-state", "rank %d", i);
    if (r[i] == 1 && (g[i]->getRank() != i || g[i]->getWorldSize() != n)) c.fail("init-rank", "rank %d reports rank %d of %d", i, g[i]->getRank(), g[i]->getWorldSize());
  }
  if (waitWorkers && missing && at[0] - t0 < L * 1000000ull) c.fail("did-not-wait", "rank 0 did not wait for a missing worker");
  if (waitWorkers && !missing && late > 0 && at[0] - t0 < 300 * 1000000ull) c.fail("did-not-wait", "rank 0 did not wait for a late worker");
  if (!waitWorkers && (at[0] - t0) / 1000000 > 2000) c.fail("waited", "rank 0 waited for workers it was not asked to wait for");
  if (!missing && (at[0] - t0) / 1000000 > 3000) c.fail("waited-long", "rank 0 waited although all ranks came\nschedule:%s", s.trace.c_str());
  // they share one store
  if (r[0] == 1) for (int i = 0; i < n; i++) if (r[i] == 1) s.spawn("use", i, [&, i] {
    auto st = g[i]->getProcessGroup()->getStore();
    std::string k = "rank" + std::to_string(i);
    st->set(k, std::vector<uint8_t>{(uint8_t)i});
    for (int j = 0; j < n; j++) if (r[j] == 1 && st->get("rank" + std::to_string(j)) != std::vector<uint8_t>{(uint8_t)j}) fatal("the ranks do not share a store");
  });
  if (!s.runUsers()) c.fail("use-hangs", "%s", s.stuck().c_str());
  for (int i = n - 1; i >= 0; i--) if (g[i]) { s.spawn("end", i, [&, i] { delete g[i]; }); if (!s.runUsers()) c.fail("end-hangs", "%s", s.stuck().c_str()); }
  if (!s.run()) c.fail("threads-left", "%s", s.stuck().c_str());
  if (openSockets()) c.fail("sockets-left", "%s", openSocketList().c_str());
  setEnv({nullptr, nullptr, nullptr, nullptr});
  c.outcome(mc::mix(n * 8 + missing * 2 + waitWorkers, s.steps));
}

// backends of a group: every history of registrations and uses
static void backends(mc::Ctx& c) {
  int n = c.thorough() ? 5 : 4;
  struct Got { std::string op; BackendNCCL* who; void* tensors; int root, red; };
  std::vector<Got> calls;
  std::string bad;
  BackendNCCL::handler = [&](BackendNCCL& b, BackendNCCL::Call k) -> std::shared_ptr<Work> {
    calls.push_back({k.op, &b, k.tensors, k.root, k.red});
    auto w = std::make_shared<TestWork>(); w->done(""); return w;
  };
  struct Clear { ~Clear() { BackendNCCL::handler = nullptr; } } clear;
  auto A = std::make_shared<BackendNCCL>(nullptr, 1, 4), B = std::make_shared<BackendNCCL>(nullptr, 1, 4);
  std::shared_ptr<BackendNCCL> both[2] = {A, B};
  ProcessGroup g(nullptr, 1, 4);
  BackendType types[2] = {NCCL, UNDEFINED};
  DeviceType devs[2] = {DeviceType::CPU, DeviceType::CUDA};
  // reference: what each type and device names
  std::shared_ptr<BackendNCCL> ofType[2];
  int devType[2] = {-1, -1};
  std::shared_ptr<BackendNCCL> ofDev[2];
  int defType = 1;   // UNDEFINED
  std::string name[2], desc;   // of A, B
  std::chrono::milliseconds lim[2] = {A->options_->timeout, B->options_->timeout};
  int shut[2] = {0, 0}, ab[2] = {0, 0};
  auto idx = [&](const std::shared_ptr<Backend>& b) { return b == A ? 0 : b == B ? 1 : -1; };
  c.desc("group history:");
  if (g.getRank() != 1 || g.getSize() != 4) c.fail("rank", "rank %d of %d, configured 1 of 4", g.getRank(), g.getSize());
  for (int st = 0; st < n; st++) {
    int op = c.pick(10);
    switch (op) {
      case 0: {   // register
        int d = c.pick(2), t = c.pick(2), b = c.pick(3);
        c.desc(" set(%s,%s,%s)", d ? "cuda" : "cpu", t ? "undefined" : "nccl", b == 2 ? "-" : b ? "B" : "A");
        bool remap = devType[d] >= 0 && devType[d] != t && !ofType[t] && b == 2;
        if (remap) c.skip();   // names a type without a backend for a device that has one
        g.setBackend(devs[d], types[t], b == 2 ? std::optional<std::shared_ptr<Backend>>() : std::optional<std::shared_ptr<Backend>>(both[b]));
        devType[d] = t;
        if (!ofType[t] && b < 2) ofType[t] = both[b];
        if (ofType[t]) ofDev[d] = ofType[t];
        c.nontrivial();
        break;
      }
      case 1: {   // look up every device
        c.desc(" lookup");
        for (int d = 0; d < 2; d++) {
          if (devType[d] < 0) continue;
          auto want = ofType[devType[d]];
          auto got = g.getBackend(devs[d]);
          if (got != want) c.fail("device-backend", "device type %s maps to backend %c, expected %c", d ? "cuda" : "cpu", "-AB"[idx(got) + 1], "-AB"[idx(want) + 1]);
          if (want) ofDev[d] = want;
        }
        for (int t = 0; t < 2; t++) if (ofType[t] && g.getBackend(types[t]) != ofType[t]) c.fail("type-backend", "backend type maps to a different backend");
        if (g.hasBackends() != (devType[0] >= 0 || devType[1] >= 0)) c.fail("has-backends", "hasBackends() is %d", g.hasBackends());
        size_t nd = (devType[0] >= 0) + (devType[1] >= 0);
        if (g.getDeviceTypes().size() != nd) c.fail("device-types", "%zu device types, expected %zu", g.getDeviceTypes().size(), nd);
        break;
      }
      case 2: { int t = c.pick(2); c.desc(" default %d", t); g.setDefaultBackend(types[t]); defType = t;
        if (g.getBackendType() != types[t]) c.fail("default-type", "default backend type is not the one set");
        break; }
      case 3: {
        if (!ofType[defType]) c.skip();
        c.desc(" default?");
        if (g.getDefaultBackend() != ofType[defType]) c.fail("default-backend", "default backend is not the one registered for its type");
        BarrierOptions o; calls.clear(); auto w = g.barrier(o);
        if (calls.size() != 1 || calls[0].op != "barrier" || calls[0].who != ofType[defType].get() || !w) c.fail("barrier", "barrier did not reach the default backend once");
        break; }
      case 4: {
        int ms = c.pick({1, 777});
        c.desc(" timeout %d", ms);
        g.setTimeout(milliseconds(ms));
        for (int i = 0; i < 2; i++) if (ofType[0] == both[i] || ofType[1] == both[i]) lim[i] = milliseconds(ms);
        break; }
      case 5: {
        c.desc(" shutdown");
        g.shutdown();
        for (int t = 0; t < 2; t++) if (ofType[t]) shut[idx(ofType[t])]++;
        break; }
      case 6: {
        c.desc(" abort");
        g.abort();
        for (int t = 0; t < 2; t++) if (ofType[t]) ab[idx(ofType[t])]++;
        break; }
      case 7: {
        int d = 0;
        if (!ofDev[d]) c.skip();
        int what = c.pick(7), root = c.pick({0, 2}), red = c.pick({(int)SUM, (int)MAX});
        if (root && what != 0 && what != 2 && what < 5) c.skip();
        if (red == MAX && what != 1 && what != 2 && what != 4) c.skip();
        c.desc(" call %d root %d op %d", what, root, red);
        std::vector<Tensor> t = {Tensor::ones({2})};
        std::vector<std::vector<Tensor>> l = {{Tensor::ones({2})}};
        static const char* names[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send", "recv"};
        calls.clear();
        std::shared_ptr<Work> w;
        switch (what) {
          case 0: { BroadcastOptions o; o.rootRank = root; w = g.broadcast(t, o); break; }
          case 1: { AllReduceOptions o; o.reduceOp = (ReduceOpType)red; w = g.allReduce(t, o); break; }
          case 2: { ReduceOptions o; o.reduceOp = (ReduceOpType)red; o.rootRank = root; w = g.reduce(t, o); break; }
          case 3: w = g.allGather(l, t, {}); break;
          case 4: { ReduceScatterOptions o; o.reduceOp = (ReduceOpType)red; w = g.reduceScatter(t, l, o); break; }
          case 5: w = g.send(t, root); break;
          case 6: w = g.recv(t, root); break;
        }
        if (calls.size() != 1 || calls[0].op != names[what] || calls[0].who != ofType[devType[d]].get() || calls[0].tensors != &t || !w || !w->isCompleted())
          c.fail("dispatch", "%s did not reach the device's backend once with the caller's tensors", names[what]);
        if (calls[0].root != -1 && calls[0].root != root) c.fail("dispatch-root", "%s: root %d, asked for %d", names[what], calls[0].root, root);
        if (calls[0].red != -1 && calls[0].red != red) c.fail("dispatch-op", "%s: operation %d, asked for %d", names[what], calls[0].red, red);
        break; }
      case 8: {
        int q = c.pick(2);
        c.desc(" name %d", q);
        std::string nm = q ? "group-x" : "g";
        bool any = false;
        for (int d = 0; d < 2; d++) if (ofDev[d]) { any = true; name[idx(ofDev[d])] = nm; }
        if (!any) c.skip();
        g.setGroupName(nm);
        if (g.getGroupName() != nm) c.fail("group-name", "group name is not the one set");
        g.setGroupDesc("d" + nm);
        if (g.getGroupDesc() != "d" + nm) c.fail("group-desc", "group description is not the one set");
        break; }
      case 9: {
        int d = c.pick(2);
        if (!ofDev[d]) c.skip();
        c.desc(" barrier on %d", d);
        BarrierOptions o; o.device = Device(devs[d]); o.deviceIds = {3, 1};
        calls.clear();
        auto w = g.barrier(o);
        if (calls.size() != 1 || calls[0].op != "barrier" || calls[0].who != ofType[devType[d]].get() || !w) c.fail("barrier", "barrier did not reach the device's backend once");
        break; }
    }
    for (int i = 0; i < 2; i++) {
      if (both[i]->options_->timeout != lim[i]) c.fail("timeout", "backend %c has a timeout of %lld ms, expected %lld", "AB"[i], (long long)both[i]->options_->timeout.count(), (long long)lim[i].count());
      // a backend registered under two types is told once for each
      if (!!both[i]->shut_ != !!shut[i] || !!both[i]->aborted_ != !!ab[i]) c.fail("shutdown", "backend %c was %s", "AB"[i], shut[i] || ab[i] ? "not shut down" : "shut down");
      if (both[i]->getGroupName() != name[i]) c.fail("backend-name", "backend %c has group name '%s', expected '%s'", "AB"[i], both[i]->getGroupName().c_str(), name[i].c_str());
    }
    c.transition();
  }
  c.outcome(n);
}

// the group object's own calls: what is asked for reaches the backend
static void wrappers(mc::Ctx& c) {
  int what = c.pick(8), root = c.pick({0, 1, 2}), red = c.pick({(int)SUM, (int)AVG, (int)MAX});
  int late = c.pick({0, 50});
  bool async = what == 7 && c.flip(), failing = c.flip();
  c.desc("call %d root %d op %d, work finishes %s%s%s", what, root, red, late ? "later" : "at once", async ? ", asynchronous" : "", failing ? ", failing" : "");
  c.nontrivial();
  Config k; k.deviations = 1;
  Sim s(c, k);
  s.exploring = true;
  struct Got { std::string op; void* t; void* l; int root, red; std::vector<int64_t> ids; };
  std::vector<Got> calls;
  std::string bad;
  auto work = std::make_shared<TestWork>();
  BackendNCCL::handler = [&](BackendNCCL&, BackendNCCL::Call k) -> std::shared_ptr<Work> {
    Internal in;
    calls.push_back({k.op, k.tensors, k.lists, k.root, k.red, k.barrier ? k.barrier->deviceIds : std::vector<int64_t>()});
    return work;
  };
  struct Clear { ~Clear() { BackendNCCL::handler = nullptr; } } clear;
  static const char* names[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send", "recv", "barrier"};
  auto* g = new DistributedProcessGroup;
  uint64_t t0 = 0, t1 = 0;
  bool ready = false;
  s.spawn("main", 0, [&] {
    if (!g->initProcessGroup(NCCL, "tcp://127.0.0.1:29600", 0, 3, milliseconds(4000), false)) fatal("set-up failed");
    g->getProcessGroup()->setBackend(DeviceType::CPU, NCCL, std::nullopt);
    std::vector<Tensor> t = {Tensor::ones({2})};
    std::vector<std::vector<Tensor>> l = {{Tensor::ones({2})}};
    { Internal in; ready = true; t0 = S->now; }
    std::shared_ptr<Work> w;
    switch (what) {
      case 0: w = g->broadcast(t, root); break;
      case 1: w = g->allReduce(t, (ReduceOpType)red); break;
      case 2: w = g->reduce(t, root, (ReduceOpType)red); break;
      case 3: w = g->allGather(l, t); break;
      case 4: w = g->reduceScatter(t, l, (ReduceOpType)red); break;
      case 5: w = g->send(t, root); break;
      case 6: w = g->recv(t, root); break;
      case 7: w = g->barrier(async, {5, 6}); break;
    }
    Internal in;
    t1 = S->now;
    if (calls.size() != 1 || calls[0].op != names[what]) fatal("the call did not reach the backend exactly once");
    auto& k = calls[0];
    if (what != 7 && k.t != &t) fatal("the backend was given other tensors");
    if ((what == 3 || what == 4) && k.l != &l) fatal("the backend was given other lists");
    if (k.root != -1 && k.root != root) fatal("the backend was given root " + std::to_string(k.root));
    if (k.red != -1 && k.red != red) fatal("the backend was given operation " + std::to_string(k.red));
    if (what == 7 && k.ids != std::vector<int64_t>{5, 6}) fatal("the backend was given other device ids");
    if (what == 7 && !async) { if (!work->isCompleted()) fatal("barrier returned before it was finished"); }
    else if (w != work) fatal("the caller was given another work handle");
    if ((what != 7 || async) && t1 - t0 > 1000000) fatal("an asynchronous call waited");
  });
  s.spawn("backend", 0, [&] {
    block("wait for the call", [&] { return !calls.empty(); });
    if (late) std::this_thread::sleep_for(milliseconds(late));
    work->done(failing ? "broken" : "");
  });
  if (!s.runUsers()) c.fail("call-hangs", "%s\nschedule:%s", s.stuck().c_str(), s.trace.c_str());
  s.exploring = false;
  s.spawn("end", 0, [&] { delete g; });
  if (!s.run()) c.fail("threads-left", "%s", s.stuck().c_str());
  c.outcome(mc::mix(what, s.steps));
}

struct Reg {
  Reg() {
    mc::add("handles", "1-2 finishers (each failing or not), 1-3 waiters with or without limits, a poller; every schedule", handles, 3);
    mc::add("timeouts", "1-2 waiters with limits around the moment of finishing (or never), time passing at any moment", timeouts, 3);
    mc::add("fresh", "queries on a pending handle", fresh, 1);
    mc::add("sequences", "every sequence of finish, wait and queries on one thread against the first completion", sequences, 2);
    mc::add("init-strings", "every initialisation string of a grammar with every environment, rank, size and backend, against the documented forms", initStrings, 4);
    mc::add("groups", "1-3 ranks set up together, waiting or not, one late or missing; every schedule", groups, 3);
    mc::add("backends", "every history of backend registrations, look-ups, calls, time limits and shutdowns on a process group", backends, 3);
    mc::add("wrappers", "every collective call of the group object: arguments, work handle, barrier", wrappers, 2);
  }
} reg;
