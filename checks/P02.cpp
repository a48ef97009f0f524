// P02: TCP store calls end in bounded (virtual) time and construction/destruction is clean, under every schedule
// and every placement of resets, interruptions, short transfers, process deaths and silences.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cstring>
#include <thread>
#include "Distributed/TCPStore.h"
#include "../mc/sim.h"
#include "../mc/sim_io.h"
#include "../mc/storeref.h"
using namespace tinytorch::distributed;
using namespace sim;
using namespace sref;
using std::chrono::milliseconds;

static const int kPort = 29512;
static constexpr uint64_t kSec = 1000000000ull, kMs = 1000000ull;
// a call may take its limit, the time a reply needs on the network, and a moment
static constexpr uint64_t kSlack = 3 * kSec;

struct Rec { Ev e; bool done = false; };

struct Net {
  mc::Ctx& c;
  Sim s;
  std::vector<TCPStore*> st;     // by process
  std::vector<Rec*> recs;
  milliseconds limit;
  Net(mc::Ctx& c, Config k, int procs, milliseconds limit) : c(c), s(c, k), st(procs, nullptr), limit(limit) {}
  std::string report() {
    std::string t;
    for (auto* r : recs) t += "\n  " + r->e.text() + (r->done ? " took " + std::to_string((r->e.n1 - r->e.n0) / kMs) + " ms" : "");
    return t + "\nschedule:" + s.trace + "\nlog: " + s.log;
  }
  void open(int proc, bool server, const char* host = "127.0.0.1", int workers = -1, bool waitWorkers = false) {
    TCPStore* t = new TCPStore(host, kPort, server, waitWorkers, workers, limit);
    Internal in;
    st[proc] = t;
  }
  void close(int proc) {
    TCPStore* t;
    { Internal in; t = st[proc]; st[proc] = nullptr; }
    delete t;
  }
  Rec* call(int proc, const Op& o) {
    Rec* r; TCPStore* t;
    { Internal in; r = new Rec; r->e.op = o; r->e.actor = proc; r->e.n0 = S->now; r->e.t0 = S->steps; recs.push_back(r); t = st[proc]; }
    std::vector<std::string> keys(o.keys.begin(), o.keys.end());
    std::string key = keys.empty() ? std::string() : keys[0];
    std::vector<uint8_t> val(o.val.begin(), o.val.end()), got;
    int64_t ri = 0;
    switch (o.k) {
      case SET: t->set(key, val); break;
      case GET: got = t->get(key); break;
      case ADD: ri = t->add(key, o.n); break;
      case WAIT: t->wait(keys); break;
      case DEL: ri = t->deleteKey(key); break;
      case CHECK: ri = t->check(keys); break;
      case NUM: ri = t->getNumKeys(); break;
      default: break;
    }
    Internal in;
    r->e.rs.assign(got.begin(), got.end());
    r->e.ri = ri; r->e.n1 = S->now; r->e.t1 = S->steps; r->done = true;
    if (limit.count() && !S->jumps && r->e.n1 - r->e.n0 > (uint64_t)limit.count() * kMs + kSlack) fatal("a call took " + std::to_string((r->e.n1 - r->e.n0) / kMs) + " ms with a limit of " + std::to_string(limit.count()) + ": " + o.text());
    return r;
  }
  void quietly(const std::function<void()>& f, int proc, const char* name) {
    bool was = s.exploring;
    s.exploring = false;
    s.spawn(name, proc, f);
    users(name);
    s.exploring = was;
  }
  void users(const char* what) {
    if (!s.runUsers()) c.fail(std::string(what) + "-hangs", "%s never ends: %s%s", what, s.stuck().c_str(), report().c_str());
  }
  void timed(const char* what, uint64_t from, uint64_t most) {
    if (!s.jumps && s.now - from > most) c.fail(std::string(what) + "-late", "%s took %llu ms%s", what, (unsigned long long)((s.now - from) / kMs), report().c_str());
  }
  // everything is gone
  void over() {
    if (!s.run()) c.fail("threads-left", "threads never end after everything was destroyed: %s%s", s.stuck().c_str(), report().c_str());
    if (openSockets()) c.fail("sockets-left", "open after everything was destroyed: %s%s", openSocketList().c_str(), report().c_str());
    uint64_t h = 1;
    for (auto* r : recs) { h = mc::mix(h, r->done * 3 + r->e.ri + r->e.rs.size()); delete r; }
    c.outcome(h);
    recs.clear();
  }
  uint64_t limitNs() { return (uint64_t)limit.count() * kMs; }
};

static const std::vector<std::vector<Op>>& programs() {
  static const std::vector<std::vector<Op>> p = {
    {set("v", "hello"), add("n", 1)}, {add("n", 2), get("n")}, {get("never"), num()}, {sref::wait({"never", "v"}), del("v")}, {sref::check({"v", "w"}), set("w", std::string(300, 'w'))}, {get("shared"), del("shared")}};
  return p;
}

// a client in trouble, another one that is not
static void faults(mc::Ctx& c) {
  auto& P = programs();
  int p = c.pick((int)P.size());
  bool serverFirst = c.flip();
  int dev = c.pick({0, 1});
  c.desc("client 1: %s%s, client 2 works beside it, one fault, %d schedule deviations; %s destroyed first", P[p][0].text().c_str(), P[p][1].text().c_str(), dev, serverFirst ? "server" : "clients");
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? dev * 2 : dev; k.faults = dev && !c.thorough() ? 1 : 1 + c.thorough(); k.kills = k.freezes = true;
  if (dev && !c.thorough()) k.shorts = k.interrupts = false;
  Net w(c, k, 3, milliseconds(4000));
  for (int i = 0; i < 3; i++) w.quietly([&w, i] { w.open(i, i == 0); }, i, "setup");
  w.quietly([&w] { w.call(0, set("shared", "1")); }, 0, "setup");
  bool fine = false;
  w.s.exploring = true;
  uint64_t t0 = w.s.now;
  w.s.spawn("victim", 1, [&] { for (auto& o : P[p]) w.call(1, o); });
  std::string bad;
  w.s.spawn("bystander", 2, [&] {
    w.call(2, set("b", "12"));
    Rec* a = w.call(2, add("b", 3));
    Rec* g = w.call(2, get("b"));
    Rec* d = w.call(2, del("b"));
    Rec* x = w.call(2, sref::check({"b"}));
    Internal in;
    if (a->e.ri != 15 || g->e.rs != "15" || d->e.ri != 1 || x->e.ri != 0) bad = "calls of an undisturbed client gave wrong results";
    for (Rec* r : {a, g, d, x}) if (r->e.n1 - r->e.n0 > kSec && !S->jumps) bad = "calls of an undisturbed client were slow";
    fine = true;
  });
  w.users("calls");
  (void)t0;
  w.s.exploring = false;
  if (!w.s.procDead(2) && !connectionHit(2) && (!bad.empty() || !fine)) c.fail("bystander", "%s%s", bad.c_str(), w.report().c_str());
  // the server's own client still works
  w.quietly([&w] {
    Rec* r = w.call(0, add("own", 7));
    if (r->e.ri != 7 && !connectionHit(0)) fatal("the server does not answer any more");
  }, 0, "afterwards");
  if (!w.s.procDead(1) && !connectionHit(1)) {
    // nothing happened to client 1 itself but a time-out: it works as before
    w.quietly([&w] {
      Rec* r = w.call(1, add("later", 5));
      Rec* g = w.call(1, get("later"));
      if (!w.s.jumps && (r->e.ri != 5 || g->e.rs != "5")) fatal("a later call of a client whose connection is intact gives a wrong result");
    }, 1, "afterwards");
  } else if (!w.s.procDead(1)) {
    w.quietly([&w] {
      Rec* r = w.call(1, add("later", 5));
      if (r->e.ri != 5 && r->e.ri != -1) fatal("a later call of a client that lost its connection gives a wrong result");
    }, 1, "afterwards");
  }
  int order[3] = {2, 1, 0};
  if (serverFirst) { order[0] = 0; order[2] = 2; }
  for (int i : order)
    if (!w.s.procDead(i)) { uint64_t f = w.s.now; w.quietly([&w, i] { w.close(i); }, i, "destruction"); w.timed("destruction", f, w.limitNs() + kSlack); }
  w.over();
}

// the server dies or goes silent at any moment
static void serverDies(mc::Ctx& c) {
  auto& P = programs();
  int p = c.pick((int)P.size()), q = c.pick({0, 2, 3});
  bool silent = c.flip();
  c.desc("server %s while client 0 does %s%s and client 2 %s%s", silent ? "goes silent" : "dies", P[p][0].text().c_str(), P[p][1].text().c_str(), P[q][0].text().c_str(), P[q][1].text().c_str());
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 1 : 0; k.faults = 1; k.kills = !silent; k.freezes = silent; k.shorts = k.interrupts = k.resets = false;
  Net w(c, k, 3, milliseconds(4000));
  w.quietly([&w] { w.open(1, true); }, 1, "setup");
  for (int i : {0, 2}) w.quietly([&w, i] { w.open(i, false); }, i, "setup");
  w.s.exploring = true;
  w.s.spawn("client0", 0, [&] { for (auto& o : P[p]) w.call(0, o); });
  w.s.spawn("client2", 2, [&] { for (auto& o : P[q]) w.call(2, o); });
  w.users("calls");
  w.s.exploring = false;
  for (int i : {0, 2}) if (!w.s.procDead(i)) { uint64_t f = w.s.now; w.quietly([&w, i] { w.close(i); }, i, "destruction"); w.timed("destruction", f, w.limitNs() + kSlack); }
  if (!w.s.procDead(1)) w.quietly([&w] { w.close(1); }, 1, "destruction");
  w.over();
}

// construction: everything a client or server can meet
static void construction(mc::Ctx& c) {
  int kind = c.pick(9);
  int limit = c.pick({1000, 4000});
  static const char* names[] = {"nobody listens", "address never answers", "name does not resolve", "server starts 2.5 s later", "port already in use", "server waits for two workers, both come",
                                "server waits for three workers, one comes", "server waits for two workers, one comes and leaves", "server waits, workers come late"};
  c.desc("%s, limit %d ms", names[kind], limit);
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 2 : 1; k.faults = 1; k.shorts = false; k.timeJumps = false; k.resets = kind != 5 && kind != 8;
  Net w(c, k, 3, milliseconds(limit));
  uint64_t t0 = w.s.now, L = w.limitNs();
  bool worked = false, good[3] = {};
  auto use = [&](int i) { Rec* r = w.call(i, add("x" + std::to_string(i), 3)); Internal in; good[i] = r->e.ri == 3; if (!good[i] && r->e.ri != -1) fatal("wrong result"); };
  int used = 1;
  switch (kind) {
    case 0: case 1: case 2:
      if (kind == 1) blackhole("10.9.9.9");
      w.s.spawn("client", 0, [&] { w.open(0, false, kind == 1 ? "10.9.9.9" : kind == 2 ? "no.such.host" : "127.0.0.1"); Rec* r = w.call(0, num()); Rec* a = w.call(0, add("x", 1)); Rec* g = w.call(0, get("x")); Rec* h = w.call(0, sref::check({"x"}));
        w.call(0, sref::wait({"x"})); w.call(0, set("x", "1"));
        if (r->e.ri != -1 || a->e.ri != -1 || !g->e.rs.empty() || h->e.ri) fatal("a store that could not connect answers"); });
      w.users("construction");
      w.timed("construction", t0, L + kSlack);
      break;
    case 3:
      used = 2;
      w.s.spawn("client", 1, [&] { w.open(1, false); use(1); });
      w.s.spawn("server", 0, [&] { std::this_thread::sleep_for(milliseconds(2500)); w.open(0, true); use(0); });
      w.users("construction");
      worked = good[1];
      if (limit == 4000 && !connectionHit(1) && !worked) c.fail("late-server", "the client gave up although the server came in time%s", w.report().c_str());
      break;
    case 4:
      used = 2;
      w.quietly([&] { w.open(0, true); }, 0, "setup");
      w.s.spawn("second", 1, [&] { w.open(1, true); Rec* r = w.call(1, num()); (void)r; w.call(1, set("q", "1")); });
      w.users("construction");
      w.timed("construction", t0, 3 * (L + kSlack));
      w.quietly([&] { use(0); if (!good[0]) fatal("the first server no longer answers"); }, 0, "afterwards");
      break;
    case 5: case 8:
      used = 3;
      for (int i = 0; i < 3; i++)
        w.s.spawn("worker" + std::to_string(i), i, [&, i] { if (i && kind == 8) std::this_thread::sleep_for(milliseconds(limit / 4 * i)); w.open(i, i == 0, "127.0.0.1", 3, true); if (i == 0) { Internal in; worked = S->now - t0 <= L; } use(i); });
      w.users("construction");
      if (limit < 4000 || connectionHit(0) || connectionHit(1) || connectionHit(2)) break;   // a refused connection is tried again after a second
      for (int i = 0; i < 3; i++) if (!good[i]) c.fail("worker", "worker %d could not use the store%s", i, w.report().c_str());
      if (!worked) c.fail("workers-not-seen", "all workers came but the server waited to its limit%s", w.report().c_str());
      break;
    case 6: case 7:
      used = 2;
      w.s.spawn("server", 0, [&] { w.open(0, true, "127.0.0.1", kind == 6 ? 3 : 2, true); use(0); Internal in; worked = S->now - t0 >= L; });
      w.s.spawn("worker", 1, [&] { w.open(1, false); use(1); if (kind == 7) w.close(1); });
      w.users("construction");
      if (kind == 6 && !worked && !connectionHit(0)) c.fail("did-not-wait", "the server did not wait for its workers%s", w.report().c_str());
      if (kind == 7 && limit == 4000 && worked && !connectionHit(1) && !connectionHit(0)) c.fail("forgot-worker", "two workers came (one left again) but the server waited to its limit%s", w.report().c_str());
      w.timed("construction", t0, 2 * (L + kSlack));
      break;
  }
  w.s.exploring = false;
  for (int i = used - 1; i >= 0; i--) if (w.st[i]) { uint64_t f = w.s.now; w.quietly([&w, i] { w.close(i); }, i, "destruction"); w.timed("destruction", f, L + kSlack); }
  w.over();
}

// destruction at any moment, with calls outstanding
static void destruction(mc::Ctx& c) {
  int what = c.pick(8);
  int noLimit = c.flip();
  static const char* names[] = {"get of a missing key", "wait for missing keys", "set", "add", "client being constructed", "client being destroyed", "get of a key being set by the server's own client", "two blocked clients"};
  c.desc("server destroyed during: %s, %s", names[what], noLimit ? "no limit" : "limit 4 s");
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 3 : 2; k.faults = 0; k.interrupts = false;
  if (what == 4 && noLimit) c.skip();  // would wait for a server for ever
  Net w(c, k, 3, noLimit ? Store::kNoTimeout : milliseconds(4000));
  w.quietly([&w] { w.open(0, true); }, 0, "setup");
  if (what != 4) w.quietly([&w] { w.open(1, false); }, 1, "setup");
  if (what == 7) w.quietly([&w] { w.open(2, false); }, 2, "setup");
  w.s.exploring = true;
  uint64_t t0 = w.s.now;
  w.s.spawn("server", 0, [&] { if (what == 6) w.call(0, set("k", "1")); w.close(0); });
  w.s.spawn("client", 1, [&] {
    switch (what) {
      case 0: w.call(1, get("k")); w.call(1, num()); break;
      case 1: w.call(1, sref::wait({"k", "l"})); break;
      case 2: w.call(1, set("k", "value")); w.call(1, set("l", "value")); break;
      case 3: { Rec* r = w.call(1, add("k", 2)); if (r->e.ri != 2 && r->e.ri != -1) fatal("wrong result"); break; }
      case 4: w.open(1, false); w.call(1, num()); break;
      case 5: w.close(1); break;
      case 6: { Rec* r = w.call(1, get("k")); if (r->e.rs != "1" && r->e.rs != "") fatal("wrong result"); break; }
      case 7: w.call(1, get("k")); break;
    }
  });
  if (what == 7) w.s.spawn("client2", 2, [&] { w.call(2, sref::wait({"k"})); });
  w.users("destruction");
  // with the server gone, blocked calls end at once
  w.timed("calls on a destroyed server", t0, what == 4 ? 4 * kSec + kSlack : kSlack);
  w.s.exploring = false;
  for (int i : {2, 1}) if (w.st[i]) { uint64_t f = w.s.now; w.quietly([&w, i] { w.close(i); }, i, "destruction"); w.timed("destruction", f, 4 * kSec + kSlack); }
  w.over();
}

// connections that are not store clients, or stop in the middle of a message
static void halfOpen(mc::Ctx& c) {
  // a set message of key "k1" and value "abc"
  std::string msg;
  msg += '\0';
  auto u64 = [&](uint64_t v) { msg.append((const char*)&v, 8); };
  u64(2); msg += "k1"; u64(3); msg += "abc";
  int n = c.pick((int)msg.size());
  int then = c.pick(4);   // 0 stays silent, 1 closes, 2 closes with unread data / resets, 3 closes only after the server is gone
  int cmd = c.pick({0, 1, 4, 7, 200});
  if (cmd == 200 && n == 0) c.skip();
  if (cmd != 0 && n > 9) c.skip();
  c.desc("a connection sends %d bytes of a message (command %d) and then %s", n, cmd, then == 0 ? "nothing" : then == 1 ? "closes" : then == 2 ? "dies" : "closes later");
  c.nontrivial();
  Config k; k.deviations = 1; k.faults = 0; k.interrupts = false;
  Net w(c, k, 3, milliseconds(4000));
  w.quietly([&w] { w.open(0, true); }, 0, "setup");
  w.s.exploring = true;
  int fd = -1;
  msg[0] = (char)cmd;
  w.s.spawn("stranger", 1, [&] {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(kPort); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int f = socket(AF_INET, SOCK_STREAM, 0);
    connect(f, (sockaddr*)&a, sizeof a);
    if (n) send(f, msg.data(), n, MSG_NOSIGNAL);
    if (then == 1) ::close(f);
    Internal in; fd = f;
  });
  w.s.spawn("client", 2, [&] {
    w.open(2, false);
    Rec* r = w.call(2, add("n", 4));
    Rec* g = w.call(2, get("n"));
    if (r->e.ri != 4 || g->e.rs != "4") fatal("a client got wrong results beside a half-open connection");
  });
  w.users("calls");
  if (then == 2) w.s.kill(1, "test");
  w.s.spawn("server", 0, [&] { w.close(0); });
  if (then == 0 || then == 2) {
    uint64_t f = w.s.now;
    w.users("destruction");
    w.timed("destruction", f, kSlack);
  }
  w.s.spawn("client", 2, [&] { w.close(2); });
  if (then == 3 || then == 0) w.s.spawn("stranger", 1, [&] { ::close(fd); });
  w.users("destruction");
  w.over();
}

// timed-out calls and what comes after them, with time passing at any moment
static void stale(mc::Ctx& c) {
  static const std::vector<Op> F = {get("k"), sref::wait({"k"}), sref::wait({"k", "l"})};
  int f = c.pick((int)F.size());
  int when = c.pick({900, 1000, 1001, 2500, -1});
  int jumps = c.flip();
  c.desc("%s with a limit of 1 s, key set after %d ms%s, then other calls", F[f].text().c_str(), when, jumps ? ", time passes at any moment" : "");
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 3 : 2; k.timeJumps = jumps; k.faults = 0; k.interrupts = false;
  if (jumps) k.deviations = c.thorough() ? 2 : 1;
  Net w(c, k, 3, milliseconds(1000));
  for (int i = 0; i < 3; i++) w.quietly([&w, i] { w.open(i, i == 0); }, i, "setup");
  w.s.exploring = true;
  w.s.spawn("client", 1, [&] {
    Rec* a = w.call(1, F[f]);
    Rec* n = w.call(1, add("n", 4));
    Rec* x = w.call(1, sref::check({"n"}));
    Rec* m = w.call(1, get("n"));
    Internal in;
    if (F[f].k == GET && a->e.rs != "" && a->e.rs != "yes") fatal("get returned something that was never set");
    bool ok = n->e.ri == 4 && x->e.ri == 1 && m->e.rs == "4";
    bool gaveUp = S->jumps > 0 && (n->e.ri == -1 || n->e.ri == 4) && (m->e.rs == "" || m->e.rs == "4");
    if (!ok && !gaveUp) fatal("calls after a timed-out call give wrong results");
    if (!S->jumps && when == -1 && a->e.n1 - a->e.n0 < kSec) fatal("gave up before its limit");
  });
  if (when >= 0)
    w.s.spawn("setter", 2, [&] { std::this_thread::sleep_for(milliseconds(when)); w.call(2, set("l", "1")); w.call(2, set("k", "yes")); });
  w.users("calls");
  w.s.exploring = false;
  for (int i : {2, 1, 0}) w.quietly([&w, i] { w.close(i); }, i, "destruction");
  w.over();
}

// one after the other on the same port
static void restart(mc::Ctx& c) {
  int rounds = c.pick({2, 3});
  int keep = c.flip();
  c.desc("server created and destroyed %d times, the old client %s", rounds, keep ? "stays" : "goes");
  c.nontrivial();
  Config k; k.deviations = c.thorough() ? 2 : 1; k.faults = 0; k.interrupts = false;
  Net w(c, k, 3, milliseconds(4000));
  w.s.exploring = true;
  TCPStore* old = nullptr;
  for (int r = 0; r < rounds; r++) {
    w.s.spawn("server", 0, [&] { w.open(0, true); Rec* x = w.call(0, num()); if (x->e.ri != 0) fatal("a new server is not empty"); w.call(0, set("k", "1")); });
    w.users("construction");
    w.s.spawn("client", 1, [&] { w.open(1, false); Rec* g = w.call(1, get("k")); if (g->e.rs != "1") fatal("wrong result"); });
    w.users("construction");
    if (keep && !old) { old = w.st[1]; w.st[1] = nullptr; }
    else { w.s.spawn("client", 1, [&] { w.close(1); }); w.users("destruction"); }
    w.s.spawn("server", 0, [&] { w.close(0); });
    w.users("destruction");
  }
  if (old) { w.st[1] = old; w.s.spawn("client", 1, [&] { Rec* g = w.call(1, add("z", 1)); if (g->e.ri != -1) fatal("an answer without a server"); w.close(1); }); w.users("destruction"); }
  w.over();
}

struct Reg {
  Reg() {
    mc::add("destruction", "server destroyed while a client is in every kind of call; every schedule", destruction, 3);
    mc::add("construction", "servers and clients constructed with nobody, too few, late or leaving peers; every schedule and one fault", construction, 3);
    mc::add("half-open", "connections stopping after every byte of a message, then silent, closed or dead", halfOpen, 3);
    mc::add("stale", "calls after a timed-out call, the key appearing around the limit, time passing at any moment", stale, 3);
    mc::add("restart", "servers following each other on the same port", restart, 4);
    mc::add("server-dies", "server process dies or goes silent at every call", serverDies, 4);
    mc::add("faults", "a fault (reset, interruption, short transfer, death, silence) at every network call of a client or its server thread, another client beside it", faults, 4);
  }
} reg;
