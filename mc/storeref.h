// Reference for the stores: an operation alphabet, a recorded history and the sequential map it must linearise to.
#pragma once
#include <algorithm>
#include <charconv>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sim.h"
#include "Distributed/Store.h"

namespace sref {
using sim::S;
enum Kind { SET, GET, ADD, WAIT, DEL, CHECK, NUM, NOP };
struct Op {
  Kind k = NOP;
  std::vector<std::string> keys;
  std::string val;
  int64_t n = 0;
  std::string text() const {
    static const char* nm[] = {"set", "get", "add", "wait", "delete", "check", "numkeys", "nop"};
    std::string s = std::string(nm[k]) + "(";
    for (auto& x : keys) { std::string t; for (char c : x) { if (isprint((unsigned char)c)) t += c; else t += "\\x"; } s += (t.size() > 20 ? t.substr(0, 8) + "..." + std::to_string(x.size()) : t) + " "; }
    if (k == SET) s += val.size() > 12 ? std::to_string(val.size()) + " bytes" : val;
    if (k == ADD) s += std::to_string(n);
    return s + ")";
  }
};
inline Op set(std::string k, std::string v) { return Op{SET, {k}, v, 0}; }
inline Op get(std::string k) { return Op{GET, {k}, "", 0}; }
inline Op add(std::string k, int64_t n) { return Op{ADD, {k}, "", n}; }
inline Op wait(std::vector<std::string> k) { return Op{WAIT, k, "", 0}; }
inline Op del(std::string k) { return Op{DEL, {k}, "", 0}; }
inline Op check(std::vector<std::string> k) { return Op{CHECK, k, "", 0}; }
inline Op num() { return Op{NUM, {}, "", 0}; }

struct Ev {
  Op op;
  int actor = 0;
  int64_t t0 = 0, t1 = -1;     // stamps; t1 < 0: never returned
  uint64_t n0 = 0, n1 = 0;     // virtual time
  std::string rs;              // value returned
  int64_t ri = 0;              // number or flag returned
  bool timedOut = false;       // lasted as long as its limit
  bool lateOk = false;         // something changed just before it returned: it may have succeeded all the same
  bool maybe = false;          // its caller died or gave up: it may or may not have happened
  std::string text() const {
    std::string s = "actor" + std::to_string(actor) + ": " + op.text();
    if (t1 < 0) return s + " did not return";
    if (op.k == GET) s += " = " + (rs.size() > 12 ? std::to_string(rs.size()) + " bytes" : "\"" + rs + "\"");
    if (op.k == ADD || op.k == NUM || op.k == DEL || op.k == CHECK) s += " = " + std::to_string(ri);
    if (timedOut) s += " (timed out)";
    return s + " [" + std::to_string(t0) + "," + std::to_string(t1) + "]";
  }
};
typedef std::map<std::string, std::string> Map;

struct Hist {
  std::vector<Ev> ev;
  int64_t stamp = 0;
  uint64_t timeout = 0;   // ns; a get or wait lasting that long timed out (0: no limit)
  // runs one call on the store and records it
  int text_ = 0; // bit 0: values are set as strings; bit 1: read as strings
  void run(int actor, tinytorch::distributed::Store* st, const Op& o) {
    const int text = text_;
    size_t i;
    { sim::Internal in; Ev e; e.op = o; e.actor = actor; e.t0 = ++stamp; e.n0 = S->now; ev.push_back(e); i = ev.size() - 1; }
    std::vector<std::string> keys;
    std::string key;
    std::vector<uint8_t> val;
    for (auto& k : o.keys) keys.push_back(k);
    if (!keys.empty()) key = keys[0];
    val.assign(o.val.begin(), o.val.end());
    std::vector<uint8_t> got;
    int64_t ri = 0;
    switch (o.k) {
      case SET: if (text & 1) st->set(key, std::string(val.begin(), val.end())); else st->set(key, val); break;
      case GET: if (text & 2) { std::string g = st->getString(key); got.assign(g.begin(), g.end()); } else got = st->get(key); break;
      case ADD: ri = st->add(key, o.n); break;
      case WAIT: st->wait(keys); break;
      case DEL: ri = st->deleteKey(key); break;
      case CHECK: ri = st->check(keys); break;
      case NUM: ri = st->getNumKeys(); break;
      case NOP: break;
    }
    sim::Internal in;
    Ev& e = ev[i];
    e.rs.assign(got.begin(), got.end());
    e.ri = ri;
    e.n1 = S->now;
    e.t1 = ++stamp;
    if (timeout && (o.k == GET || o.k == WAIT) && got.empty() && e.n1 - e.n0 >= timeout) e.timedOut = true;
  }
  std::string text() const { std::string s; for (auto& e : ev) s += "\n  " + e.text(); return s; }

  static bool number(const std::string& s, int64_t& v) {
    if (s.empty()) { v = 0; return true; }
    auto r = std::from_chars(s.data(), s.data() + s.size(), v);
    return r.ec == std::errc() && r.ptr == s.data() + s.size();
  }
  // may e take effect in state m (changing it) with the result it had?  effect only: e never returned
  static bool apply(const Ev& e, Map& m, bool effectOnly) {
    const Op& o = e.op;
    auto has = [&](const std::string& k) { return m.count(k) != 0; };
    bool all = true;
    for (auto& k : o.keys) all = all && has(k);
    switch (o.k) {
      case NOP: return true;
      case SET: m[o.keys[0]] = o.val; return true;
      case ADD: {
        int64_t v = 0;
        if (has(o.keys[0]) && !number(m[o.keys[0]], v)) return effectOnly || e.ri == -1;
        m[o.keys[0]] = std::to_string(v + o.n);
        return effectOnly || e.ri == v + o.n;
      }
      case GET:
        if (effectOnly) return true;
        if (e.timedOut && !has(o.keys[0])) return true;
        if (e.timedOut && !e.lateOk) return false;
        return has(o.keys[0]) && m[o.keys[0]] == e.rs;
      case WAIT: return effectOnly || (all ? !e.timedOut || e.lateOk : e.timedOut);
      case DEL: { bool h = has(o.keys[0]); m.erase(o.keys[0]); return effectOnly || (e.ri != 0) == h; }
      case CHECK: return effectOnly || (e.ri != 0) == all;
      case NUM: return effectOnly || e.ri == (int64_t)m.size();
    }
    return false;
  }
  // is there an order of the calls, consistent with real time, a sequential map agrees with?
  bool linearizable(const Map& init) const {
    std::vector<Ev> v;
    for (auto& e : ev) {
      if (e.t1 < 0 && (e.op.k == GET || e.op.k == WAIT || e.op.k == CHECK || e.op.k == NUM)) continue;  // no effect
      v.push_back(e);
    }
    int n = (int)v.size();
    if (n > 24) return false;
    // a call that timed out saw the key missing at the time it gave up
    for (auto& e : v)
      if (e.timedOut)
        for (auto& o : v) {
          if (&o != &e && o.actor != e.actor && (o.t1 < 0 || o.t1 > e.t0) && o.t0 < e.t1 && (o.t1 < 0 || o.n1 + 1000000000ull >= e.n1)) e.lateOk = true;
          if (o.t1 >= 0 && o.n1 + 1000000000ull < e.n1 && o.t1 > e.t0 && o.t1 < e.t1) e.t0 = std::max(e.t0, o.t1);
        }
    std::set<std::pair<uint32_t, Map>> seen;
    std::function<bool(uint32_t, const Map&)> go = [&](uint32_t done, const Map& m) {
      bool finished = true;
      for (int i = 0; i < n; i++) if (!(done >> i & 1) && v[i].t1 >= 0 && !v[i].maybe) finished = false;
      if (finished) return true;
      if (!seen.insert({done, m}).second) return false;
      for (int i = 0; i < n; i++) {
        if (done >> i & 1) continue;
        bool first = true;  // nobody else that is not yet placed returned before i was called
        for (int j = 0; j < n && first; j++)
          if (j != i && !(done >> j & 1) && v[j].t1 >= 0 && !v[j].maybe && v[j].t1 < v[i].t0) first = false;
        if (!first) continue;
        Map m2 = m;
        if (!apply(v[i], m2, v[i].t1 < 0 || v[i].maybe)) continue;
        if (go(done | 1u << i, m2)) return true;
      }
      return false;
    };
    return go(0, init);
  }
  // a state the map can be in once everything has been placed is whatever later calls of the history saw
};
}  // namespace sref
