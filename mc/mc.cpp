#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>

namespace mc {
namespace {

constexpr int kMaxFam = 64, kMaxChoice = 2048, kMaxJobs = 64;
constexpr size_t kSetSize = 1u << 21;

struct HashSet {
  std::atomic<uint64_t> slot[kSetSize];
  std::atomic<uint64_t> count;
  void insert(uint64_t h) {
    if (h == 0) h = 1;
    if (count.load(std::memory_order_relaxed) > kSetSize * 3 / 4) return;  // saturated: a lower bound is reported
    size_t i = (h * 0x9e3779b97f4a7c15ull) >> 43;
    for (;; i++) {
      i &= kSetSize - 1;
      uint64_t cur = slot[i].load(std::memory_order_relaxed);
      if (cur == h) return;
      if (cur == 0) {
        if (slot[i].compare_exchange_strong(cur, h)) { count++; return; }
        if (cur == h) return;
      }
    }
  }
};

struct Slot {
  std::atomic<int> family;
  std::atomic<int> n;
  int choices[kMaxChoice];
  std::atomic<uint64_t> beat;   // changes whenever a case starts
  char site[96];
  char desc[2048];
};
struct FamStat {
  std::atomic<uint64_t> cases, skipped, nontrivial, transitions, traces, extra, fails, crashes, capped, usec;
};
struct Shared {
  Slot slot[kMaxJobs];
  FamStat fam[kMaxFam];
  HashSet outcomes, states;
  std::atomic<uint64_t> famOutcomes[kMaxFam];
};

Shared* S = nullptr;
std::vector<Family>& famsRef() { static std::vector<Family> f; return f; }
std::vector<std::function<void()>>& startRef() { static std::vector<std::function<void()>> f; return f; }
#define fams famsRef()
#define startFns startRef()
Slot* slot = nullptr;
int curFam = 0;
std::string scratchRoot, scratch;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC_RAW, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
std::string jvec(const int* v, int n) {
  std::string o = "[";
  for (int i = 0; i < n; i++) o += (i ? "," : "") + std::to_string(v[i]);
  return o + "]";
}

enum class R { Ok, Skip, NotMine, Fail };
R runCase(const Family& f, Ctx& c) {
  c.pos = 0; c.arity.clear(); c.desc_.clear(); c.nontrivial_ = false; c.owned_ = true;
  c.transitions_ = c.traces_ = c.extra_ = 0; c.failKey.clear(); c.failMsg.clear();
  if (slot) { slot->desc[0] = 0; slot->site[0] = 0; slot->n = 0; slot->beat++; }
  try {
    f.body(c);
  } catch (SkipCase&) { return R::Skip; }
  catch (NotMine&) { return R::NotMine; }
  catch (FailCase&) { return R::Fail; }
  if (c.pos < c.choices.size()) {
    // the body consumed fewer choices than the replayed prefix: it is not deterministic
    c.failKey = "harness-divergence"; c.failMsg = "the case did not consume the recorded choices";
    return R::Fail;
  }
  return R::Ok;
}
bool owner(const Ctx& c) {  // for bodies that ended before shardDepth choices
  if ((int)c.arity.size() >= c.shardDepth || c.jobs == 1) return true;
  uint64_t h = 1;
  for (size_t i = 0; i < c.arity.size(); i++) h = mix(h, c.choices[i] + 1);
  return (int)(h % c.jobs) == c.shard;
}
// advance the choice vector to the next one in depth-first order; false when exhausted
bool next(Ctx& c) {
  c.choices.resize(c.arity.size());
  while (!c.choices.empty()) {
    if (c.choices.back() + 1 < c.arity[c.choices.size() - 1]) { c.choices.back()++; return true; }
    c.choices.pop_back();
  }
  return false;
}

bool spoiltFlag = false;
const int kFresh = 77;             // a worker that wants to go on as a fresh process

struct Opt {
  int tier = 0, jobs = 8;
  double budget = 60;
  std::string out, onlyFamily;
};

void worker(int id, const Opt& o, int startFam, std::vector<int> resumeAfter, bool resume, double tEnd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  slot = &S->slot[id];
  scratch = scratchRoot + "/w" + std::to_string(id);
  mkdir(scratch.c_str(), 0777);
  int devnull = getenv("MC_ERR") ? open(getenv("MC_ERR"), O_WRONLY|O_APPEND|O_CREAT, 0600) : open("/dev/null", O_WRONLY);
  dup2(devnull, 2); dup2(devnull, 1);
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  for (auto& f : startFns) f();
  FILE* vf = fopen((o.out + "." + std::to_string(id)).c_str(), "a");
  int nf = 0; for (auto& f : fams) nf += f.tierMin <= o.tier;
  std::map<std::string, int> seen;
  for (int fi = startFam; fi < (int)fams.size(); fi++) {
    const Family& f = fams[fi];
    if (f.tierMin > o.tier) continue;
    if (!o.onlyFamily.empty() && o.onlyFamily != f.name) continue;
    curFam = fi;
    slot->family = fi;
    bool last = true;
    for (int j = fi + 1; j < (int)fams.size(); j++) if (fams[j].tierMin <= o.tier) last = false;
    double t0 = now(), famEnd = last ? tEnd : t0 + std::max(1.0, (tEnd - t0) * 0.6 * f.weight);
    Ctx c; c.tier = o.tier; c.shard = id; c.jobs = o.jobs; c.shardDepth = f.shardDepth;
    bool more = true;
    if (resume && fi == startFam) {
      c.choices = resumeAfter;
      // recover the arities by replaying the prefix without executing is impossible in general; the
      // crashed case's arities were recorded next to its choices
      std::vector<int> ar;
      for (int i = 0; i < slot->n; i++) ar.push_back(slot->choices[i] >> 16);
      c.arity = ar; more = next(c);
    }
    FamStat& st = S->fam[fi];
    uint64_t k = 0;
    while (more) {
      R r = runCase(f, c);
      if (r != R::NotMine && owner(c)) {
        if (r == R::Skip) st.skipped++;
        else {
          st.cases++; st.transitions += c.transitions_; st.traces += c.traces_; st.extra += c.extra_;
          if (c.nontrivial_) st.nontrivial++;
        }
        if (r == R::Fail) {
          st.fails++;
          std::string key = std::string(f.name) + "/" + c.failKey;
          if (seen[key]++ == 0) {
            fprintf(vf, "{\"family\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\",\"choices\":%s,\"shard\":%d,\"kind\":\"fail\"}\n",
                    f.name, jesc(c.failKey).c_str(), jesc(c.failMsg).c_str(), jesc(c.desc_).c_str(),
                    jvec(c.choices.data(), (int)c.arity.size()).c_str(), id);
            fflush(vf);
          }
          if (seen.size() > 400) break;
          if (spoiltFlag) { fclose(vf); fflush(nullptr); _exit(kFresh); }
        }
      }
      more = next(c);
      if ((++k & 15) == 0 && now() > famEnd) { if (more) st.capped++; break; }
    }
    st.usec += (uint64_t)((now() - t0) * 1e6);
  }
  fclose(vf);
  fflush(nullptr);
  _exit(0);
}

void rmrf(const std::string& p) {
  // only ever called on the scratch directory this process created under the system temp directory
  std::string cmd = "rm -rf -- '" + p + "'";
  if (p.find("/mcscratch.") != std::string::npos) { int r = system(cmd.c_str()); (void)r; }
}

}  // namespace

int Ctx::pick(int n) {
  if (n <= 0) throw SkipCase{};
  size_t i = pos++;
  if (i >= choices.size()) choices.push_back(0);
  if (choices[i] >= n) {
    failKey = "harness-divergence"; failMsg = "recorded choice out of range";
    throw FailCase{};
  }
  arity.push_back(n);
  if (slot && i < kMaxChoice) { slot->choices[i] = choices[i] | (n << 16); slot->n = (int)i + 1; }
  if ((int)pos == shardDepth && jobs > 1 && !replay) {
    uint64_t h = 1;
    for (int k = 0; k < shardDepth; k++) h = mix(h, choices[k] + 1);
    if ((int)(h % jobs) != shard) throw NotMine{};
  }
  return choices[i];
}
void Ctx::desc(const char* fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!desc_.empty()) desc_ += " ";
  desc_ += b;
  if (slot) { strncpy(slot->desc, desc_.c_str(), sizeof slot->desc - 1); }
}
void Ctx::redesc(const std::string& d) { desc_ = d; if (slot) strncpy(slot->desc, desc_.c_str(), sizeof slot->desc - 1); }
void Ctx::site(const char* s) { if (slot) strncpy(slot->site, s, sizeof slot->site - 1); }
void Ctx::fail(const std::string& key, const char* fmt, ...) {
  char b[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  failKey = key; failMsg = b;
  throw FailCase{};
}
void Ctx::outcome(uint64_t h) { if (S) S->outcomes.insert(mix(h, curFam + 77)); }
void Ctx::state(uint64_t h) { if (S) S->states.insert(mix(h, curFam + 99)); }

void spoilt() { spoiltFlag = true; }
void add(Family f) { fams.push_back(std::move(f)); }
void onWorkerStart(std::function<void()> f) { startFns.push_back(std::move(f)); }
static const char* scratchBase() { return access("/dev/shm", W_OK | X_OK) == 0 ? "/dev/shm/mcscratch.XXXXXX" : "/tmp/mcscratch.XXXXXX"; }
std::string scratchDir() { return scratch; }

static int replayCase(const std::string& fam, const std::vector<int>& ch, int tier, bool seq, int shard, int jobs) {
  for (int fi = 0; fi < (int)fams.size(); fi++) {
    const Family& f = fams[fi];
    if (fam != f.name) continue;
    char tmpl[32]; strcpy(tmpl, scratchBase());
    scratchRoot = mkdtemp(tmpl); scratch = scratchRoot + "/w0"; mkdir(scratch.c_str(), 0777);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      static Slot dummy; slot = &dummy;
      for (auto& g : startFns) g();
      Ctx c; c.tier = tier; c.shardDepth = f.shardDepth;
      R r;
      if (!seq) {
        c.replay = true; c.choices = ch;
        r = runCase(f, c);
      } else {
        c.shard = shard; c.jobs = jobs;
        for (bool more = true; more; more = next(c)) {
          r = runCase(f, c);
          std::vector<int> used(c.choices.begin(), c.choices.begin() + c.arity.size());
          if (used == ch) break;
        }
      }
      fprintf(stdout, "case: %s\n", c.desc_.c_str());
      if (r == R::Fail) fprintf(stdout, "FAIL key=%s: %s\n", c.failKey.c_str(), c.failMsg.c_str());
      else fprintf(stdout, "%s\n", r == R::Ok ? "PASS" : "SKIP");
      fflush(stdout);
      _exit(r == R::Fail ? 3 : 0);
    }
    int st = 0;
    double t0 = now();
    int limit = std::max(60, f.hangSeconds * 2);
    for (;;) {
      if (waitpid(p, &st, WNOHANG) == p) break;
      if (now() - t0 > limit) {
        kill(p, SIGKILL); waitpid(p, &st, 0); rmrf(scratchRoot);
        printf("HANG (no answer within %d s)\n", limit); return 3;
      }
      usleep(2000);
    }
    rmrf(scratchRoot);
    if (WIFSIGNALED(st)) { printf("CRASH: signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st))); return 3; }
    if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3) { printf("CRASH: exit status %d\n", WEXITSTATUS(st)); return 3; }
    return WEXITSTATUS(st);
  }
  fprintf(stderr, "no family %s\n", fam.c_str());
  return 2;
}

int run(int argc, char** argv) {
  Opt o;
  std::string replayFam; std::vector<int> replayCh; bool seq = false; int rshard = 0, rjobs = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--tier") o.tier = val() == "thorough";
    else if (a == "--jobs") o.jobs = std::min(kMaxJobs, std::max(1, atoi(val().c_str())));
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--family") o.onlyFamily = val();
    else if (a == "--replay") {
      replayFam = val(); std::string s = val(), t;
      for (char ch : s + ",") if (ch == ',') { if (!t.empty()) replayCh.push_back(atoi(t.c_str())); t.clear(); } else t += ch;
    } else if (a == "--seq") { seq = true; rshard = atoi(val().c_str()); rjobs = atoi(val().c_str()); }
    else if (a == "--list") { for (auto& f : fams) printf("%s: %s\n", f.name, f.rule); return 0; }
  }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  if (!replayFam.empty()) return replayCase(replayFam, replayCh, o.tier, seq, rshard, rjobs);
  if (o.out.empty()) o.out = "/tmp/mc.out." + std::to_string(getpid());
  char tmpl[32]; strcpy(tmpl, scratchBase());
  scratchRoot = mkdtemp(tmpl);
  double t0 = now(), tEnd = t0 + o.budget;
  std::vector<pid_t> pid(o.jobs, -1);
  std::vector<uint64_t> lastBeat(o.jobs, 0); std::vector<double> lastChange(o.jobs, t0);
  std::vector<int> crashesIn(o.jobs, 0), lastCrashFam(o.jobs, -1);
  for (int i = 0; i < o.jobs; i++) { unlink((o.out + "." + std::to_string(i)).c_str()); }
  fflush(nullptr);
  for (int i = 0; i < o.jobs; i++) {
    pid[i] = fork();
    if (pid[i] == 0) worker(i, o, 0, {}, false, tEnd);
  }
  int alive = o.jobs;
  auto crashed = [&](int i, const char* kind, int sig) {
    Slot& sl = S->slot[i];
    int fi = sl.family;
    std::vector<int> ch;
    for (int k = 0; k < sl.n; k++) ch.push_back(sl.choices[k] & 0xffff);
    bool fresh = !strcmp(kind, "fresh");
    FILE* vf = fresh ? nullptr : fopen((o.out + "." + std::to_string(i)).c_str(), "a");
    if (vf) fprintf(vf, "{\"family\":\"%s\",\"key\":\"%s:%s\",\"msg\":\"%s (signal or status %d)\",\"desc\":\"%s\",\"choices\":%s,\"shard\":%d,\"kind\":\"%s\"}\n",
            fams[fi].name, kind, jesc(sl.site).c_str(), kind, sig, jesc(sl.desc).c_str(), jvec(ch.data(), (int)ch.size()).c_str(), i, kind);
    if (vf) fclose(vf);
    if (!fresh) { S->fam[fi].crashes++; S->fam[fi].cases++; }
    if (lastCrashFam[i] != fi) { lastCrashFam[i] = fi; crashesIn[i] = 0; }
    int startFam = fi; bool resume = true;
    bool hang = !strcmp(kind, "hang");
    crashesIn[i] += hang ? 10 : 1;
    if (crashesIn[i] > 40) { startFam = fi + 1; resume = false; S->fam[fi].capped++; }
    if (startFam >= (int)fams.size()) { alive--; pid[i] = -1; return; }
    sl.beat++;
    fflush(nullptr);
    pid[i] = fork();
    if (pid[i] == 0) worker(i, o, startFam, ch, resume, std::max(tEnd, now() + 0.5));
  };
  while (alive > 0) {
    usleep(1000);
    for (int i = 0; i < o.jobs; i++) {
      if (pid[i] < 0) continue;
      int st;
      if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[i] = -1; alive--; continue; }
        crashed(i, WIFEXITED(st) && WEXITSTATUS(st) == kFresh ? "fresh" : "crash", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        lastChange[i] = now();
        continue;
      }
      uint64_t b = S->slot[i].beat;
      double t = now();
      if (b != lastBeat[i]) { lastBeat[i] = b; lastChange[i] = t; }
      else if (t - lastChange[i] > fams[S->slot[i].family].hangSeconds) {
        kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0);
        crashed(i, "hang", 0);
        lastChange[i] = now();
      }
    }
  }
  FILE* f = fopen(o.out.c_str(), "w");
  fprintf(f, "{\"wall\":%.3f,\"jobs\":%d,\"outcomes\":%llu,\"states\":%llu,\"families\":[", now() - t0, o.jobs,
          (unsigned long long)S->outcomes.count, (unsigned long long)S->states.count);
  bool first = true;
  for (int i = 0; i < (int)fams.size(); i++) {
    if (fams[i].tierMin > o.tier) continue;
    if (!o.onlyFamily.empty() && o.onlyFamily != fams[i].name) continue;
    FamStat& s = S->fam[i];
    fprintf(f, "%s{\"name\":\"%s\",\"rule\":\"%s\",\"cases\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"traces\":%llu,\"extra\":%llu,\"fails\":%llu,\"crashes\":%llu,\"capped\":%llu,\"cpu_s\":%.2f}",
            first ? "" : ",", fams[i].name, jesc(fams[i].rule).c_str(), (unsigned long long)s.cases, (unsigned long long)s.skipped,
            (unsigned long long)s.nontrivial, (unsigned long long)s.transitions, (unsigned long long)s.traces, (unsigned long long)s.extra,
            (unsigned long long)s.fails, (unsigned long long)s.crashes, (unsigned long long)s.capped, s.usec * 1e-6);
    first = false;
  }
  fprintf(f, "],\"violations\":[");
  first = true;
  for (int i = 0; i < o.jobs; i++) {
    std::string p = o.out + "." + std::to_string(i);
    FILE* v = fopen(p.c_str(), "r");
    if (!v) continue;
    char* line = nullptr; size_t n = 0; ssize_t len;
    while ((len = getline(&line, &n, v)) > 0) {
      if (line[len - 1] == '\n') line[len - 1] = 0;
      fprintf(f, "%s%s", first ? "" : ",\n", line); first = false;
    }
    free(line); fclose(v); unlink(p.c_str());
  }
  fprintf(f, "]}\n");
  fclose(f);
  rmrf(scratchRoot);
  return 0;
}

}  // namespace mc

int main(int argc, char** argv) { return mc::run(argc, argv); }
