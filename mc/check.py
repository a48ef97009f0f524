#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  - builds, explores, replays, reports, writes the evidence file.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from config import CHECKS

VERIF = build.VERIF
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=127:max_malloc_fill_size=1048576:free_fill_byte=85:"
           "max_free_fill_size=65536:abort_on_error=1:quarantine_size_mb=32:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_sigtrap=0:use_sigaltstack=0:print_summary=1:detect_odr_violation=0")

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            e = json.loads(l)
            if e["property"] == prop: out.append(e)
    return out

def replay(exe, v, tier):
    cmd = [exe, "--tier", tier, "--replay", v["family"], ",".join(map(str, v["choices"]))]
    try:
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400)
    except subprocess.TimeoutExpired:
        return 3, "no answer within 400 s", cmd
    return r.returncode, r.stdout[-3000:] + "\n" + r.stderr[-6000:], cmd

def run_check(pid, tier):
    cfg = CHECKS[pid]
    t0 = time.time()
    exe = build.build(pid, cfg["harness"], **cfg.get("build", {}))
    tb = time.time() - t0
    out = os.path.join(build.BUILD, "out_%s_%d.json" % (pid, os.getpid()))
    budget = cfg.get("budget_thorough", 600) if tier == "thorough" else cfg.get("budget_quick", 60)
    jobs = os.cpu_count() or 8
    r = subprocess.run([exe, "--tier", tier, "--jobs", str(jobs), "--budget", str(budget), "--out", out], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.returncode != 0 or not os.path.exists(out):
        print("explorer failed: rc=%d\n%s%s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:])); return 2
    res = json.load(open(out)); os.unlink(out)
    known = known_findings(pid)
    groups = {}
    for v in res["violations"]:
        k = (v["family"], v["key"])
        # smallest counterexample first
        if k not in groups or (len(v["choices"]), v["choices"]) < (len(groups[k]["choices"]), groups[k]["choices"]): groups[k] = v
    new, seen_known, unreproduced = [], {}, []
    for (fam, key), v in sorted(groups.items()):
        m = [e for e in known if e["family"] == fam and e["key"] == key]
        if m: seen_known[(fam, key)] = (m[0], v); continue
        new.append(v)
    reported = 0
    rdir = os.path.join(build.BUILD, "replays"); os.makedirs(rdir, exist_ok=True)
    lines = []
    for v in new[:40]:
        rc, text, cmd = replay(exe, v, tier)
        mode = "case"
        if rc != 3:
            # only reproducible after the cases before it: replay the shard's sequence up to it
            v2 = dict(v); cmd2 = [*cmd, "--seq", str(v["shard"]), str(jobs)]
            try:
                rr = subprocess.run(cmd2, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
                rc, text, cmd, mode = rr.returncode, rr.stdout[-3000:] + "\n" + rr.stderr[-6000:], cmd2, "sequence"
            except subprocess.TimeoutExpired:
                pass
        if rc != 3:
            unreproduced.append(v); continue
        path = os.path.join(rdir, "%s-%d.json" % (pid, reported))
        json.dump({"property": pid, "tier": tier, "family": v["family"], "key": v["key"], "case": v["desc"], "what": v["msg"],
                   "choices": v["choices"], "mode": mode, "replay_cmd": "VERIF: python3 mc/check.py %s %s builds; then: %s" % (pid, tier, " ".join(cmd)),
                   "replay_output": text}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s/%s: %s | %s" % (v["family"], v["key"], v["msg"][:400], v["desc"][:300]))
        reported += 1
        if reported >= 12: break
    for l in lines: print(l)
    for v in unreproduced:
        print("NOTE: not reproduced on replay, not reported: %s/%s %s" % (v["family"], v["key"], v["desc"][:200]))
    for e in known:
        hit = seen_known.get((e["family"], e["key"]))
        print("KNOWN-FINDING: property=%s %s%s" % (pid, e["what"], "" if hit else " (not reached in this run)"))
    fam = res["families"]
    tot = lambda k: sum(f[k] for f in fam)
    samples = []
    for f in fam[:6]:
        s = subprocess.run([exe, "--tier", tier, "--replay", f["name"], ""], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        first = s.stdout.split("\n")[0][:300]
        samples.append("%s: %s" % (f["name"], first))
    cov = {"families": [{k: f[k] for k in ("name", "rule", "cases", "skipped", "nontrivial", "transitions", "fails", "crashes", "capped", "cpu_s")} for f in fam],
           "evaluations": tot("cases") + tot("extra"), "distinct_nontrivial": tot("nontrivial"), "distinct_outcomes": res["outcomes"],
           "rule": cfg["rule"], "samples": samples, "exhaustive": all(f["capped"] == 0 for f in fam),
           "bounds": cfg.get("bounds", ""), "build_s": round(tb, 1)}
    if cfg["level"] == "model_checking":
        cov["states"] = res["states"]; cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("traces")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": cfg["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": cfg.get("assumptions", []), "violations": reported}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases (%d nontrivial, %d skipped), %d states, %d transitions, %d distinct outcomes, %s, build %.1fs, total %.1fs" %
          (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], tot("skipped"), res["states"], tot("transitions"), res["outcomes"],
           "exhaustive" if cov["exhaustive"] else "CAPPED: " + ",".join(f["name"] for f in fam if f["capped"]), tb, time.time() - t0))
    if os.environ.get("MC_VERBOSE"):
        for f in fam: print("   ", {k: f[k] for k in ("name", "cases", "skipped", "nontrivial", "fails", "crashes", "capped", "cpu_s")})
    return 1 if reported else 0

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(run_check(pid, tier))
    except build.BuildError as e:
        print(str(e)); sys.exit(2)

if __name__ == "__main__": main()
