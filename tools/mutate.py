#!/usr/bin/env python3
"""mutate.py LOG COUNT FILE=CHECK,CHECK...   - mutation sweep: mechanical changes to one line at a time in a scratch copy
(/tmp/mu), each judged by the listed checks in order until one catches it.  Survivors are candidates for missing coverage
(or equivalent mutants): they are looked at by hand."""
import json, os, random, re, subprocess, sys, time
log, count, spec = sys.argv[1], int(sys.argv[2]), [a.split("=") for a in sys.argv[3:]]
W = os.environ.get("MU", "/tmp/mu"); R = W + "/repo"
os.makedirs(R, exist_ok=True)
subprocess.run("cd /repo && git archive HEAD | tar -x -C %s" % R, shell=True, check=True)
SWAP = [(r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
        (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?![.x])", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]),
        (r"(?<=\()!(?=[a-zA-Z])", [""]), (r"\+\+", ["--"]), (r"\bstd::max\b", ["std::min"]), (r"\bstd::min\b", ["std::max"]),
        (r"\bif \((?!constexpr)(.*)\) \{$", ["if (false) {", "if (true) {"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r" % ", [" / "]), (r"\bi\b(?=\])", ["0"])]
def mutants(text):
    out = []
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if re.search(r"= (true|false|0|1|-1)\) [{;]$|= (true|false|0|1|-1),$", s): continue
        if not s or s.startswith(("//", "#", "*", "/*", "ASSERT", "LOG", "static_assert", "template", "using", "case ")) or "LOGE" in s or "ASSERT(" in s: continue
        for pat, reps in SWAP:
            for m in re.finditer(pat, line):
                for rep in reps:
                    new = line[:m.start()] + rep + line[m.end():]
                    if new != line: out.append((n, new))
        if s.endswith(";") and not s.startswith(("return", "auto", "const", "int", "float", "size_t", "Tensor ", "bool", "std::", "break", "continue", "}", "friend", "void", "virtual", "Dim")) and ("=" in s or "(" in s) and not re.match(r"^[\w:<>\*& ]+ [\w]+(\{.*\})?;$", s):
            out.append((n, "  ;"))
    return out
rnd = random.Random(int(os.environ.get("SEED", "1")))
done = set()
if os.path.exists(log):
    for l in open(log): e = json.loads(l); done.add((e["file"], e["line"], e["new"]))
for f, checks in spec:
    text = open(R + "/" + f).read(); lines = text.split("\n")
    ms = mutants(text); rnd.shuffle(ms)
    for n, new in ms[:count]:
        if (f, n + 1, new.strip()) in done: continue
        lines2 = list(lines); lines2[n] = new
        open(R + "/" + f, "w").write("\n".join(lines2))
        res = "SURVIVED"; t = time.time()
        for c in checks.split(","):
            try:
                r = subprocess.run(["python3", "/verif/mc/check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + "/vb"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
                if "compiling" in r.stdout and "failed" in r.stdout: res = "compile"; break
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = c + ": " + next((l for l in r.stdout.split("\n") if l.startswith("  ")), "")[:120]; break
                if r.returncode not in (0, 1) or (r.returncode == 1): res = "ODD rc=%d %s" % (r.returncode, r.stdout[-200:]); break
            except subprocess.TimeoutExpired: res = "ODD timeout " + c; break
        open(R + "/" + f, "w").write(text)
        open(log, "a").write(json.dumps({"file": f, "line": n + 1, "old": lines[n].strip(), "new": new.strip(), "result": res, "s": round(time.time() - t)}) + "\n")
