"""mkseed.py: reads a seed description (python file defining SEEDS) and writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, runpy, tempfile, shutil
REPO = "/repo"
SH = '''#!/bin/bash
# exit 0: behaves as the property says
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -w -Isrc -Ithird_party "$d/demo.cpp" %s _build/src/libTinyTorch_lib.a -lpthread -o "$t/demo" || exit 1
cd "$t" && timeout 120 ./demo
'''
def main(path, only):
    seeds = runpy.run_path(path)["SEEDS"]
    for s in seeds:
        if only and s["id"] not in only: continue
        d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        files = {}
        for f, old, new in s["edits"]:
            txt = files.get(f) or open(REPO + "/" + f).read()
            n = txt.count(old)
            if n != 1: print(s["id"], "edit matches", n, "times in", f, repr(old[:60])); shutil.rmtree(t); return 1
            files[f] = txt.replace(old, new)
        out = ""
        for f, txt in files.items():
            os.makedirs(t + "/b/" + os.path.dirname(f), exist_ok=True)
            open(t + "/b/" + f, "w").write(txt)
            r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, REPO + "/" + f, t + "/b/" + f], capture_output=True, text=True)
            out += "diff --git a/%s b/%s\n" % (f, f) + r.stdout
        shutil.rmtree(t)
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(s.get("sh") or SH % s.get("extra", ""))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = subprocess.run(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"]); print(s["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
main(sys.argv[1], set(sys.argv[2:]))
