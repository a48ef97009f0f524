#!/usr/bin/env python3
"""gen_design.py: DESIGN.md = tools/design_head.md + planted changes (tools/seed_results.json) + families of every check."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = open(V + "/tools/design_head.md").read()
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out += "## 6. Planted changes\n`seeded/` holds changes that compile, pass the 112 tests and break a property under specific circumstances. Each was validated by\n`tools/plant.sh` (demo passes before, fails after) and run against its property's quick check.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    id = d.split("/")[-2]; m = json.load(open(d))
    out += "| %s | %s | %s | %s |\n" % (id, m["property"], m["needs"].replace("|", "/"), res.get(id, ""))
if os.path.exists(V + "/tools/design_sweep.md"): out += "\n" + open(V + "/tools/design_sweep.md").read()
out += "\n## 7. Bounds: families of every check\nBounds in parentheses are those of the thorough tier.\n"
for f in sorted(glob.glob(V + "/checks/*.cpp")):
    t = open(f).read()
    fam = re.findall(r'(?:mc::|\b)add(?:T)?\((?:\(std::string\()?"([^"]+)"[^,]*,\s*"([^"]*)"', t)
    out += "\n**%s**\n" % os.path.basename(f)[:-4]
    for a, b in fam: out += "* %s: %s\n" % (a, b)
open(V + "/DESIGN.md", "w").write(out)
