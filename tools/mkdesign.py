"""Rewrites the generated tables of DESIGN.md (repairs, planted bugs) from known_findings.json, seeded/ and tools/caught.json (results of runs, by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
k = json.load(open(V + "/known_findings.json"))["fixed"]
fix = "| property | commit | what failed |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (m[1], m[2][:9], m[3].replace("|", "\\|")) for m in (re.match(r"fixed: property=(\S+) (\S+) (.*)", x) for x in k))
caught = json.load(open(V + "/tools/caught.json"))
rows = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows += f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run yet')} |\n".replace("\n", " ").rstrip() + "\n"
for name, text in (("FIXES", fix), ("SEEDS", rows)):
    s = re.sub(f"(?s)(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m[1] + text + m[2], s)
open(V + "/DESIGN.md", "w").write(s)
