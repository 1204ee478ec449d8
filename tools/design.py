"""assemble DESIGN.md and the fixed entries of KNOWN_FINDINGS.json"""
import ast, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design_data import HOW, NOTES
from fix_data import FIXES, OPEN
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for pid, subj, what in FIXES:
    m = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + subj)]
    assert len(m) == 1, (subj, m)
    fixed.append((pid, m[0].split()[0], what))
n_fix = sum(" fix:" in l for l in log)
assert n_fix == len(fixed), (n_fix, len(fixed))
json.dump(OPEN + [{"id": "F%02d" % (i + 1), "property": p, "status": "fixed", "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)} for i, (p, c, w) in enumerate(fixed)],
          open(os.path.join(ROOT, "KNOWN_FINDINGS.json"), "w"), indent=1)
head = open(os.path.join(HERE, "design_head.md")).read()
out = [head.rstrip() + "\n"]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
out.append("\n## Per property\n")
for p in props:
    pid = p["id"]
    if pid in na:
        out.append("### %s %s\nNot applicable: %s\n" % (pid, p["title"], na[pid])); continue
    t = ast.parse(open(os.path.join(ROOT, "checks", pid.lower() + ".py")).read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS")}
    out.append("### %s %s\n%s\n\n* bounds: %s\n* outside: %s\n%s" % (pid, p["title"], HOW[pid], d["BOUNDS"], d.get("OUTSIDE", "-"), "".join("* assumption: %s\n" % a for a in d.get("ASSUMPTIONS", []))))
out.append("\n## Genuine defects found by the checks and repaired (one `fix:` commit each)\n")
out += ["* %s `%s` %s" % (p, c, w) for p, c, w in fixed]
if OPEN:
    out.append("\n## Known findings (recorded, not repaired)\n")
    out += ["* %s: %s" % (o["property"], o["what"]) for o in OPEN]
out.append(NOTES)
res = os.path.join(HERE, "catch.json")
if os.path.exists(res):
    c = json.load(open(res))
    out.append("## Planted changes and the checks that catch them\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|")
    for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), c.get("seeds", {}).get(s, "-")))
    out.append("\n" + c.get("mutation", ""))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
