#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the per-property texts below, the
generator rules in checks/*.cc, seeded/*/meta.json, tools/design_tail.md."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import run
T = {}
cur = None
for l in open(os.path.join(H, "tools", "design_props.md")):
    m = re.match(r"## (P\d\d)", l)
    if m: cur = m.group(1); T[cur] = ""
    elif cur: T[cur] += l
grp = {p: g for g, ps in run.GROUPS.items() for p in ps}
out = open(os.path.join(H, "tools", "design_head.md")).read()
out += "\n## Per-property design\n"
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out += "\n### %s — %s\n\n%s\n" % (i, p["title"], T.get(i, "").strip())
    src = open(os.path.join(H, "checks", grp[i] + ".cc")).read()
    subs = re.findall(r'^(SUB|EXH)\(%s, (\w+), ([^,]+(?: \* \d+)?)(?:, \d+)?, "((?:[^"\\]|\\.)*)"\)' % i, src, re.M)
    out += "\nSub-tests (`checks/%s.cc`):\n\n" % grp[i]
    for kind, name, n, rule in subs:
        out += "- `%s`%s: %s\n" % (name, " (exhaustive, %s cases)" % n.strip() if kind == "EXH" else "", rule)
out += "\n" + open(os.path.join(H, "tools", "design_tail.md")).read()
rows = []
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
missed = {}
mf = os.path.join(H, "tools", "missed.txt")
if os.path.exists(mf):
    for l in open(mf):
        if l.strip(): k, v = l.strip().split(" ", 1); missed[k] = v
out += "\n## Planted bugs\n\nEach is caught by the quick check of its property%s.\n\n| id | property | breaks | needs |\n|---|---|---|---|\n" % (
    " unless listed as missed below" if missed else " (confirmed with `VERIF_REPO` pointing at a patched copy, seed 1, and by vcheck)")
out += "\n".join(rows) + "\n"
for k, v in missed.items(): out += "\nMissed: %s — %s\n" % (k, v)
open(os.path.join(H, "DESIGN.md"), "w").write(out)
