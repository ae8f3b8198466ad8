#!/usr/bin/env python3
"""Writes DESIGN.md (run from /verif) from tools/DESIGN.in.md, the harnesses, known-findings.txt and tools/matrix.txt."""
import glob, json, os, re
from design_props import HOW
props = [json.loads(l) for l in open("properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    fs = sorted(glob.glob("harness/%s_*.cpp" % i.lower()))
    if not fs:
        out.append("### %s %s\n\nNot applicable, see section 3.\n" % (i, p["title"]))
        continue
    out.append("### %s %s\n\n%s\n" % (i, p["title"], HOW[i].strip()))
    for f in fs:
        t = open(f).read()
        out.append("* `%s` – bounds: %s" % (os.path.basename(f), "; ".join(re.findall(r"//\s*@bounds\s*(.*)", t))))
        for a in re.findall(r"//\s*@assume\s*(.*)", t):
            out.append("  Assumptions: " + a + ".")
    out.append("")
kf = open("known-findings.txt").read().split("\n")
fixes = "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, \2: ", l) for l in kf if l.startswith("fixed:"))
finds = "\n".join("* " + re.sub(r"^finding: property=(\S+) id=(\S+) ", r"\1 `\2`: ", l) for l in kf if l.startswith("finding:"))
matrix = ["| change | property | needs | result |", "|---|---|---|---|"]
res = dict(l.split(None, 1) for l in open("tools/matrix.txt").read().split("\n") if l.strip()) if os.path.exists("tools/matrix.txt") else {}
for d in sorted(glob.glob("seeded/*")) :
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    matrix.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), res.get(i, "not run")))
t = open("tools/DESIGN.in.md").read()
for k, v in (("PROPERTIES", "\n".join(out)), ("FIXES", fixes), ("FINDINGS", finds), ("MATRIX", "\n".join(matrix))):
    t = t.replace("{{" + k + "}}", v)
open("DESIGN.md", "w").write(t)
print(len(t.split("\n")), "lines")
