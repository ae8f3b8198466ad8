#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif): one check per property that has a harness."""
import glob, json, re, sys
NA = {
 "P33": "the exporter lives in the TDL library, a git submodule that is not checked out here, so format_tdl.hpp is not compiled (SHARG_HAS_TDL=0) and there is no code to encode",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    fs = sorted(glob.glob("harness/%s_*.cpp" % i.lower()))
    if not fs:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
        continue
    t = "".join(open(f).read() for f in fs)
    b = "; ".join(re.findall(r"//\s*@bounds\s*(.*)", t))
    checks.append({
        "property": i,
        "quick_cmd": "python3 vp.py check " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 vp.py check " + i,
        "technique": "symbolic execution of the LLVM IR of the real headers, path conditions and assertions decided by z3",
        "level": "model_checking",
        "level_note": "All values within the bounds: " + b + ". Counterexamples are replayed on an uninstrumented g++ build before they are reported."
    })
json.dump({"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
