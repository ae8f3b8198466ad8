#!/usr/bin/env python3
"""Build, confirm and (optionally) check planted bugs. Development tool; no check uses it.
  plant.py make SPEC.py [ID...]   create seeded/<id>/ from the specs, confirm build+tests+demo in /repo (undone afterwards)
  plant.py check [ID...]          run the check of the property of each seeded bug against a patched copy
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = """#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O0 -w -D_GLIBCXX_ASSERTIONS -DSHARG_HAS_TDL=0 -I include "$d/demo.cpp" -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout 60 ./demo
"""
PRE = """#include <sharg/all.hpp>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace std::string_literals;
using strs = std::vector<std::string>;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::cerr << "line " << __LINE__ << ": " #c "\\n"; bad = 1; } } while (0)
template <typename E, typename F> bool throws(F && f) { try { f(); } catch (E const & e) { return typeid(e) == typeid(E); } catch (...) { return false; } return false; }
template <typename F> bool fine(F && f) { try { f(); } catch (...) { return false; } return true; }
"""

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def make(specfile, ids):
    ns = {}
    exec(open(specfile).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = "%s/seeded/%s" % (V, b["id"])
        tmp = tempfile.mkdtemp(prefix="plant")
        sh("git -C %s worktree prune; git clone -q %s %s/r" % (R, R, tmp))
        ok = True
        for f, old, new in b["edits"]:
            p = "%s/r/%s" % (tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "anchor occurs", s.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(tmp); continue
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
        # the removed lines must be lines of the original repository
        orig = sh("git -C %s show 3ec3fa9:%s" % (R, b["edits"][0][0])).stdout
        own = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig.split("\n")]
        shutil.rmtree(tmp)
        if own:
            print(b["id"], "note: touches own lines:", own[:2])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write((PRE if not b.get("nopre") else "") + b["demo"])
        open(d + "/demo.sh", "w").write(b.get("sh", DEMO))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        confirm(b["id"])

def confirm(i):
    d = "%s/seeded/%s" % (V, i)
    clean = sh("bash %s/demo.sh" % d, cwd=R)
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    try:
        dirty = sh("bash %s/demo.sh" % d, cwd=R)
        t = sh("python3 %s/tools/regress.py" % V)
    finally:
        sh("git -C %s checkout -- ." % R)
    good = a.returncode == 0 and clean.returncode == 0 and dirty.returncode not in (0, 2) and t.returncode == 0
    print(i, "OK" if good else "REJECTED", "apply", a.returncode, "clean", clean.returncode, "patched", dirty.returncode, "tests", t.returncode, flush=True)
    if not good:
        print("   ", (clean.stdout[-1500:] if clean.returncode else "") + (dirty.stdout[-600:] if dirty.returncode == 2 else "") + (t.stdout[-600:] if t.returncode else "") + a.stdout)
    return good

def check(ids):
    for i in ids or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*")):
        d = "%s/seeded/%s" % (V, i)
        m = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="plantc")
        os.chmod(tmp, 0o755)
        sh("git clone -q %s %s/r && git -C %s/r apply %s/patch.diff" % (R, tmp, tmp, d))
        o = sh("python3 %s/vp.py check %s" % (V, m["property"]), env=dict(os.environ, VP_REPO=tmp + "/r"))
        v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, m["property"], "CAUGHT" if o.returncode == 1 and v else "missed rc=%d" % o.returncode, o.stdout.splitlines()[-1][:150] if o.stdout else "", flush=True)
        shutil.rmtree(tmp)

if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "confirm":
    for i in sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*")):
        confirm(i)
else:
    check(sys.argv[2:])
