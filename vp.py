#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vp.py setup            build the engine (LLVM pass, runtime, replay main)
  vp.py check Pnn        decide one property on /repo's current working tree
  vp.py explore FILE     build and explore one harness, print the raw statistics (development)
  vp.py replay FILE      replay a file written by a failed check

A harness is a C++ file harness/pnn_*.cpp. Directives in its comments:
  // @bounds TEXT        what is symbolic and how far
  // @assume TEXT        stubs and assumptions
  // @cover A, B, ...    labels that must be reached (vacuity guard)
  // @variant NAME FLAGS build this harness once per variant (default: one variant without flags)
  // @thorough NAME FLAGS   variant only in the thorough tier
  // @budget QUICK THOROUGH seconds of exploration
  // @asan               replay of the witnesses also under AddressSanitizer/UBSan
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
ENG = os.path.join(HERE, "engine")
HAR = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, timeout=900, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


# ------------------------------------------------------------------------------------------ engine
def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(ENG + "/*")):
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def engine():
    """Build the engine if it is missing; returns its directory."""
    d = os.path.join(BUILD, "engine-" + engine_hash())
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + "/ok"):
            os.makedirs(d, exist_ok=True)
            with cf.ThreadPoolExecutor(4) as ex:
                fs = [
                    ex.submit(sh, "clang++-18 -std=c++17 -O1 -fPIC -shared $(llvm-config-18 --cxxflags | "
                                  "sed 's/-std=[^ ]*//') %s/pass.cpp -o %s/pass.so" % (ENG, d)),
                    ex.submit(sh, "g++ -std=c++20 -O2 -c %s/rt.cpp -o %s/rt.o" % (ENG, d)),
                    ex.submit(sh, "g++ -std=c++20 -O0 -c %s/replay.cpp -I%s -o %s/replay.o" % (ENG, ENG, d)),
                ]
                for f in fs:
                    f.result()
            open(d + "/ok", "w").close()
            for o in glob.glob(BUILD + "/engine-*"):
                if o != d:
                    shutil.rmtree(o, ignore_errors=True)
    return d


# ------------------------------------------------------------------------------------------ harness
class Harness:
    def __init__(self, path, variant, flags, meta):
        self.path, self.variant, self.flags, self.meta = path, variant, flags, meta
        self.name = os.path.basename(path)[:-4] + ("-" + variant if variant else "")
        self.sym = self.rep = self.asan = None
        self.error = None


def load(path):
    meta = {"bounds": [], "assume": [], "cover": [], "budget": (40, 400), "asan": False}
    variants = []
    for line in open(path):
        m = re.match(r"\s*//\s*@(\w+)\s*(.*)$", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ("bounds", "assume"):
            meta[k].append(v)
        elif k == "cover":
            meta["cover"] += [x.strip() for x in v.split(",") if x.strip()]
        elif k == "budget":
            meta["budget"] = tuple(float(x) for x in v.split())
        elif k == "asan":
            meta["asan"] = True
        elif k == "variant" or (k == "thorough" and TIER == "thorough"):
            n, _, f = v.partition(" ")
            variants.append((n, f.split()))
    return [Harness(path, n, f, meta) for n, f in (variants or [("", [])])]


INC = ["-I" + ENG, "-I" + HAR, "-I" + os.path.join(REPO, "include"), "-DSHARG_HAS_TDL=0"]


def tierflag():
    return ["-DVP_TIER=%d" % (1 if TIER == "thorough" else 0)]


def build_sym(h, d, out):
    t = time.time()
    b = os.path.join(out, h.name)
    e = engine()
    sh(["clang++-18", "-std=c++20", "-include", ENG + "/pre.h", "-D_GLIBCXX_ASSERTIONS", "-fno-pic", "-fno-pie", "-mno-avx",
        "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables", "-fno-builtin-printf", "-DVP_SYMBOLIC", "-w"] + INC +
       tierflag() + h.flags + ["-O1", "-fpass-plugin=" + e + "/pass.so", "-emit-llvm", "-c", h.path, "-o", b + ".bc"])
    sh(["llc-18", "-O0", "-relocation-model=static", "-filetype=obj", b + ".bc", "-o", b + ".o"])
    sh(["g++", "-no-pie", b + ".o", e + "/rt.o", "-lz3", "-lpthread", "-o", b + ".sym"])
    os.remove(b + ".bc")
    os.remove(b + ".o")
    h.sym = b + ".sym"
    h.t_sym = time.time() - t


def build_rep(h, d, out):
    e = engine()
    b = os.path.join(out, h.name)
    sh(["g++", "-std=c++20", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS"] + INC + tierflag() + h.flags + [h.path, e + "/replay.o", "-o", b + ".rep"])
    h.rep = b + ".rep"


def build_asan(h, d, out):
    e = engine()
    b = os.path.join(out, h.name)
    sh(["g++", "-std=c++20", "-O0", "-w", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-sanitize=vptr"] + INC + tierflag() + h.flags + [h.path, e + "/replay.o", "-o", b + ".asan"])
    h.asan = b + ".asan"


def unpriv(out):
    """Arguments that run the code under test as an unprivileged user, if that works here."""
    if os.geteuid() != 0:
        return {}
    kw = {"user": 65534, "group": 65534, "extra_groups": []}
    try:
        t = os.path.join(out, "probe.sh")
        open(t, "w").write("#!/bin/sh\n: > %s/probe.out\n" % out)
        os.chmod(t, 0o755)
        subprocess.run([t], check=True, **kw)
        return kw
    except Exception:
        return {}


ENVV = {"VP_DEBUG": os.environ.get("VP_DEBUG", ""), **({"VP_LEAKABORT": "1"} if os.environ.get("VP_LEAKABORT") else {}), "PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0",
        "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1"}


def explore(h, out, kw, budget, workers=NCPU):
    js, paths = os.path.join(out, h.name + ".json"), os.path.join(out, h.name + ".paths")
    dump = os.path.join(out, h.name + ".smt")
    cmd = ["prlimit", "--core=0", h.sym, "--out", js, "--paths", paths, "--budget", str(budget), "--workers", str(workers),
           "--dump", dump, "--dump-mod", "41"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out, env=ENVV, timeout=budget + 240,
                           start_new_session=True, **kw)
    except subprocess.TimeoutExpired:
        raise BuildError("exploration of %s did not stop" % h.name)
    if not os.path.exists(js):
        raise BuildError("exploration of %s gave no result (exit %s): %s" % (h.name, p.returncode, p.stdout[-2000:].decode(errors="replace")))
    if ENVV["VP_DEBUG"]:
        open("/tmp/dbg", "wb").write(p.stdout)
    h.res = json.load(open(js))
    h.paths_file = paths
    h.dump = dump
    return h.res


def replay_one(binary, tape, out, kw, timeout=100):
    try:
        p = subprocess.run(["prlimit", "--core=0", binary, "--tape", tape], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out,
                           env=ENVV, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 1, "replay: violated (no end within %d s)\n" % timeout


def replay_batch(binary, paths_file, limit, npaths, out, kw, timeout=200):
    """Replays recorded path witnesses; returns ok, mismatched, failed, bad tapes, error."""
    stride = max(1, (npaths + limit - 1) // limit)

    def one(i):
        try:
            p = subprocess.run(["prlimit", "--core=0", binary, "--batch", paths_file, str(limit), str(stride * NCPU), str(i * stride)],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=out, env=ENVV, timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            return 0, 0, 0, [], "timeout"
        t = p.stdout.decode(errors="replace")
        m = re.search(r"validated (\d+) mismatched (\d+) failed (\d+)", t)
        bad = re.findall(r"# (failed|mismatch) tape ([0-9a-f]*)", t)
        if not m:
            return 0, 0, 0, bad, "no result: " + t[-500:]
        return int(m.group(1)), int(m.group(2)), int(m.group(3)), bad, ""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        r = list(ex.map(one, range(NCPU)))
    return sum(x[0] for x in r), sum(x[1] for x in r), sum(x[2] for x in r), sum((x[3] for x in r), []), "; ".join(sorted({x[4] for x in r if x[4]}))


def cross_check(h, out, limit):
    """Re-decides a sample of the discharged queries with cvc5 and the newer z3."""
    if not os.path.exists(h.dump):
        return 0, 0, 0
    blocks = [b for b in open(h.dump, errors="replace").read().split(";;;;\n") if "(check-sat)" in b]

    def one(ib):
        i, b = ib
        m = re.search(r"; expect (sat|unsat)", b)
        if not m:
            return None
        f = os.path.join(out, "q%d.smt2" % i)
        open(f, "w").write(b)
        tool = ["cvc5", "--tlimit=5000", f] if i % 2 == 0 else ["z3-new", "-T:5", f]
        try:
            r = subprocess.run(tool, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20).stdout
        except Exception:
            r = ""
        got = "unsat" if re.search(r"(?m)^unsat", r) else "sat" if re.search(r"(?m)^sat", r) else "?"
        return "?" if "(error" in r or got == "?" else got == m.group(1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        r = list(ex.map(one, enumerate(blocks[:limit])))
    return sum(x is True for x in r), sum(x is False for x in r), r.count("?")


def known_findings():
    k = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)$", l)
            if m:
                k[(m.group(1), m.group(2))] = m.group(3).strip()
    return k


def demangle(names):
    try:
        return subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except Exception:
        return names


def tape_text(h, tape, out, kw):
    rc, t = replay_one(h.rep, tape, out, kw)
    return rc, t


def check(pid):
    files = sorted(glob.glob(os.path.join(HAR, pid.lower() + "_*.cpp")))
    if not files:
        log("no harness for", pid)
        return 2
    hs = [h for f in files for h in load(f)]
    out = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=BUILD if os.path.isdir(BUILD) else None) if False else None
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    os.chmod(out, 0o777)
    try:
        return check_in(pid, hs, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def check_in(pid, hs, out):
    kw = unpriv(out)
    thorough = TIER == "thorough"
    errors, violations, notes = [], [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        jobs = {}
        for h in hs:
            jobs[h, "sym"] = ex.submit(build_sym, h, None, out)
        for h in hs:
            jobs[h, "rep"] = ex.submit(build_rep, h, None, out)
        for h in hs:
            if h.meta["asan"] or thorough:
                jobs[h, "asan"] = ex.submit(build_asan, h, None, out)
        # explore each harness as soon as it is built
        for h in hs:
            h.res = None
            try:
                jobs[h, "sym"].result()
                explore(h, out, kw, h.meta["budget"][1 if thorough else 0])
                r = h.res
                log("%s: %d paths%s, %d branches, %d queries (%d sat, %d unsat, %d unknown; %.1f s solver), %d assertions, %.1f s" % (
                    h.name, r["paths"], "" if r["complete"] else " (NOT exhaustive within the budget)", r["branches"],
                    r["q_sat"] + r["q_unsat"] + r["q_unknown"], r["q_sat"], r["q_unsat"], r["q_unknown"], r["solver_us"] / 1e6,
                    r["asserts_solver"] + r["asserts_path"], r["wall_s"]))
            except (BuildError, subprocess.TimeoutExpired) as e:
                h.error = str(e)
                errors.append("%s: %s" % (h.name, e))
        for h in hs:
            for k in ("rep", "asan"):
                if (h, k) in jobs:
                    try:
                        jobs[h, k].result()
                    except (BuildError, subprocess.TimeoutExpired) as e:
                        errors.append("%s: %s" % (h.name, e))
    known = known_findings()
    seen_known = {}
    samples, val_ok, val_mis, val_fail, agree, disagree, unk = [], 0, 0, 0, 0, 0, 0
    asan_runs = 0
    for h in hs:
        r = h.res
        if r is None or not h.rep:
            continue
        # counterexamples: replay against the real build before reporting
        cands = [(v["kind"] + ": " + v["msg"], v["tape"]) for v in r["violations"]]
        for f in r["findings"]:
            key = (pid, f["name"] if "name" in f else f["id"])
            if key in known:
                seen_known[key] = known[key]
            else:
                cands.append(("unlisted finding " + key[1], f["tape"]))
        lim = 60000 if thorough else 3000
        ok, mis, fail, bad, err = replay_batch(h.rep, h.paths_file, lim, max(1, r["paths"]), out, kw, 600 if thorough else 120)
        if err:
            notes.append("%s: witness replay incomplete: %s" % (h.name, err))
        val_ok, val_mis, val_fail = val_ok + ok, val_mis + mis, val_fail + fail
        for kind, tape in bad:
            if kind == "failed":
                cands.append(("replay of a path witness violates the property", tape))
            else:
                notes.append("%s: replay of path witness %s differs from the symbolic path" % (h.name, tape))
        if h.asan:
            ok, mis, fail, bad, err = replay_batch(h.asan, h.paths_file, 20000 if thorough else 700, max(1, r["paths"]), out, kw,
                                                   900 if thorough else 120)
            asan_runs += ok + mis + fail
            if err:
                notes.append("%s: sanitizer replay incomplete: %s" % (h.name, err))
            for kind, tape in bad:
                if kind == "failed":
                    cands.append(("sanitizer report on a path witness", tape))
        for msg, tape in cands[:6]:
            conf, text = None, ""
            for b in [h.rep] + ([h.asan] if h.asan else []):
                rc, text = replay_one(b, tape, out, kw)
                if msg.startswith("unlisted finding"):
                    rc = 1 if "FINDING" in text else rc
                if rc:
                    conf = b
                    break
            if conf:
                violations.append((h, msg, tape, text))
            else:
                notes.append("%s: UNCONFIRMED (did not reproduce on the real build): %s tape=%s" % (h.name, msg, tape))
        # vacuity guard
        have = {l["name"] for l in r["labels"]}
        miss = [c for c in h.meta["cover"] if c not in have]
        if miss and r["complete"] and not cands:
            notes.append("%s: labels never reached: %s" % (h.name, ", ".join(miss)))
        for l in sorted(r["labels"], key=lambda l: l["name"])[:4]:
            if len(samples) < 12:
                rc, t = replay_one(h.rep, l["tape"], out, kw)
                samples.append({"harness": h.name, "label": l["name"], "paths": l["count"], "tape": l["tape"],
                                "replay": [x.strip() for x in t.split("\n") if x.strip()][:8]})
        a, d, u = cross_check(h, out, 200 if thorough else 16)
        agree, disagree, unk = agree + a, disagree + d, unk + u
    done = [h for h in hs if h.res]
    tot = lambda k: sum(h.res[k] for h in done)
    funcs = sorted({f for h in done for f in h.res["functions"]})
    dem = [f for f in demangle(funcs) if "sharg" in f]
    exhaustive = bool(done) and len(done) == len(hs) and all(h.res["complete"] for h in done)
    trouble = tot("q_unknown") + tot("diverged") + tot("leaks") + tot("unsup") + tot("dropped") + tot("outside") + tot("timeouts") if done else 0
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the real code (clang -O1 LLVM IR of /repo/include, regenerated on this run): states = "
                           "feasible execution paths explored to their end, transitions = symbolic branch decisions taken; every assertion "
                           "on a path is decided by z3 (or follows from the path condition) for all values of the symbolic bytes.",
            "states": tot("paths") if done else 0,
            "transitions": tot("branches") if done else 0,
            "traces_validated_against_impl": val_ok,
            "traces_mismatched": val_mis, "sanitizer_replays": asan_runs,
            "pruned_by_assumption": tot("pruned") if done else 0,
            "assertions_decided_by_query": tot("asserts_solver") if done else 0,
            "assertions_decided_by_path_condition": tot("asserts_path") if done else 0,
            "queries": {"sat": tot("q_sat"), "unsat": tot("q_unsat"), "unknown": tot("q_unknown"), "answered_from_cache": tot("q_cached"),
                        "solver_seconds": round(tot("solver_us") / 1e6, 3), "solver": "z3 4.8.12 (C API)"} if done else {},
            "cross_checked_queries": {"agree": agree, "disagree": disagree, "undecided": unk, "solvers": "cvc5 1.1.2, z3-new"},
            "exhaustive": exhaustive and trouble == 0,
            "engine": {k: tot(k) for k in ("diverged", "stale", "leaks", "unsup", "conc", "symload", "outside", "timeouts", "crashed", "dropped",
                                           "queue_left", "nodes")} if done else {},
            "bounds": [h.name + ": " + b for h in hs for b in h.meta["bounds"]],
            "harnesses": {h.name: {"paths": h.res["paths"], "complete": h.res["complete"], "explore_s": h.res["wall_s"],
                                   "labels": {l["name"]: l["count"] for l in h.res["labels"]}} for h in done},
            "functions_encoded": dem, "functions_encoded_total": len(funcs),
            "samples": samples,
            "notes": notes + errors,
        },
        "assumptions": sorted({a for h in hs for a in h.meta["assume"]}) + [
            "clang 18 -O1 IR of the headers with libstdc++ 13 templates instantiated in the same unit; code inside libstdc++.so/libc is run "
            "concretely and must not receive symbolic bytes (leaks are counted)",
            "nothing is claimed beyond the stated bounds"],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for k, v in sorted(seen_known.items()):
        log("KNOWN-FINDING: property=%s %s: %s" % (k[0], k[1], v))
    for n in notes:
        log("note:", n)
    if violations:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        h, msg, tape, text = violations[0]
        f = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256((h.name + tape).encode()).hexdigest()[:10]))
        json.dump({"property": pid, "harness": os.path.relpath(h.path, HERE), "flags": h.flags, "tier": TIER, "tape": tape, "message": msg,
                   "output": text}, open(f, "w"), indent=1)
        for l in text.split("\n")[:30]:
            log("   ", l)
        log("violated: %s (%s)" % (msg, h.name))
        log("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if errors:
        for e in errors:
            log("ERROR:", e)
        return 2
    log("%s: held on everything explored (%.1f s)" % (pid, time.time() - T0))
    return 0


def cmd_explore(path, budget):
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix="dev-", dir=BUILD)
    os.chmod(out, 0o777)
    kw = unpriv(out)
    try:
        for h in load(path):
            with cf.ThreadPoolExecutor(3) as ex:
                a = ex.submit(build_sym, h, None, out)
                b = ex.submit(build_rep, h, None, out)
                a.result()
                t = time.time()
                r = explore(h, out, kw, budget)
                b.result()
            print("==", h.name, "built in %.1f" % h.t_sym, {k: v for k, v in r.items() if not isinstance(v, list)})
            for l in sorted(r["labels"], key=lambda l: l["name"]):
                print("  label", l["name"], l["count"])
            for c in h.meta["cover"]:
                if c not in {l["name"] for l in r["labels"]}:
                    print("  MISSING LABEL", c)
            for l in r["leak_sites"]:
                print("  leak", l)
            t = time.time()
            print("  batch", replay_batch(h.rep, h.paths_file, 3000, r["paths"], out, kw), "%.1f s" % (time.time() - t))
            for v in (r["violations"] + [dict(kind="finding", msg=f.get("name"), tape=f["tape"]) for f in r["findings"]])[:10]:
                print("  VIOL", v["kind"], v["msg"], v["tape"])
                print("    " + replay_one(h.rep, v["tape"], out, kw)[1].replace("\n", "\n    "))
    finally:
        if os.environ.get("KEEP"):
            print("kept", out)
        else:
            shutil.rmtree(out, ignore_errors=True)


def cmd_replay(f):
    j = json.load(open(f))
    global TIER
    TIER = j["tier"]
    out = tempfile.mkdtemp(prefix="rep-", dir=BUILD)
    os.chmod(out, 0o777)
    try:
        h = Harness(os.path.join(HERE, j["harness"]), "replay", j["flags"], {})
        build_rep(h, None, out)
        rc, t = replay_one(h.rep, j["tape"], out, unpriv(out))
        if rc == 0:
            build_asan(h, None, out)
            rc, t = replay_one(h.asan, j["tape"], out, unpriv(out))
        print(t)
        return 1 if rc else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    c = sys.argv[1] if len(sys.argv) > 1 else ""
    if c == "setup":
        log("engine:", engine())
    elif c == "check":
        sys.exit(check(sys.argv[2]))
    elif c == "explore":
        for p in sys.argv[2:]:
            try:
                cmd_explore(p, float(os.environ.get("BUDGET", "60")))
            except BuildError as e:
                print(e)
    elif c == "replay":
        os.makedirs(BUILD, exist_ok=True)
        sys.exit(cmd_replay(sys.argv[2]))
    else:
        print(__doc__)
        sys.exit(2)
