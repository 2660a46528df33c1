#!/usr/bin/env python3
"""Driver of every check:  check.py C01   (VERIF_TIER=quick|thorough, REPO=/repo by default)
   builds the check's exploration programs from the current tree, runs them to exhaustion, writes the evidence file.
   exit 0: the property held on everything explored;  exit 1 + VIOLATION line: it is broken.
   check.py --replay replays/C01.json   replays one recorded violation."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 4

O0, O2 = ["-O0"], ["-O2"]
LIBS = ["-lmpfr", "-lgmpxx", "-lgmp"]
# id -> list of (unit name, source, extra flags).  UNIT_MINI: enumerable number formats (optimised build);
# UNIT_HW: float / double / long double through the real rounding control (unoptimised: exact evaluation order).
CHECKS = {}
def unit(cid, name, src, flags): CHECKS.setdefault(cid, []).append((name, src, flags))
def std_units(cid, src, extra=[]):
    unit(cid, "mini", src, O2 + ["-DUNIT_MINI"] + extra)
    unit(cid, "hw", src, O0 + ["-DUNIT_HW"] + extra)
exec(open(os.path.join(HERE, "units.py")).read())

def known_keys(cid):
    keys = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=\{(.*)\} ::\s*(.*)$", line.rstrip("\n"))
        if m and m.group(1) == cid: keys.append((m.group(2), m.group(3)))
    return keys

def build_one(cid, u):
    name, src, flags = u
    bdir = os.path.join(HERE, "build", cid)
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, name)
    cxx = "g++"
    fl = list(flags)
    if fl and fl[0].startswith("CXX="): cxx = fl.pop(0)[4:]
    cmd = [cxx, "-std=c++17", "-frounding-math", "-w"] + (["-DTHOROUGH"] if TIER == "thorough" else []) + fl + ["-I" + os.path.join(REPO, "include"), os.path.join(HERE, "checks", src), "-o", out] + LIBS + ["-pthread"]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return name, out, r.returncode, r.stdout, time.time() - t, cmd

def run(binary, args, timeout):
    env = dict(os.environ, VERIF_TIER=TIER)
    r = subprocess.run([binary] + args, env=env, timeout=timeout)
    return r.returncode

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    cid = sys.argv[1]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", cid)
    shutil.rmtree(bdir, ignore_errors=True)
    units = CHECKS[cid]
    with cf.ThreadPoolExecutor(JOBS) as ex: built = list(ex.map(lambda u: build_one(cid, u), units))
    for name, out, rc, log, dt, cmd in built:
        if rc:
            print(log[-6000:])
            if any("error:" in l and l.startswith(os.path.join(REPO, "include") + os.sep) for l in log.splitlines()): return unusable(cid, name, cmd, log, t0)
            print("ERROR: unit %s of %s does not build: %s" % (name, cid, " ".join(cmd))); return 2
        print("built %s/%s in %.1fs" % (cid, name, dt))
    known = known_keys(cid)
    kf = os.path.join(bdir, "known.txt"); open(kf, "w").write("".join(k + "\n" for k, _ in known))
    suites, viol, seen = [], None, []
    for name, out, *_ in built:
        js = out + ".json"
        rc = run(out, ["--out", js, "--jobs", str(JOBS), "--known", kf], 3600)
        if rc not in (0, 1): print("ERROR: unit %s of %s ended with status %d" % (name, cid, rc)); return 2
        d = json.load(open(js))
        for s in d["suites"]: s["unit"] = name
        suites += d["suites"]; seen += d["known_seen"]
        if rc == 1:
            v = d["violation"]; v["unit"] = name
            ok = run(out, ["--replay", v["suite"], str(v["state"]), "--known", kf], 3600) == 1
            how = "replayed alone in a fresh process"
            if not ok:   # the state alone does not fail: does the exploration (which has a history) fail again?
                for extra in (["--jobs", "1"], ["--jobs", str(JOBS)]):
                    if run(out, ["--out", js, "--only", v["suite"], "--known", kf] + extra, 3600) == 1:
                        ok = True; v2 = json.load(open(js))["violation"]; v2["unit"] = name; v = v2
                        how = "depends on earlier states of the same process; repeated by a second exploration"; break
            if ok: v["confirmed"] = how; viol = v; break
            print("note: %s state %s did not reproduce; not reported" % (v["suite"], v["state"]))
    cov = {
        "states": sum(s["states"] for s in suites),
        "transitions": sum(s["transitions"] for s in suites),
        "traces_validated_against_impl": sum(s["states"] for s in suites if s["hw"]),
        "exhaustive": viol is None and all(s["states"] == s["space"] for s in suites),
        "samples": [x for s in suites[::max(1, len(suites) // 20)] for x in s["samples"][1:2]][:20],
        "explanation": "states: points of the bounded space visited; transitions: library calls judged against the oracle; "
                       "traces_validated_against_impl: states executed on the hardware number formats (the others execute the same library code on enumerable model formats)",
        "bounds": sorted({s["bound"] for s in suites}),
        "suites": {s["unit"] + ": " + s["name"]: "visited %d of %d states, %d transitions, %d outcomes, %.2f s" % (s["states"], s["space"], s["transitions"], s["distinct_outcomes"], s["wall_s"]) for s in suites},
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": cid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUMPTIONS.get(cid, []) + ASSUMPTIONS["*"], "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (cid, what) + ("" if k in seen else " (not met in this run)"))
    print("%s %s: %d states, %d transitions, %.1fs" % (cid, TIER, cov["states"], cov["transitions"], time.time() - t0))
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", cid + ".json")
        json.dump(dict(viol, property=cid, tier=TIER), open(rp, "w"), indent=1)
        print("%s\n  %s\n  (%s)" % (viol["describe"], viol["msg"], viol["confirmed"]))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    return 0

def unusable(cid, name, cmd, log, t0):
    """The library itself does not compile for a use the property covers: nothing can be explored, the property does not hold."""
    errs = [l for l in log.splitlines() if "error:" in l][:5]
    for d in ("evidence", "replays"): os.makedirs(os.path.join(HERE, d), exist_ok=True)
    json.dump({"property": cid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False, "samples": errs,
                            "explanation": "unit %s was not explored: the library does not compile for the operations it instantiates" % name},
               "assumptions": ASSUMPTIONS["*"], "wall_s": round(time.time() - t0, 2), "violations": 1}, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    rp = os.path.join(HERE, "replays", cid + ".json")
    json.dump({"property": cid, "tier": TIER, "unit": name, "compile": cmd, "errors": errs}, open(rp, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (cid, rp))
    return 1

def replay(path):
    global TIER
    v = json.load(open(path)); cid = v["property"]; TIER = v.get("tier", "quick")
    if "compile" in v:
        rc = subprocess.run(v["compile"]).returncode
        if rc: print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1 if rc else 0
    u = [u for u in CHECKS[cid] if u[0] == v["unit"]][0]
    name, out, rc, log, dt, cmd = build_one(cid, u)
    if rc: print(log); return 2
    rc = run(out, ["--replay", v["suite"], str(v["state"])], 3600)
    if rc == 0 and "history" in v.get("confirmed", ""): rc = run(out, ["--only", v["suite"], "--jobs", "1"], 3600)
    if rc == 1: print("VIOLATION property=%s replay=%s" % (cid, path))
    return rc

sys.exit(main())
