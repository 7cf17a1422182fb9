#!/usr/bin/env python3
"""Decides one property: builds its simulation from /repo's current headers, explores seeded runs, reports.

  check.py C01 [--tier quick|thorough] [--runs N] [--workers N] [--seed N]
  check.py --replay FILE
Exit 0: held on everything explored. 1: VIOLATION line. 2: the check itself could not answer.
"""
import argparse, atexit, json, os, re, shutil, struct, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "sim"))
from spec import SPECS, COMMON_FLAGS, CXX   # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 1))

def log(*a):
    print(*a, flush=True)

def build(prop, spec, bdir):
    os.makedirs(bdir, exist_ok=True)
    sim = os.path.join(HERE, "sim")
    inc = ["-I", os.path.join(REPO, "include"), "-I", sim]
    jobs, objs = [], []
    def job(src, obj, flags):
        o = os.path.join(bdir, obj); objs.append(o)
        jobs.append([CXX] + COMMON_FLAGS + inc + [f.replace("@SIM@", sim) for f in flags] + ["-c", os.path.join(sim, src), "-o", o])
    job("runner.cpp", "runner.o", ['-DPROP_NAME="%s"' % prop])
    for src, obj, flags in spec["units"]:
        job(src, obj, flags)
    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout, cmd
    with ThreadPoolExecutor(NCPU) as ex:
        failed = [(out, cmd) for rc, out, cmd in ex.map(run, jobs) if rc]
    if failed:
        out, cmd = failed[0]
        log("BUILD FAILED: " + " ".join(cmd)); log(out[:6000])
        # Where the property says that the library can be used in a device build, a device build that does not compile
        # the very code the host build compiles breaks it (unless a file is missing: that would be this sandbox's lack).
        if spec.get("device_build") and all(c[-1].endswith("_dev.o") for _, c in failed) and "No such file" not in out:
            return {"unit": os.path.basename(cmd[-1]), "message": out[:2000]}
        return None
    exe = os.path.join(bdir, "sim_" + prop)
    p = subprocess.run([CXX] + objs + ["-o", exe] + spec.get("ldflags", ["-lgmpxx", "-lgmp"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log("LINK FAILED"); log(p.stdout[-6000:]); return None
    return exe

def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> match=<text in the message> what=<...>'."""
    res, path = [], os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=\"([^\"]*)\" what=(.*)", line.strip())
            if m and m.group(1) == prop:
                res.append({"class": m.group(2), "match": m.group(3), "what": m.group(4)})
    return res

def build_dir(name):
    """A folder of this process's own: two checks that run at once do not touch each other's files."""
    d = os.path.join(BUILD, "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True); atexit.register(shutil.rmtree, d, True)
    return d

def replay(path):
    d = json.load(open(path)); prop = d["property"]; spec = SPECS[prop]
    bdir = build_dir("replay_" + prop)
    exe = build(prop, spec, bdir)
    if not exe: return 2
    if isinstance(exe, dict):
        log("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    if d.get("class") == "device-build-fails": log("the device build compiles"); return 0
    p = subprocess.run([exe, "replay", path] + spec.get("run_args", []), stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(p.stdout)
    if p.returncode == 1:
        log("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    return 0 if p.returncode == 0 else 2

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int); ap.add_argument("--workers", type=int, default=NCPU); ap.add_argument("--seed", type=int)
    ap.add_argument("--replay"); ap.add_argument("--hashes", action="store_true"); ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = a.prop; spec = SPECS[prop]; t0 = time.time()
    bdir = build_dir(prop + ("" if tier == "quick" else "_thorough"))
    exe = build(prop, spec, bdir)
    if not exe: return 2
    if isinstance(exe, dict):
        rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, "%s_build.json" % prop)
        json.dump({"property": prop, "class": "device-build-fails", "message": exe["message"], "unit": exe["unit"], "seed": seed, "run": -1, "tape": [], "repo": repo_state(), "how_to_replay": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
        if not a.no_evidence:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": spec["rule"], "samples": ["the device build of %s does not compile, the host build of the same source does" % exe["unit"]]}, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1}, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        log("device-build-fails: the host build compiles this source, the device build does not")
        log("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    tb = time.time() - t0
    runs = a.runs or spec["runs"][tier]
    deadline = a.deadline or (240 if tier == "quick" else 3600)
    W = a.workers
    known = known_findings(prop)
    procs = []
    stop = os.path.join(bdir, "stop")       # written when a worker has found a violation: no other goes beyond that run
    for w in range(W):
        cnt = runs // W + (1 if w < runs % W else 0)
        out = os.path.join(bdir, "w%d.json" % w)
        cmd = [exe, "explore", "--seed", str(seed), "--start", str(w), "--stride", str(W), "--count", str(cnt), "--deadline", str(deadline), "--out", out,
               "--minimise", "40" if tier == "quick" else "300", "--stop", stop] + spec.get("run_args", [])
        for k in known: cmd += ["--known", k["class"] + "\x01" + k["match"]]
        if a.hashes: cmd.append("--hashes")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"), out, cnt))
    res, harness, given_up = [], [], []
    left, found_at = dict(enumerate(procs)), None
    while left:
        for w, (p, out, cnt) in list(left.items()):
            try: p.wait(0.05)
            except subprocess.TimeoutExpired: continue
            del left[w]
            if p.returncode == 1 and os.path.exists(out) and found_at is None:
                try: run = json.load(open(out))["violation"]["run"]
                except Exception: continue
                open(stop + ".new", "w").write("%d\n" % run); os.replace(stop + ".new", stop); found_at = time.time()
        if left and found_at and time.time() - found_at > 60:       # an earlier run that takes long (a hang being confirmed): one violation is enough
            for p, _, _ in left.values(): p.kill(); given_up.append(p)
    if a.hashes:
        import hashlib
        lines = sorted(l for _, out, _ in procs if os.path.exists(out + ".hashes") for l in open(out + ".hashes"))
        log("%d runs, all events hash to %s" % (len(lines), hashlib.sha256("".join(lines).encode()).hexdigest()[:16]))
    for p, out, cnt in procs:
        if p in given_up: p.communicate(); continue
        _, err = p.communicate()
        if p.returncode == 3 and os.path.exists(out):      # something did not repeat: no verdict, unless another run gives one that does
            r = json.load(open(out)); res.append(r); harness.append(r["harness"])
        elif p.returncode not in (0, 1) or not os.path.exists(out):
            msg = ""
            if os.path.exists(out):
                try: msg = json.load(open(out)).get("harness", "")
                except Exception as e: msg = str(e)
            harness.append("worker rc=%s %s %s" % (p.returncode, msg, err[-500:]))
        else: res.append(json.load(open(out)))
    wall_runs = time.time() - t0 - tb
    tot = lambda k: sum(r[k] for r in res)
    sigs = set()
    for w in range(W):
        f = os.path.join(bdir, "w%d.json.sigs" % w)
        if os.path.exists(f):
            b = open(f, "rb").read(); sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    stats = {}
    for r in res:
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
    viols = sorted((r["violation"] for r in res if r["violation"]), key=lambda v: v["run"])
    done = tot("done")
    rc, violations = 0, 0
    for h in harness: log("ERROR in the simulation: " + h)
    if harness: rc = 2
    knownhits = {}
    for r in res:
        for k, v in (r.get("known") or {}).items(): knownhits[k] = knownhits.get(k, 0) + v
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, v in enumerate(viols):
        rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_seed%d_run%d.json" % (prop, seed, v["run"]))
        v["repo"] = repo_state(); v["how_to_replay"] = "python3 /verif/check.py --replay " + path
        json.dump(v, open(path, "w"), indent=1)
        # gate: a fresh process must reproduce exactly this from the replay file
        p = subprocess.run([exe, "replay", path] + spec.get("run_args", []), stdout=subprocess.PIPE, text=True, errors="replace")
        ok = v["reproduced"] and p.returncode == 1 and ("class=%s " % v["class"]) in p.stdout
        log("%s: %s" % (v["class"], v["message"]))
        log("seed %d run %d; tape of %d choices (%d before minimisation); trace:" % (seed, v["run"], len(v["tape"]), v["original_tape"]))
        log(v["trace"][-6000:])
        if ok:
            log("VIOLATION property=%s replay=%s" % (prop, path)); rc = 1; violations = len(viols); break
        log("ERROR: the violation did not reproduce from its replay file; not reported"); rc = rc or 2
        log(p.stdout[-1500:])
    wall = time.time() - t0
    if not a.no_evidence:
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
        other = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
        cov = {"evaluations": done, "distinct_nontrivial": len(sigs), "rule": spec["rule"], "samples": [r["sample"] for r in res if r["sample"]][:2],
               "runs_with_nontrivial_cases": tot("nontrivial_runs"), "nontrivial_cases": tot("nontrivial"), "discarded_runs": tot("discards"),
               "simulated_events": tot("events"), "simulated_time_units": tot("sim_time"), "runs_per_hour": int(done / max(wall_runs, 1e-9) * 3600),
               "seeds_per_hour": int(done / max(wall_runs, 1e-9) * 3600), "seed": seed, "faults_injected": faults, "operations_and_recoveries": other,
               "determinism_rechecks": tot("determinism_rechecks"), "real_components": spec["real"], "simulated_components": spec["stub"], "workers": W, "build_s": round(tb, 2),
               "known_finding_hits": knownhits}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d runs, %d distinct non-trivial cases, build %.1f s, runs %.1f s%s" % (prop, tier, done, len(sigs), tb, wall_runs, "" if rc == 0 else ", exit %d" % rc))
    if rc == 0 and done == 0: log("ERROR: nothing was explored"); return 2
    return rc

def repo_state():
    try: return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    except OSError: return "?"

if __name__ == "__main__":
    sys.exit(main())
