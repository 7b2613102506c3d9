#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property by simulation
   check.py --replay <file>               replay a recorded violation
   check.py --build                       compile everything (setup)"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
import registry as reg

COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-fno-pie", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build(bins, bdir):
    """compile the named harness binaries from the current tree; returns error text or None"""
    jobs, links = [], []
    for b in bins:
        d = reg.BIN[b]
        asan = ASAN if d.get("asan", True) else []
        inc = ["-I" + os.path.join(HERE, "shims", x) for x in d.get("shims", [])] + ["-I" + os.path.join(REPO, x) for x in d.get("inc", ["src"])] + d.get("flags", [])
        objs = []
        tag = "a" if asan else "n"
        for s, extra in ((os.path.join(HERE, "sim/sim.cpp"), []), (os.path.join(HERE, "sim/vfs.cpp"), ["-fno-threadsafe-statics"])):
            o = os.path.join(bdir, tag + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append((o, ["g++"] + COMMON + asan + extra + ["-c", s, "-o", o]))
        o = os.path.join(bdir, b + ".o")
        objs.append(o)
        jobs.append((o, ["g++"] + COMMON + asan + inc + (["-fsanitize-coverage=trace-pc"] if d.get("hcov") else []) + ["-c", os.path.join(HERE, "harness", d["src"]), "-o", o]))
        for s in d["repo"]:
            o = os.path.join(bdir, b + "-" + s.replace("/", "_") + ".o")
            objs.append(o)
            jobs.append((o, ["g++"] + COMMON + d.get("ropt", []) + asan + inc + (["-fsanitize-coverage=trace-pc"] if d.get("cov", True) else []) + ["-c", os.path.join(REPO, s), "-o", o]))
        links.append(["g++"] + asan + ["-no-pie"] + objs + ["-o", os.path.join(bdir, b), "-ldl", "-lpthread"])
    uniq = {}
    for o, c in jobs: uniq[o] = c
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for rc, out in list(ex.map(sh, uniq.values())) + list(ex.map(sh, links) if False else []):
            if rc: return out
        for b, cmd, (rc, out) in zip(bins, links, ex.map(sh, links)):
            if rc and "undefined reference" in out: # something moved to another file: offer the other sources of the tree
                rc, out = sh_with_rest(b, cmd, bdir, ex, out)
            if rc: return out
    return None

def sh_with_rest(b, cmd, bdir, ex, err):
    d = reg.BIN[b]; asan = ASAN if d.get("asan", True) else []
    top = {s.split("/")[0] if s.startswith("src/") else os.path.dirname(s) for s in d["repo"]}
    rest = sorted({os.path.relpath(os.path.join(r, f), REPO) for t in top for r, _, fs in os.walk(os.path.join(REPO, t)) for f in fs if f.endswith((".cpp", ".cc"))} - set(d["repo"]))
    inc = ["-I" + os.path.join(HERE, "shims", x) for x in d.get("shims", [])] + ["-I" + os.path.join(REPO, x) for x in d.get("inc", ["src"])] + d.get("flags", [])
    objs = [os.path.join(bdir, "rest-" + b + "-" + s.replace("/", "_") + ".o") for s in rest]
    cov = ["-fsanitize-coverage=trace-pc"] if d.get("cov", True) else []
    rcs = list(ex.map(sh, [["g++"] + COMMON + d.get("ropt", []) + asan + inc + cov + ["-c", os.path.join(REPO, s), "-o", o] for s, o in zip(rest, objs)]))
    objs = [o for o, (rc, _) in zip(objs, rcs) if rc == 0]
    if not objs: return 1, err
    lib = os.path.join(bdir, "rest-" + b + ".a")
    sh(["ar", "rcs", lib] + objs)
    i = cmd.index("-o")
    return sh(cmd[:i] + [lib] + cmd[i:])

def is_py(b): return b.startswith("py:")

def command(b, bdir, prop):
    if is_py(b): return [sys.executable, os.path.join(HERE, "harness", b[3:] + ".py"), "--prop", prop]
    return [os.path.join(bdir, b), "--prop", prop]

def known_findings():
    f = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", ln.strip())
            if m: out.append(m.groups())
    return out

def run_one(b, bdir, prop, seed, budget, runs, known):
    env = dict(os.environ, ASAN_OPTIONS="", LC_ALL="C", TZ="UTC", VERIF_REPO=REPO)
    env.pop("ASAN_OPTIONS")
    cmd = command(b, bdir, prop) + ["--seed", str(seed), "--time", str(budget), "--runs", str(runs), "--outdir", bdir]
    if known: cmd += ["--known", ",".join(known)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace")
    if r.returncode not in (0, 1): return None, r.stderr[-2000:]
    try: return json.loads(r.stdout.strip().splitlines()[-1]), ""
    except Exception as e: return None, "unparsable output: %r %s" % (e, r.stdout[-500:])

def replay_file(path):
    t = open(path).read()
    prop = re.search(r"^property (\S+)", t, re.M).group(1)
    b = re.search(r"^binary (\S+)", t, re.M).group(1)
    bdir = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if not is_py(b):
            e = build([b], bdir)
            if e: print(e); return 2
        r = subprocess.run(command(b, bdir, prop) + ["--replay", os.path.abspath(path), "--outdir", bdir], env=dict(os.environ, LC_ALL="C", TZ="UTC", VERIF_REPO=REPO))
        return r.returncode
    finally: shutil.rmtree(bdir, ignore_errors=True)

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    budget = float(os.environ.get("VERIF_BUDGET", 0) or (reg.QUICK.get(prop, 10) if quick else reg.THOROUGH.get(prop, 420)))
    maxruns = 10**9
    plan = reg.PROP[prop]
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        bins = [b for b, _ in plan if not is_py(b)]
        e = build(bins, bdir) if bins else None
        if e:
            print("ERROR: the harness does not build against the current tree\n" + e[-6000:])
            return 2
        build_s = time.time() - t0
        known = [k for k in known_findings() if k[0] == prop]
        tot = sum(w for _, w in plan)
        ds, vio = [], None
        for b, w in plan:
            d, err = run_one(b, bdir, prop, seed, budget * w / tot, maxruns, [k[1] for k in known])
            if d is None:
                print("ERROR: %s: %s" % (b, err))
                return 2
            d["binary"] = b
            ds.append(d)
            if d["violation"]:
                vio = dict(d["violation"], binary=b)
                break
        rc = 0
        if vio:
            # an independent process must reproduce it exactly from the file
            r = subprocess.run(command(vio["binary"], bdir, prop) + ["--replay", vio["replay"], "--outdir", bdir], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               env=dict({k: v for k, v in os.environ.items() if k != "ASAN_OPTIONS"}, LC_ALL="C", TZ="UTC", VERIF_REPO=REPO))
            m = re.search(r"^REPLAY status=1 sig=(.*?) hash=([0-9a-f]+)", r.stdout, re.M)
            if not m or vio.get("exact", True) and (m.group(1) != vio["sig"] or m.group(2) != vio["hash"]):
                print("ERROR: replay in a fresh process does not reproduce the violation (%s)\n%s" % (vio, r.stdout[-1500:]))
                return 2
            dst = os.path.join(HERE, "evidence", "replays")
            os.makedirs(dst, exist_ok=True)
            dst = os.path.join(dst, os.path.basename(vio["replay"]))
            t = open(vio["replay"]).read()
            with open(dst, "w") as f: f.write("binary %s\n# replay with: %s --replay %s\n" % (vio["binary"], os.path.join(HERE, "check.py"), dst) + t)
            vio["replay"] = dst
            print("violation found in simulated run %d of seed %d: [%s] %s" % (vio["run"], seed, vio["sig"], vio["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            rc = 1
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        evidence(prop, tier, seed, ds, vio, known, build_s, time.time() - t0)
        if not vio:
            print("%s: held on %d simulated runs (%.1f s)" % (prop, sum(d["runs"] for d in ds), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def evidence(prop, tier, seed, ds, vio, known, build_s, wall):
    runs = sum(d["runs"] for d in ds)
    secs = sum(d["search_s"] for d in ds) or 1e-9
    cnt = {}
    for d in ds:
        for k, v in d["counters"].items(): cnt[k] = cnt.get(k, 0) + v
    S = lambda k: sum(d.get(k, 0) for d in ds)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": reg.LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": S("distinct_outcomes"),
            "rule": "; ".join(sorted(set(d["rule"] for d in ds))) + ". Distinct = different hash over everything the checks observed in the run (results, statuses, contents).",
            "samples": [s for d in ds for s in d["samples"]][:6],
            "runs_per_hour (one seed per run)": int(runs / secs * 3600),
            "simulated_seconds": round(S("sim_ns") / 1e9, 3),
            "nontrivial_runs": S("nontrivial"),
            "runs_with_faults": S("fault_runs"),
            "harmful_faults": S("harmful"), "benign_faults": S("benign"),
            "fault_kinds": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")},
            "counters": {k: v for k, v in sorted(cnt.items()) if not k.startswith("fault.")},
            "distinct_executions": S("distinct_executions"),
            "distinct_coverage_signatures": S("distinct_coverage"),
            "instrumented_steps": S("edges"),
            "scheduling_and_fault_choices": S("choices"),
            "determinism_rechecks": S("determinism_rechecks"),
            "known_finding_hits": {k: v for d in ds for k, v in d["known"].items()},
            "per_binary": {d["binary"]: {"runs": d["runs"], "seconds": d["search_s"]} for d in ds},
            "components": {d["binary"]: {"real": reg.REAL[d["binary"]][0], "stub": reg.REAL[d["binary"]][1]} for d in ds},
        },
        "assumptions": reg.ASSUME.get(prop, []) + ["the simulated C-library storage, clock and scheduler behave as POSIX allows; preemption happens at I/O, lock and control-flow-edge points of the real code"],
        "violations": [vio] if vio else [],
        "wall_s": round(wall, 2), "build_s": round(build_s, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay": return replay_file(a[1])
    if a == ["--build"]:
        bdir = tempfile.mkdtemp(prefix="verif-build-")
        try:
            e = build(list(reg.BIN), bdir)
            if e: print(e); return 1
            print("all harnesses build"); return 0
        finally: shutil.rmtree(bdir, ignore_errors=True)
    if len(a) == 2 and a[0] in reg.PROP and a[1] in ("quick", "thorough"): return check(*a)
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
