#!/usr/bin/env python3
"""development aid: mut.py SPEC.py [secs] [index...]
SPEC.py defines BINS=[(binary,prop),...] and M=[(file,old,new),...]; each change is
applied in a scratch copy of the sources and the simulations are run against it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
secs = float(sys.argv[2]) if len(sys.argv) > 2 else 6
sel = [int(x) for x in sys.argv[3:]]
def one(n):
    f, a, b = spec["M"][n][:3]
    BINS = spec["M"][n][4] if len(spec["M"][n]) > 4 else spec["BINS"]
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for x in ("src", "var", "script", "scripts", "test", "bin"):
            if os.path.exists(os.environ.get("VERIF_REPO", "/repo") + "/" + x): shutil.copytree(os.environ.get("VERIF_REPO", "/repo") + "/" + x, d + "/" + x, symlinks=True)
        p = os.path.join(d, f)
        s = open(p).read()
        k = spec["M"][n][3] if len(spec["M"][n]) > 3 else 0
        if s.count(a) <= k: return "%d NOT FOUND %r" % (n, a)
        i = -1
        for _ in range(k + 1): i = s.index(a, i + 1)
        open(p, "w").write(s[:i] + b + s[i + len(a):])
        env = dict(os.environ, VERIF_REPO=d)
        bins = sorted({x for x, _ in BINS if not x.startswith("py:")})
        code = "import sys;sys.path.insert(0,%r);import check;r=check.build(%r,%r);print(r or '');sys.exit(1 if r else 0)" % (HERE, bins, d)
        r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
        if r.returncode: return "%d %r -> %r BUILD FAILS %s" % (n, a[:40], b[:40], r.stdout[-300:])
        out = []
        for x, P in BINS:
            cmd = [sys.executable, os.path.join(HERE, "harness", x[3:] + ".py")] if x.startswith("py:") else [os.path.join(d, x)]
            q = subprocess.run(cmd + ["--prop", P, "--runs", "100000000", "--time", str(secs), "--outdir", d], capture_output=True, text=True, errors="replace", env=env)
            try:
                j = json.loads(q.stdout.strip().split("\n")[-1]); v = j["violation"]
                out.append("%s/%s: %s" % (x, P, "%s@%d" % (v["sig"], v["run"]) if v else "-"))
            except Exception: out.append("%s: ERR %s" % (P, q.stderr[-200:]))
        return "%s%d %s %r -> %r %s" % ("  " if any(not o.endswith(": -") for o in out) else "! ", n, os.path.basename(f), a.strip()[:80], b.strip()[:80], out)
    finally: shutil.rmtree(d, ignore_errors=True)
todo = sel or range(len(spec["M"]))
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(one, todo): print(r, flush=True)
