"""C01-C04: the data fetch and station scripts over a simulated network, disk and process life."""
import os, sys, datetime, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import pysim as P
from pysim import W, Wrng, draw, chance, note, observe, count, fail, nontrivial
D = datetime.date
MJD0 = D(1858, 11, 17)
def mjd(d): return (d - MJD0).days
BENIGN = ["short_read", "short_write"]
DISK = ["open_fail", "read_eio", "write_enospc", "write_eio", "close_fail", "rename_fail", "unlink_fail"]
def faults(net):
    k = draw("conf", 5); P.S.rate = {}
    if k == 1: P.swarm(BENIGN)
    elif k == 2 and net: P.S.rate = {"net": [100, 300, 600][draw("conf", 3)]}
    elif k == 3: P.swarm(BENIGN + DISK + (["net"] if net else []))
    elif k == 4: P.swarm(BENIGN + ["crash"]); P.S.rate["crash"] = [20, 60, 150][draw("conf", 3)]
    if net and k and draw("conf", 3) == 0: P.S.rate["redirect"] = [100, 500][draw("conf", 2)]
    for x in ("open_fail", "close_fail", "rename_fail", "unlink_fail"):
        if x in P.S.rate: P.S.rate[x] = min(300, P.S.rate[x] * 4)

# ------------------------------------------------------------------ C01
FIRST = D(2008, 12, 12)
class Bulletins:
    """the published series: final values of consecutive spans of days"""
    def __init__(s, rng, span_kind):
        s.seed = rng.random(); s.kind = span_kind; s.cache = {}; s.last = 252 + rng.randrange(2, 190); s.damage = {}
        s.start = [FIRST - datetime.timedelta(days=rng.randrange(10) if rng.random() < .5 else 0)]; s.rng = rng
        for n in range(252, s.last + 1):
            a = s.start[-1]
            if span_kind == 0: # second day of a month to first of the next
                b = D(a.year + a.month // 12, a.month % 12 + 1, 2); b = b if (b - a).days > 20 else D(b.year + b.month // 12, b.month % 12 + 1, 2)
            else: b = a + datetime.timedelta(days=rng.randrange(28, 33))
            s.start.append(b)
    def span(s, n): return s.start[n - 252], s.start[n - 251] - datetime.timedelta(days=1)
    def number(s, d):
        for n in range(252, s.last + 1):
            if s.span(n)[0] <= d <= s.span(n)[1]: return n
        return None
    def days(s, n):
        if n in s.cache: return s.cache[n]
        import random
        r = random.Random("%r/%d" % (s.seed, n)); a, b = s.span(n); rows = []
        d = a
        while d <= b:
            f = lambda sc, k: "%.*f" % (k, r.uniform(-sc, sc))
            b1 = [f(250, 3), f(500, 3), f(800, 4), f(1, 3), f(1, 3)] + ["%.*f" % (k, r.uniform(0, .2)) for k in (3, 3, 4, 3, 3)]
            b3 = [f(2, 4), "%.4f" % r.uniform(0, .01), "%.9f" % (15.041067 + r.uniform(-1e-6, 1e-6)), "%.9f" % r.uniform(0, 1e-6)]
            rows.append((d, b1, b3)); d += datetime.timedelta(days=1)
        s.cache[n] = rows; return rows
    def text(s, n, dmg=None):
        rows = s.days(n); r = s.rng
        one = ["%5d %3d %3d %7d %9s %9s %10s %8s %8s %9s %8s %9s %7s %7s" % ((d.year, d.month, d.day, mjd(d)) + tuple(b1)) for d, b1, b3 in rows]
        three = ["%5d %3d %3d %7d %10s %9s %15s %14s" % ((d.year, d.month, d.day, mjd(d)) + tuple(b3)) for d, b1, b3 in rows]
        if dmg:
            kind, k, z = dmg; i = k % len(rows); L = one if z % 2 else three
            if kind == "missing day": one.pop(i); (three.pop(i) if z % 4 > 1 else 0)
            elif kind == "missing rotation day": three.pop(i)
            elif kind == "repeated day": one.insert(i, one[i])
            elif kind == "swapped days": j = (i + 1) % len(rows); one[i], one[j] = one[j], one[i]
            elif kind == "missing value": t = L[i].split(); t.pop(4 + z // 2 % (len(t) - 4)); L[i] = "   " + "  ".join(t)
            elif kind == "extra value": L[i] += "  0.123"
            elif kind == "garbled value": t = L[i].split(); t[4 + z // 2 % (len(t) - 4)] = ["*****", "-", "12.3.4", "1O.2"][z // 32 % 4]; L[i] = "   " + "  ".join(t)
            elif kind == "wrong day number": t = one[i].split(); t[3] = str(int(t[3]) + [1, -1, 1000, -27][z % 4]); one[i] = "   " + "  ".join(t)
            elif kind == "wrong date": t = one[i].split(); t[1] = str(int(t[1]) % 12 + 1); t[2] = str(min(int(t[2]), 28)); one[i] = "   " + "  ".join(t)
            elif kind == "no days": one[:] = []
        ext = D(s.span(n)[1].year, s.span(n)[1].month, 1)
        a, b = s.span(n)
        lines = ["", "        INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE", "        BULLETIN B %d" % n, "        %s" % b, "", " CONTENTS", "",
            " 1 - DAILY FINAL VALUES OF  x, y, UT1-UTC, dX, dY", " Angular unit is milliarcsecond (mas), time unit is millisecond (ms). ", " Upgraded solution from March 1 2017 - consistent with ITRF 2014.", "",
            "      DATE     MJD       x        y       UT1-UTC     dX        dY       x err     y err    UT1 err   dX err    dY err", "   (0 h UTC)            mas      mas        ms        mas       mas       mas       mas        ms       mas       mas   ",
            "   Mean formal error                                                          0.030     0.030      0.0050    0.050     0.050", ""]
        lines += one + ["", "   Preliminary extension, to be updated weekly in Bulletin A and monthly", "   in Bulletin B.", ""]
        for k in range(1, 6): d = b + datetime.timedelta(days=k); lines.append("%5d %3d %3d %7d %9s %9s %10s %8s %8s" % (d.year, d.month, d.day, mjd(d), "9.999", "9.999", "9.9999", "0.001", "0.001"))
        lines += ["", " 2 - DAILY FINAL VALUES OF CELESTIAL POLE OFFSETS dPsi1980 & dEps1980", "   (0 h UTC)", "", "   %d %d %d %d -100.0 -10.0" % (a.year, a.month, a.day, mjd(a)), "",
            " 3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC", "     LOD : Excess of the Length of day - 86400 s TAI", "     OMEGA : Earth angular velocity", "", "      DATE     MJD      LOD       sigma        OMEGA         sigma", "   (0 h UTC)              ms       ms        mas/ms          mas/ms", ""]
        lines += three + ["", " 4 - INFORMATION ON TIME SCALES", "", "     TAI - UTC = 37 s", "", " 5 - SUPPLEMENTARY INFORMATION ON LEAP SECONDS", "     none", ""]
        t = "\n".join(lines) + "\n"
        if dmg and dmg[0] == "missing header": t = t.replace([" 1 - DAILY FINAL VALUES OF  x, y, UT1-UTC, dX, dY", "   Mean formal error", " 3 - EARTH ANGULAR", "(0 h UTC)              ms       ms "][dmg[2] % 4], " ", 1)
        if dmg and dmg[0] == "truncated":
            e = len("\n".join(lines[:lines.index(" 4 - INFORMATION ON TIME SCALES") - 1])) # end of the last day
            t = t[:[dmg[1] % len(t), e - dmg[1] % 90, e - dmg[1] % 8][dmg[2] % 3]]
        if dmg and dmg[0] == "empty": t = ""
        return t
DAMAGE = ["truncated", "missing day", "missing rotation day", "repeated day", "swapped days", "missing value", "extra value", "garbled value", "wrong day number", "wrong date", "no days", "missing header", "empty", "not found", "other bulletin"]
HEAD = re.compile(r"^\s*#")
def parse_output(text):
    rows = []
    for ln in text.split("\n"):
        if not ln.strip() or ln.startswith("#"): continue
        rows.append(ln.split())
    return rows
def c01():
    r = Wrng(); B = Bulletins(r, W(3)); cwd = os.path.join(P.S.root, "work"); os.mkdir(cwd)
    if W(3) == 0:
        for _ in range(1 + r.randrange(3)): B.damage[r.randrange(252, B.last + 1)] = (r.choice(DAMAGE), r.randrange(1 << 20), r.randrange(1 << 16))
    served = {}
    def handler(url):
        m = re.match(r".*bulletinb\.(-?\d+)$", url); n = int(m.group(1)) if m else -1
        served[n] = B.damage.get(n)
        if not 252 <= n <= B.last or (B.damage.get(n) or [0])[0] == "not found": count("bulletins not found"); return 404, b"<!DOCTYPE HTML><html><head><title>404 Not Found</title></head>\n<body>\n<h1>Not Found</h1>\n</body></html>\n"
        d = B.damage.get(n)
        if d: note("[server] bulletin %d is damaged: %s" % (n, d[0])); count("damaged bulletins served")
        if d and d[0] == "other bulletin": return 200, B.text(252 + d[1] % (B.last - 251)).encode()
        return 200, B.text(n, d).encode()
    P.net.handler = handler
    end = B.span(B.last)[1]
    near = [B.span(n)[i] for n in B.damage for i in (0, 1)]
    for k in range(1 + W(3)):
        q = r.random()
        if near and q < .5: t = r.choice(near) + datetime.timedelta(days=r.randrange(-20, 21))
        elif q < .75: t = B.span(r.randrange(252, B.last + 1))[r.randrange(2)] + datetime.timedelta(days=r.randrange(-8, 9)) # close to a boundary
        elif q < .8: t = r.choice([FIRST, end]) + datetime.timedelta(days=r.randrange(-12, 13))
        else: t = FIRST + datetime.timedelta(days=r.randrange((end - FIRST).days))
        lim = r.choice([0, 1, 2, 3, 3, 3, 5, 10, 20, 35, 60, 90])
        to_stdout = r.random() < .25; name = r.choice(["eop.c04", "eop.c04", "out%d" % k])
        out = os.path.join(cwd, name); before = None if to_stdout else P.get(out)
        argv = ["-d", t.isoformat(), "-n", str(lim)] + ([] if to_stdout else ["-o", r.choice([name, out])]) + (["--verbose"] if r.random() < .2 and not to_stdout else [])
        note("fetch_iers_c04 " + " ".join(argv) + " (last bulletin %d ends %s)" % (B.last, end))
        faults(True); h0 = P.S.harmful; served.clear(); P.net.limit = 1000
        a, b = t - datetime.timedelta(days=lim), t + datetime.timedelta(days=lim)
        def right(content, a=a, b=b):
            rows = parse_output(content)
            if not rows: return "no days"
            try: days = [D(*map(int, x[:3])) for x in rows]
            except ValueError: return "unreadable row"
            for x, y in zip(days, days[1:]):
                if (y - x).days != 1: return "%s follows %s" % (y, x)
            if days[0] > a or days[-1] < b: return "covers %s to %s, not %s to %s" % (days[0], days[-1], a, b)
            for x, d in zip(rows, days):
                n = B.number(d)
                if n is None: return "%s is not a published day" % d
                w = [z for z in B.days(n) if z[0] == d][0]
                if len(x) != 18 or int(x[3]) != mjd(d): return "row %s" % x
                for u, v in zip(x[4:], w[1] + w[2]):
                    if abs(float(u) - float(v)) > 1e-9: return "%s: %s instead of %s" % (d, u, v)
            return None
        txt = lambda: (P.get(out) or b"").decode("utf-8", "replace")
        seen = {}
        def other(where): # a second invocation for the same output while this one is running
            t2 = t + datetime.timedelta(days=r.randrange(-60, 61)); l2 = r.choice([0, 3, 10, 40]); a2, b2 = t2 - datetime.timedelta(days=l2), t2 + datetime.timedelta(days=l2); was = P.get(out)
            argv2 = ["-d", t2.isoformat(), "-n", str(l2), "-o", name]
            note("[meanwhile, at %s] fetch_iers_c04 %s" % (where, " ".join(argv2)))
            rc2, _, err2 = P.run_script("script/fetch_iers_c04.py", argv2, cwd)
            seen.update(rc=rc2, a=a2, b=b2)
            e = right(txt(), a2, b2)
            if rc2 == 0 and e: fail("wrong-output", "the second invocation succeeds, but the output is wrong: %s (%s ± %d)" % (e, t2, l2))
            if rc2 != 0 and P.get(out) != was and e: fail("partial-output", "the second invocation failed (%s), but %s was changed" % (rc2, name))
        if not to_stdout and W(4) == 0: P.S.other = other
        rc, stdout, err = P.run_script("script/fetch_iers_c04.py", argv, cwd)
        P.S.rate = {}; P.S.other = None
        content = stdout if to_stdout else txt()
        harm = P.S.harmful > h0; dmg = [d[0] for d in served.values() if d]
        theirs = bool(seen) and not right(content, seen["a"], seen["b"])
        if rc == 0:
            e = right(content)
            if e and not theirs: fail("wrong-output", "success, but the output is wrong: %s (%s ± %d, damage: %s)" % (e, t, lim, dmg))
            if P.net.requests > 300: fail("too-many-requests", "%d requests" % P.net.requests)
            count("merged files compared"); observe(hash(content)); nontrivial()
        else:
            if not to_stdout:
                now = P.get(out)
                if now != before and not theirs and (now is None or right(now.decode("utf-8", "replace"))): fail("partial-output", "failed (%s), but %s was %s" % (rc, name, "changed" if now is not None else "deleted"))
            if not harm and not dmg and not seen and a >= FIRST and b <= end: fail("spurious-failure", "%s ± %d: failed (%s) although everything is available: %s" % (t, lim, rc, err.strip().splitlines()[-1:]))
            count("failures"); nontrivial()
        observe(P.net.requests)

# ------------------------------------------------------------------ C02
def c02():
    r = Wrng(); cwd = os.path.join(P.S.root, "work"); os.mkdir(cwd); dst = os.path.join(P.S.root, "data"); os.mkdir(dst)
    ver = [0]
    def body(url, v):
        import random
        q = random.Random("%s/%d/%r" % (url, v, seed)); n = q.choice([0, 1, 30, 120, 900])
        return ("DATE,BSRN,ND,KP1,KP2\n" + "".join("2020-%02d-%02d,%d,%d\n" % (q.randrange(1, 13), q.randrange(1, 29), q.randrange(2600), q.randrange(28)) for _ in range(n))).encode()
    seed = r.random(); last = {}
    def handler(url):
        if "SW-" not in url: return 404, b"<html>no</html>\n"
        last[P.S.depth] = body(url, ver[0]); return 200, last[P.S.depth]
    P.net.handler = handler; P.net.limit = 50
    all_urls = {False: "https://celestrak.org/SpaceData/SW-Last5Years.csv", True: "https://celestrak.org/SpaceData/SW-All.csv"}
    for k in range(1 + W(4)):
        if r.random() < .6: ver[0] += 1
        big = r.random() < .4; argv = ["--csv-all"] if big else []
        default = os.path.basename(all_urls[big]); name = r.choice([None, None, "sw.csv", "sw-%d.csv" % k])
        if name: argv += [r.choice(["-o", "--output"]), name]
        d = r.choice([cwd, dst, dst, None])
        if d: argv += [r.choice(["-O", "--output-dir"]), d]
        gone = r.random() < .05
        if gone: argv += ["-O", os.path.join(P.S.root, "nowhere")]
        out = os.path.join(d or cwd, name or default); before = P.get(out)
        want = body(all_urls[big], ver[0])
        note("fetch_celestrak " + " ".join(argv))
        others = {f: P.get(f) for x in (cwd, dst) for f in [os.path.join(x, y) for y in P.real.listdir_(x)] if f != out}
        valid = [before] # what the target may hold
        def watch(kind, path):
            now = P.get(out)
            if now not in valid and now not in last.values(): fail("damaged-target", "at %s: the target holds %s bytes that are neither the earlier copy (%s) nor the file served (%d)" % (kind, "no" if now is None else len(now), "none" if before is None else len(before), len(want)))
        def other(where): # a second invocation for the same target while this one is running
            if W(2): ver[0] += 1
            b2 = W(2); argv2 = (["--csv-all"] if b2 else []) + ["-o", name or default] + (["-O", d] if d else [])
            was = P.get(out); valid.append(was); last.pop(2, None)
            note("[meanwhile, at %s] fetch_celestrak %s" % (where, " ".join(argv2)))
            rc2, _, err2 = P.run_script("script/fetch_celestrak_space_weather_data_csv.py", argv2, cwd)
            now = P.get(out); seen["rc"] = rc2
            if rc2 == 0 and now != last.get(2): fail("wrong-output", "the second invocation succeeds, but the target is %s" % ("missing" if now is None else "an earlier copy" if now == was else "different"))
            if rc2 != 0 and now != was and now != last.get(2): fail("damaged-target", "exit %s of the second invocation: the target holds %s bytes that are neither the earlier copy nor the file served" % (rc2, "no" if now is None else len(now)))
        seen = {}; last.clear()
        faults(True); h0 = P.S.harmful; P.S.watch = watch
        if not gone and W(3) == 0: P.S.other = other
        rc, _, err = P.run_script("script/fetch_celestrak_space_weather_data_csv.py", argv, cwd)
        P.S.watch = None; P.S.rate = {}; P.S.other = None
        now = P.get(out); ok = [last.get(1)] + ([last.get(2)] if seen.get("rc") == 0 else [])
        if now not in valid + [last.get(1), last.get(2)]: fail("damaged-target", "exit %s: the target holds %s bytes that are neither the earlier copy (%s) nor the file served (%d)" % (rc, "no" if now is None else len(now), "none" if before is None else len(before), len(want)))
        for f, c in others.items():
            if P.get(f) != c and not f.startswith(out): fail("other-file-changed", "%s changed" % os.path.basename(f))
        if rc == 0:
            if gone: fail("wrong-output", "success although the directory does not exist")
            if now is None or now not in ok: fail("wrong-output", "success, but the target is %s" % ("missing" if now is None else "an earlier copy" if now == before else "different"))
            count("downloads compared"); nontrivial(); observe(len(want))
        else:
            if P.S.harmful == h0 and not gone and not seen: fail("spurious-failure", "failed (%s) although nothing went wrong: %s" % (rc, err.strip().splitlines()[-1:]))
            count("failures"); nontrivial()

# ------------------------------------------------------------------ C03
BLOCKS = ["0. Form", "1. Site location information", "2. DORIS antenna and reference point information", "3. DORIS beacons information", None, "5. IERS colocation information", "6. Tide Gauge colocation information", "7. Local site ties", "8. Meteorological Instrumentation", "9. DORIS network contacts"]
def site_log(r, n):
    """text, rows, offset at which the antenna section has been read completely"""
    site = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(3)); ants = []; eol = "\n"
    fld = lambda k, v: "  %-28s: %s" % (k, v)
    L = ["", "    %s DORIS site description form" % r.choice(["YELLOWKNIFE", "ROTHERA", "SAINT-HELENA"]), "", BLOCKS[0], "", fld("Prepared by", "IDS"), fld("Date", "12/01/2022"), "",
         BLOCKS[1], "", fld("Site Name", site), fld("Country", "X"), "", BLOCKS[2], ""]
    na = r.choice([1, 1, 2, 3, 5, 12])
    date = D(1990 + r.randrange(20), 1 + r.randrange(12), 1 + r.randrange(28)); rows = []
    for i in range(na):
        iid = site + "ABCDEFGHIJKL"[i]; h = r.choice(["%.3f" % r.uniform(0, 5), "%.3f" % r.uniform(0, .99), "%.2f" % r.uniform(0, 20), "%.4f" % r.uniform(0, 120), "0.000"] + ([] if r.random() < .8 else ["%d" % r.randrange(20)]))
        inst = date; date += datetime.timedelta(days=1 + r.randrange(1500)); rem = date if i < na - 1 or r.random() < .3 else None; date += datetime.timedelta(days=r.randrange(40))
        rows.append((iid, inst.strftime("%Y-%m-%d 00:00:00"), rem.strftime("%Y-%m-%d 00:00:00") if rem else "9999-12-31 23:59:59", float(h)))
        L += ["2.%d" % (i + 1) + r.choice(["", " ", "  "]), ""]
        f = [fld("Four character ID", iid), fld("Antenna model", r.choice(["Starec B", "Alcatel", "Starec C"])), fld("Antenna serial number", r.choice(["", "31", "120-B"])), fld("IERS DOMES number", "4012%dS0%02d" % (r.randrange(10), i))]
        g = [fld("Date installed (dd/mm/yy)", inst.strftime("%d/%m/%Y")), fld("Date removed (dd/mm/yy)", rem.strftime("%d/%m/%Y") if rem else ""), fld("Height above ground mark", h + r.choice([" m", " m", "m", " m ", " m (tape)", "  m", " m (method: tape)"]) if r.random() < .9 else h)]
        notes = []
        if r.random() < .6: notes = [fld("Notes", r.choice(["2 Ghz PC offset : 2 mm north, 1 mm west", "new monument", "antenna moved"]))] + ["   " + " " * 26 + r.choice(["continued on this line with more words", "and yet another remark about the mast"]) for _ in range(r.randrange(3))]
        mid = [fld("Ground mark type", "brass pin"), fld("Survey date", "2010")][:r.randrange(3)]
        if r.random() < .3: r.shuffle(g)
        L += f + mid + g + notes + [""]
    pre = eol.join(L) + eol
    B = [BLOCKS[3], "", "3.1", "", fld("Beacon model", "3.0"), fld("Date installed (dd/mm/yy)", "01/02/2003"), fld("Four character ID", "ZZZZ"), "", "4. ITRF coordinates and velocities of the current DORIS ref. point (%s)" % rows[-1][0], "", fld("X", "123.4"), ""]
    for b in BLOCKS[5:]: B += [b, "", fld("Four character ID", "QQQQ"), ""]
    return pre + eol.join(B) + eol, rows, len(pre) + len(BLOCKS[3])
def c03():
    r = Wrng(); cwd = os.path.join(P.S.root, "work"); os.mkdir(cwd); logs = os.path.join(P.S.root, "logs"); os.mkdir(logs)
    n = W(6); want = []; bad = []; files = {}
    trouble = W(4) == 0
    for i in range(n):
        t, rows, safe = site_log(r, i)
        name = "site%d%s" % (r.randrange(100), ["", "_x"][r.randrange(2)]) + "%d" % i + r.choice([".LOG", ".log"])
        if trouble and r.random() < .5:
            k = r.randrange(6)
            if k < 3: cut = r.randrange(len(t)); t = t[:cut]; bad.append("%s cut at %d" % (name, cut)) if cut < safe else count("logs cut after the antennas")
            elif k == 3: lines = t.split("\n"); c = [j for j, x in enumerate(lines) if re.match(r"  (Four char|Date inst|Date rem|Height)", x) and j < t[:safe].count("\n")]; j = r.choice(c); lines.pop(j); t = "\n".join(lines); bad.append(name + " lacks a field")
            elif k == 4: t = t.replace(BLOCKS[2], "2. Something else", 1); bad.append(name + " has no antenna section")
            else: t = ""; bad.append(name + " is empty")
        P.put(os.path.join(logs, name), t); want += rows; files[name] = t
    for x in ("readme.txt", "site.log.bak", "catalog"): 
        if r.random() < .3: P.put(os.path.join(logs, x), "not a log\n")
    for k in range(1 + W(3)):
        save = r.choice([None, "info.txt", "info.txt", os.path.join(P.S.root, "st.txt")]); use_cwd = r.random() < .2
        argv = ([] if use_cwd else [r.choice(["-l", "--log-dir"]), logs]) + (["-o", save] if save else [])
        gone = r.random() < .04
        if gone: argv += ["-l", os.path.join(P.S.root, "nowhere")]
        note("ids_logs2station_info " + " ".join(argv) + " (%d logs, %s)" % (n, bad))
        faults(False); P.S.rate["list_fail"] = P.S.rate.get("read_eio", 0); h0 = P.S.harmful
        rc, stdout, err = P.run_script("script/ids_logs2station_info.py", argv, logs if use_cwd else cwd, ["script/pydoris"])
        P.S.rate = {}
        if rc == 0:
            if gone: fail("wrong-output", "success although the directory does not exist")
            text = stdout if not save else (P.get(os.path.join(logs if use_cwd else cwd, save)) or b"").decode()
            lines = text.split("\n")[1:]; got = []
            for ln in lines:
                if not ln.strip(): continue
                m = re.match(r"^(\S{4}) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) +(\d+\.\d+)$", ln)
                if not m: fail("wrong-output", "row %r" % ln)
                got.append((m.group(1), m.group(2), m.group(3), float(m.group(4))))
            if sorted(got) != sorted(want):
                miss = [x for x in want if x not in got]; more = [x for x in got if x not in want]
                fail("wrong-table", "%d rows, the logs have %d antennas; missing: %s; unknown: %s; damage: %s" % (len(got), len(want), miss[:2], more[:2], bad))
            if bad: count("damage without effect")
            count("tables compared"); nontrivial(); observe(sorted(got))
        else:
            if P.S.harmful == h0 and not bad and not gone: fail("spurious-failure", "failed (%s) although nothing went wrong: %s" % (rc, err.strip().splitlines()[-1:]))
            count("failures"); nontrivial()
        if use_cwd and save and not os.path.isabs(save): pass

# ------------------------------------------------------------------ C04
def fortran_number(r, d):
    """(text, value) of a number as Fortran programs write it, exponent letter d"""
    k = r.randrange(8)
    m = ["%.*f" % (r.randrange(1, 16), r.uniform(-9.99, 9.99)), "%.12f" % r.uniform(-1, 1), ("%.9f" % r.uniform(0, .999))[1:], "%d." % r.randrange(-9, 10), "%d" % r.randrange(-9, 10), "%.6f" % r.uniform(-9999, 9999), "+%.5f" % r.uniform(0, 9), "0.0"][k]
    e = r.choice(["%+03d", "%+03d", "%+d", "%d", "%02d"]) % r.choice([0, 1, -3, -10, -12, 5, 12, -25])
    return m + d + e
def c04():
    r = Wrng(); cwd = os.path.join(P.S.root, "work"); os.mkdir(cwd)
    for k in range(1 + W(3)):
        script = ["script/gfc_fortran2c.py", "var/icgem/script/gfc_fortran2c.py"][W(2)]
        H = ["product_type gravity_field", "modelname %s" % r.choice(["EIGEN-6S4", "GOCO02s", "D1.5D+03"]), "earth_gravity_constant %s" % fortran_number(r, r.choice("dDeE")), "radius 0.6378136460D+07", "max_degree 12", "errors formal", "", "key L M C S sigma C sigma S", "generated 2.5D+01 days before the release", "the data begin after end_of_head", "comment: gfc 2 0 1.0D+00 0.0D+00"]
        r.shuffle(H); H = H[:r.randrange(1, len(H) + 1)]
        H.append(r.choice(["end_of_head", "  end_of_head ", "end_of_head ==========================="]))
        L = []; plain = r.choice("DdDdeE"); mix = r.random() < .3
        for _ in range(r.choice([0, 1, 3, 20, 60, 200])):
            n = lambda: fortran_number(r, r.choice("DdEe") if mix else plain) if r.random() < .93 else "%.10f" % r.uniform(-1, 1)
            key = r.choice(["gfc", "gfc", "gfc", "gfct", "trnd", "acos", "asin"]); L.append("  ".join([key, "%4d" % r.randrange(120), "%4d" % r.randrange(120)] + [n() for _ in range(r.choice([2, 4, 4]))] + (["20050101.0000"] if key == "gfct" else []) + (["1.0"] if key in ("acos", "asin") else [])))
            if r.random() < .03: L.append("")
        text = "\n".join(H + L) + ("\n" if r.random() < .8 else "")
        bad = None
        if W(6) == 0: bad = "no end of header"; text = "\n".join(H[:-1]) + ("\n" + "\n".join(L) if r.random() < .5 else "") + "\n"
        elif W(12) == 0: bad = "empty"; text = ""
        name = "model%d.gfc" % k; gone = W(15) == 0
        if not gone: P.put(os.path.join(cwd, name), text)
        note(script + " %s (%d lines, %s)" % (name, text.count("\n"), "missing" if gone else bad or "well formed"))
        faults(False); h0 = P.S.harmful
        rc, stdout, err = P.run_script(script, [name], cwd)
        P.S.rate = {}
        if rc == 0:
            if gone or bad: fail("wrong-output", "success although the file is %s" % ("missing" if gone else bad))
            want = text.split("\n"); got = stdout.split("\n")
            while want and not want[-1].strip(): want.pop()
            while got and not got[-1].strip(): got.pop()
            if len(want) != len(got): fail("wrong-output", "%d lines, the file has %d" % (len(got), len(want)))
            for i, (x, y) in enumerate(zip(want, got)):
                x, y = x.split(), y.split()
                if i < len(H):
                    if x != y: fail("header-changed", "header line %d: %s instead of %s" % (i, y, x))
                    continue
                if len(x) != len(y) or x[:3] != y[:3]: fail("wrong-output", "line %d: %s instead of %s" % (i, y, x))
                for u, v in zip(x[3:], y[3:]):
                    try: a = float(v)
                    except ValueError: fail("not-converted", "line %d: %s stays %s" % (i, u, v))
                    if a != float(u.replace("D", "e").replace("d", "e")): fail("wrong-value", "line %d: %s becomes %s" % (i, u, v))
            count("conversions compared"); nontrivial(); observe(hash(stdout))
        else:
            if P.S.harmful == h0 and not bad and not gone: fail("spurious-failure", "failed (%s) although nothing went wrong: %s" % (rc, err.strip().splitlines()[-1:]))
            count("failures"); nontrivial()
# ------------------------------------------------------------------ C05
def c05():
    r = Wrng(); cwd = os.path.join(P.S.root, "work"); os.mkdir(cwd)
    TYPES = ["void", "int", "SpiceInt", "SpiceDouble", "ConstSpiceChar", "SpiceBoolean"]
    def decl():
        k = r.randrange(9); n = "f%d_c" % r.randrange(10000)
        if k == 0: return ["   %s %s ( %s );" % (r.choice(TYPES), n, ", ".join("%s %s%s" % (r.choice(TYPES), r.choice(["", "* "]), "a%d" % i) for i in range(r.randrange(6))))]
        if k == 1: return ["   %-18s %s ( %s * a," % (r.choice(TYPES), n, r.choice(TYPES))] + ["\t\t\t%s b%d," % (r.choice(TYPES), i) for i in range(r.randrange(4))] + ["      int last ) ;"]
        if k == 2: return ["#define %s( a, b ) \\" % n.upper(), "        ( %s ( CONST_CAST(a), \\" % n, "          b ) )"]
        if k == 3: return ["/*", "-Abstract", "", "   Prototypes of %s, see \"%s\"" % (n, n), "*/"]
        if k == 4: return ["#if defined(__cplusplus) || %d" % r.randrange(2), "   typedef long %s;" % n, "#else", "   typedef int %s;" % n, "#endif"]
        if k == 5: return ["#ifndef HAVE_%s" % n.upper(), "#define HAVE_%s" % n.upper(), "struct %s { int a; /* } */ };   " % n, "#endif"]
        if k == 6: return ["extern char *%s; // \"extern C\" %%s {:} {0}" % n]
        if k == 7: return [""] * (1 + r.randrange(3))
        return ["   enum _%s { %s };" % (n, ", ".join("V%d" % i for i in range(1 + r.randrange(40))))]
    for k in range(1 + W(3)):
        L = []
        for _ in range(r.choice([0, 1, 3, 12, 60, 250, 600]) if W(25) else r.randrange(1000, 8000)): L += decl()
        bad = None; nl = r.choice(["\n", "\n", "\n", "\r\n"])
        body = nl.join(L) + (nl if L and r.random() < .8 else ""); data = body.encode()
        if L and r.random() < .06: bad = "not UTF-8"; j = r.randrange(len(L)); data = nl.join(L[:j]).encode() + b"\n/* caf\xe9 */\n" + nl.join(L[j:]).encode()
        name = r.choice(["SpiceZpr.h", "my header.h", "sub/a.h", "x{0}.h", "%s.h"]); gone = W(8) == 0; given = gone or W(12)
        if "/" in name: os.makedirs(os.path.join(cwd, "sub"), exist_ok=True)
        if gone: name = ["none.h", "sub", "none/x.h"][W(3)]
        else: P.put(os.path.join(cwd, name), data)
        note("c2cpp_header %r (%d lines, %s)" % (name, len(L), "missing" if gone else bad or "well formed"))
        faults(False); h0 = P.S.harmful
        rc, stdout, err = P.run_script("script/jpl/c2cpp_header.py", [name] if given else [], cwd)
        P.S.rate = {}
        if rc == 0:
            if gone or not given: fail("wrong-output", "success although the header is missing")
            keep = lambda ls: [x.strip() for x in ls if x.strip()]
            if bad: want = keep(re.split("\r\n|\n", data.decode("latin1")))
            else: want = keep(L)
            want = ["#ifdef __cplusplus", 'extern "C" {', "#endif"] + want + ["#ifdef __cplusplus", "}", "#endif"]
            got = keep(stdout.split("\n"))
            if bad: got = [x for x in got if "caf" not in x]; want = [x for x in want if "caf" not in x]
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                fail("wrong-output", "%d lines instead of %d; line %d: %r instead of %r" % (len(got), len(want), i, got[i:i + 1], want[i:i + 1]))
            count("headers compared"); nontrivial(); observe(hash(stdout))
        else:
            if P.S.harmful == h0 and not bad and not gone and given: fail("spurious-failure", "failed (%s) although nothing went wrong: %s" % (rc, err.strip().splitlines()[-1:]))
            count("failures"); nontrivial()
if __name__ == "__main__":
    sys.exit(P.main({"C01": (c01, "a run counts if a merged file was compared or a failure judged"), "C02": (c02, "a run counts if a download was compared or a failure judged"), "C03": (c03, "a run counts if a table was compared or a failure judged"), "C04": (c04, "a run counts if a conversion was compared or a failure judged"), "C05": (c05, "a run counts if a wrapped header was compared or a failure judged")}))
