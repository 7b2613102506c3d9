"""Deterministic simulator for the Python scripts: one seed decides workload, network, disk faults,
directory order and the point where a process dies. The scripts run unchanged inside this process;
open(), os.*, sys.stdout, the clock and the requests module are behind a seam. Same command line and
output protocol as the compiled harnesses (sim.cpp)."""
import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
import builtins, errno, gc, hashlib, io, json, random, re, shutil, signal, tempfile, time, traceback, types, _io
REPO = os.environ.get("VERIF_REPO", "/repo")
STREAMS = ["work", "sched", "fault", "conf", "mem"]
class Crash(BaseException): pass          # the process dies here
class Violation(BaseException): pass
real = types.SimpleNamespace(open=io.open, time=time.time, sleep=time.sleep, monotonic=time.monotonic, pid=os.getpid(), stdout=sys.stdout, stderr=sys.stderr,
    **{k + "_": getattr(os, k) for k in "remove unlink rename replace listdir scandir fsync write truncate mkdir rmdir link symlink getpid urandom open".split()})

class State:
    def __init__(s, seed=0, choices=None):
        s.rng = {k: random.Random("%s/%d" % (k, seed)) for k in STREAMS}
        s.given = choices; s.rec = {k: [] for k in STREAMS}
        s.notes = []; s.counters = {}; s.harmful = 0; s.benign = 0; s.ops = 0; s.steps = 0; s.late = 0; s.cov = set()
        s.dead = False; s.violation = None; s.h = hashlib.sha256(); s.oh = hashlib.sha256(); s.nontriv = False; s.now = 1.7e9
        s.rate = {}; s.in_script = False; s.max_ops = 200000; s.max_steps = 20000000; s.watch = None; s.full = False; s.root = None
        s.other = None; s.depth = 0; s.pid = 4242 # another process, to be run in the middle of the one that is running
S = None

# ---------------------------------------------------------------- choices
def draw(st, n):
    if n <= 1: v = 0
    elif S.given is not None:
        c = S.given[st]; i = len(S.rec[st]); v = c[i] % n if i < len(c) else 0
    else: v = S.rng[st].randrange(n)
    S.rec[st].append(v); return v
def chance(st, permille):
    # quiet value 0 means no
    return bool(permille) and draw(st, 1000) >= 1000 - permille
def W(n): return draw("work", n)
def Wrng(): return random.Random(W(1 << 30))

# ---------------------------------------------------------------- results
def note(m):
    if S.root: m = m.replace(S.root, "")
    S.notes.append(m[:400]); S.h.update(m.encode("utf8", "replace"))
def observe(x):
    b = repr(x).encode(); S.h.update(b); S.oh.update(b)
def count(k, n=1): S.counters[k] = S.counters.get(k, 0) + n
def nontrivial(): S.nontriv = True
def fail(sig, msg):
    if S.violation is None: S.violation = (sig, msg[:1500])
    raise Violation(sig)
def fault(kind, harmful=True):
    count("fault." + kind)
    if harmful: S.harmful += 1
    else: S.benign += 1
    note("[fault] " + kind)
def die(where):
    count("fault.crash"); S.harmful += 1; S.dead = True; note("[fault] the process dies at " + where); raise Crash()

# ---------------------------------------------------------------- storage
def inside(p):
    if isinstance(p, int): return False
    try: p = os.path.abspath(os.fsdecode(p))
    except Exception: return False
    return S is not None and S.root is not None and (p + "/").startswith(S.root + "/")
def op(kind, path):
    """a storage operation is about to happen"""
    if S.dead: raise Crash()
    if S.violation: raise Violation()
    S.ops += 1; S.now += 5e-5; count("io_ops")
    if S.ops > S.max_ops: fail("no-progress", "more than %d storage operations" % S.max_ops)
    if S.watch: S.watch(kind, path)
    if S.other and chance("sched", 150): f = S.other; S.other = None; count("other processes in between"); f("%s of %s" % (kind, os.path.basename(str(path))))
    if chance("fault", S.rate.get("crash", 0)): die("%s of %s" % (kind, os.path.basename(str(path))))
def guard(path):
    if not inside(path): raise PermissionError(errno.EACCES, "outside the simulated storage", str(path))

class SimRaw(io.FileIO):
    """every read and write of a file in the simulated storage"""
    def __init__(s, path, mode, closefd=True, opener=None):
        io.FileIO.__init__(s, path, mode, closefd, opener); s.p = path; s.wfail = None; s.proc = S.proc
    def readinto(s, b):
        op("read", s.p)
        if chance("fault", S.rate.get("read_eio", 0)): fault("read_eio"); raise OSError(errno.EIO, "Input/output error")
        n = len(b)
        if n > 1 and chance("fault", S.rate.get("short_read", 0)):
            fault("short_read", False); m = memoryview(b)[:1 + draw("fault", min(n, 1500) - 1)]; return io.FileIO.readinto(s, m)
        return io.FileIO.readinto(s, b)
    def readall(s):
        out = []
        while True:
            b = bytearray(65536); n = s.readinto(b)
            if not n: return b"".join(out)
            out.append(bytes(b[:n]))
    def read(s, n=-1):
        if n is None or n < 0: return s.readall()
        b = bytearray(n); k = s.readinto(b); return bytes(b[:k])
    def write(s, data):
        data = bytes(data)
        if not s.proc[0]: return len(data)   # left over from a process that has ended
        if s.wfail: raise OSError(s.wfail, os.strerror(s.wfail))
        op("write", s.p)
        if S.full or chance("fault", S.rate.get("write_enospc", 0)):
            fault("write_enospc"); S.full = True
            k = draw("fault", len(data)) if data else 0
            if k: io.FileIO.write(s, data[:k]); return k # the rest fails
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if chance("fault", S.rate.get("write_eio", 0)): fault("write_eio"); s.wfail = errno.EIO; raise OSError(errno.EIO, os.strerror(errno.EIO))
        if len(data) > 1 and chance("fault", S.rate.get("short_write", 0)): fault("short_write", False); data = data[:1 + draw("fault", len(data) - 1)]
        if chance("fault", S.rate.get("crash", 0)):
            k = draw("fault", len(data) + 1)
            if k: io.FileIO.write(s, data[:k])
            die("write to " + os.path.basename(str(s.p)))
        n = io.FileIO.write(s, data)
        if S.watch: S.watch("written", s.p)
        return n
    def close(s):
        if s.closed: return
        wr = False
        try: wr = s.writable()
        except ValueError: pass
        io.FileIO.close(s)
        if wr and s.proc[0] and S and not S.dead and not S.violation and chance("fault", S.rate.get("close_fail", 0)): fault("close_fail"); raise OSError(errno.EIO, os.strerror(errno.EIO))
    def truncate(s, size=None): op("truncate", s.p); return io.FileIO.truncate(s, size)

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    own = S is not None and S.in_script
    if not own: return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fd = isinstance(file, int)
    if not fd and not inside(file):
        if any(c in mode for c in "wxa+"): guard(file)
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode; rawmode = mode.replace("b", "").replace("t", "")
    if S.dead: raise Crash()
    if not fd:
        op("open", file)
        if chance("fault", S.rate.get("open_fail", 0)): fault("open_fail"); raise OSError(errno.EACCES, os.strerror(errno.EACCES), str(file))
    raw = SimRaw(file, rawmode, closefd, opener)
    if S.watch: S.watch("opened", file)
    if binary and buffering == 0: return raw
    size = 8192 if buffering in (-1, 1) else buffering
    upd = "+" in mode
    buf = io.BufferedRandom(raw, size) if upd else io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
    if binary: return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t

def wrap_path(name, harmful_rate=None, err=errno.EACCES, npaths=1):
    f = getattr(real, name + "_")
    def g(*a, **k):
        if S is None or not S.in_script: return f(*a, **k)
        if S.dead: raise Crash()
        for p in a[:npaths]: guard(p)
        op(name, a[-1] if npaths == 2 else a[0])
        if harmful_rate and chance("fault", S.rate.get(harmful_rate, 0)): fault(harmful_rate); raise OSError(err, os.strerror(err), str(a[0]))
        r = f(*a, **k)
        if S.watch: S.watch(name + " done", a[0])
        if chance("fault", S.rate.get("crash", 0)): die("after " + name)
        return r
    return g
def sim_listdir(p="."):
    r = real.listdir_(p)
    if S is None or not S.in_script or not inside(p): return r
    op("listdir", p)
    if chance("fault", S.rate.get("list_fail", 0)): fault("list_fail"); raise OSError(errno.EIO, os.strerror(errno.EIO), str(p))
    r.sort(); o = []
    while r: o.append(r.pop(draw("sched", len(r))))
    return o
class sim_scandir:
    def __init__(s, p="."):
        it = list(real.scandir_(p))
        if S is not None and S.in_script and inside(p):
            op("listdir", p); it.sort(key=lambda e: e.name); o = []
            while it: o.append(it.pop(draw("sched", len(it))))
            it = o
        s.it = iter(it)
    def __iter__(s): return s
    def __next__(s): return next(s.it)
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def close(s): pass
def sim_fsync(fd):
    if S is None or not S.in_script: return real.fsync_(fd)
    op("fsync", "fd")
    if chance("fault", S.rate.get("fsync_fail", 0)): fault("fsync_fail"); raise OSError(errno.EIO, os.strerror(errno.EIO))
def sim_os_open(path, flags, mode=0o777, **k):
    if S is not None and S.in_script and not k and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT): guard(path); op("open", path)
    return real.open_(path, flags, mode, **k)
def sim_os_write(fd, data):
    if S is None or not S.in_script or fd < 3: return real.write_(fd, data)
    op("write", "fd")
    if S.full or chance("fault", S.rate.get("write_enospc", 0)): fault("write_enospc"); S.full = True; raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    return real.write_(fd, data)
class Blocked:
    def __init__(s, n): s.n = n
    def __call__(s, *a, **k): raise PermissionError(errno.EACCES, s.n + " is outside the simulation")
def install():
    builtins.open = io.open = _io.open = sim_open
    os.remove = os.unlink = wrap_path("remove", "unlink_fail")
    os.rename = wrap_path("rename", "rename_fail", npaths=2); os.replace = wrap_path("replace", "rename_fail", npaths=2)
    os.truncate = wrap_path("truncate"); os.mkdir = wrap_path("mkdir"); os.rmdir = wrap_path("rmdir"); os.link = wrap_path("link", npaths=2); os.symlink = wrap_path("symlink", npaths=1)
    os.listdir, os.scandir, os.fsync, os.open, os.write = sim_listdir, sim_scandir, sim_fsync, sim_os_open, sim_os_write
    def tm(): return S.now if S is not None and S.in_script else real.time()
    def slp(d):
        if S is not None and S.in_script: S.now += max(0, d); op("sleep", "")
        else: real.sleep(d)
    time.time = tm; time.sleep = slp; time.monotonic = lambda: S.now if S is not None and S.in_script else real.monotonic()
    os.getpid = lambda: S.pid if S is not None and S.in_script else real.getpid_()
    rr = random.Random(1)
    os.urandom = lambda n: rr.randbytes(n) if S is not None and S.in_script else real.urandom_(n)
    os.system = Blocked("os.system")
    import subprocess; subprocess.Popen.__init__ = lambda s, *a, **k: (_ for _ in ()).throw(PermissionError(errno.EACCES, "subprocesses are outside the simulation")) if S is not None and S.in_script else real_popen(s, *a, **k)
    if not hasattr(sys, "monitoring"): return
    M = sys.monitoring; M.use_tool_id(3, "pysim"); M.register_callback(3, M.events.LINE, on_line); M.set_events(3, M.events.LINE)
import subprocess
real_popen = subprocess.Popen.__init__
def on_line(code, line):
    if not code.co_filename.startswith(REPO): return sys.monitoring.DISABLE
    if S is None or not S.in_script: return
    if S.violation: raise Violation(S.violation[0])   # the run is over, whatever the script catches
    if S.dead:
        S.late += 1
        if S.late <= S.max_steps: return
    S.steps += 1; S.cov.add((code.co_name, line))
    if S.late > S.max_steps: fail("no-progress", "goes on after its process died")
    if S.steps > S.max_steps: fail("no-progress", "more than %d lines executed" % S.max_steps)

# ---------------------------------------------------------------- network: a stand-in for the requests module
class Net:
    def __init__(s): s.handler = None; s.requests = 0; s.limit = 400; s.calls = []
net = Net()
def make_requests():
    m = types.ModuleType("requests"); ex = types.ModuleType("requests.exceptions")
    class RequestException(IOError):
        def __init__(s, *a, **k): s.response = k.pop("response", None); s.request = k.pop("request", None); super().__init__(*a)
    class HTTPError(RequestException): pass
    class ConnectionError(RequestException): pass
    class Timeout(RequestException): pass
    class ConnectTimeout(ConnectionError, Timeout): pass
    class ReadTimeout(Timeout): pass
    class ChunkedEncodingError(RequestException): pass
    class ContentDecodingError(RequestException): pass
    class TooManyRedirects(RequestException): pass
    class SSLError(ConnectionError): pass
    for c in (RequestException, HTTPError, ConnectionError, Timeout, ConnectTimeout, ReadTimeout, ChunkedEncodingError, ContentDecodingError, TooManyRedirects, SSLError): setattr(ex, c.__name__, c); setattr(m, c.__name__, c)
    class Response:
        def __init__(s, url, status, body, cut): s.url, s.status_code, s._b, s._cut = url, status, body, cut; s.headers = {"Content-Length": str(len(body)), "Content-Type": "text/plain"}; s.encoding = "utf-8"; s.reason = "OK" if status == 200 else "Error"; s.history = []; s.elapsed = None; s.request = None
        @property
        def ok(s): return s.status_code < 400
        def __bool__(s): return s.ok
        @property
        def content(s):
            if s._cut is not None: fault("drop"); raise ChunkedEncodingError("Connection broken: IncompleteRead(%d bytes read)" % s._cut)
            return s._b
        @property
        def text(s): return s.content.decode("utf-8", "replace")
        def iter_content(s, chunk_size=1, decode_unicode=False):
            n = chunk_size or max(1, len(s._b)); end = len(s._b) if s._cut is None else s._cut
            for i in range(0, end, n): yield s._b[i:min(i + n, end)]
            if s._cut is not None: fault("drop"); raise ChunkedEncodingError("Connection broken: IncompleteRead(%d bytes read)" % s._cut)
        def iter_lines(s, *a, **k): return iter(b"".join(s.iter_content(512)).splitlines())
        @property
        def raw(s): return io.BytesIO(s._b if s._cut is None else s._b[:s._cut])
        def raise_for_status(s):
            if s.status_code >= 400: raise HTTPError("%d %s Error for url: %s" % (s.status_code, "Client" if s.status_code < 500 else "Server", s.url), response=s)
        def close(s): pass
        def __enter__(s): return s
        def __exit__(s, *a): return False
        def json(s, **k): return json.loads(s.text)
    def get(url, params=None, **k):
        if S.dead: raise Crash()
        net.requests += 1; S.now += 0.2; count("requests")
        if net.requests > net.limit: fail("unbounded-requests", "more than %d requests in one invocation" % net.limit)
        if S.watch: S.watch("request", url)
        if S.other and chance("sched", 150): f = S.other; S.other = None; count("other processes in between"); f("request")
        if chance("fault", S.rate.get("crash", 0)): die("request")
        f = S.rate.get("net", 0)
        if chance("fault", f):
            w = draw("fault", 6)
            if w == 0: fault("connect"); raise ConnectionError("connection refused")
            if w == 1: fault("resolve"); raise ConnectionError("name resolution failed")
            if w == 2:
                fault("stall")
                if not k.get("timeout"): fail("hangs", "the server stalls and the request has no time limit")
                t = k["timeout"]; S.now += max(x for x in (t if isinstance(t, tuple) else (t,)) if x)
                raise ReadTimeout("read timed out")
            if w == 3: fault("http_status"); return Response(url, [404, 500, 503, 403, 429][draw("fault", 5)], b"<html><body>no</body></html>\n", None)
            if w == 4: fault("http_status"); return Response(url, [500, 502, 416][draw("fault", 3)], net.handler(url)[1], None) # an error with a plausible body
            st, body = net.handler(url)
            cut = draw("fault", len(body) + 1) if body else 0
            r = Response(url, st, body, cut)
            if not k.get("stream"): r.content
            return r
        st, body = net.handler(url)
        if chance("fault", S.rate.get("redirect", 0)): # the server has moved the file
            fault("redirect", False)
            if not k.get("allow_redirects", True): return Response(url, [301, 302, 307][draw("fault", 3)], b"<html><body>moved</body></html>\n", None)
            S.now += 0.1; url = url.replace("://", "://mirror.")
        return Response(url, st, body, None)
    class Session:
        def __init__(s): s.headers = {}; s.adapters = {}
        def get(s, url, **k): return get(url, **k)
        def mount(s, *a): pass
        def request(s, method, url, **k): return get(url, **k)
        def close(s): pass
        def __enter__(s): return s
        def __exit__(s, *a): return False
    m.get = get; m.request = lambda method, url, **k: get(url, **k); m.Session = m.session = Session; m.exceptions = ex; m.Response = Response; m.codes = types.SimpleNamespace(ok=200, not_found=404)
    sys.modules["requests"] = m; sys.modules["requests.exceptions"] = ex

# ---------------------------------------------------------------- running a script
_code = {}
def run_script(rel, argv, cwd, extra_path=()):
    """one process: returns exit status or 'crash'; (status, stdout text, stderr text)"""
    path = os.path.join(REPO, rel)
    if path not in _code: _code[path] = compile(real.open(path, encoding="utf-8").read(), path, "exec")
    up = (net.requests, S.dead, S.full, S.rate, S.watch, S.pid, S.in_script, S.proc, os.getcwd()) if S.depth else None
    net.requests = 0; S.dead = False; S.full = bool(up and S.full); S.depth += 1; S.proc = proc = [True]; S.pid = up[5] + 7 if up else 4242
    os.chdir(cwd)
    mods = set(sys.modules); sp, sa, so, se = list(sys.path), sys.argv, sys.stdout, sys.stderr
    sys.path[:0] = [os.path.dirname(path)] + [os.path.join(REPO, x) for x in extra_path]
    sys.argv = [path] + list(argv)
    outp, errp = os.path.join(S.root, "stdout%d" % S.depth if S.depth > 1 else "stdout"), io.StringIO()
    for f in (outp,):
        if os.path.exists(f): real.remove_(f)
    real.open(outp, "w").close()
    S.in_script = True
    rc = 0; g = {"__name__": "__main__", "__file__": path, "__builtins__": builtins}
    try:
        keep = S.rate; quiet = {k: v for k, v in keep.items() if k in ("write_enospc", "write_eio", "short_write", "crash")}
        S.rate = {}; sys.stdout = io.TextIOWrapper(io.BufferedWriter(SimRaw(outp, "a"), 8192), "utf-8"); S.rate = keep
        sys.stderr = errp
        try: exec(_code[path], g)
        except SystemExit as e: rc = 0 if e.code is None else (e.code & 255) if isinstance(e.code, int) else 1
        except (Crash, Violation): rc = "crash"
        except BaseException: rc = 1; errp.write(traceback.format_exc())
        # the interpreter ends: standard output is flushed, open files are closed, their errors ignored
        if rc != "crash":
            try: sys.stdout.flush()
            except OSError: rc = 120 if rc == 0 else rc
            except (Crash, Violation): rc = "crash"
        if S.dead or S.violation: rc = "crash"
        hook = sys.unraisablehook; sys.unraisablehook = lambda u: note("[exit] ignored: %s" % u.exc_value)
        try:
            g.clear(); gc.collect()
            try: sys.stdout.detach()
            except BaseException: pass
        except (Crash, Violation, OSError): pass
        finally: sys.unraisablehook = hook
        if S.dead: rc = "crash"
    finally:
        S.in_script = False; S.depth -= 1; proc[0] = False
        sys.path[:] = sp; sys.argv, sys.stdout, sys.stderr = sa, so, se
        for k in set(sys.modules) - mods:
            f = getattr(sys.modules[k], "__file__", None) or ""
            if f.startswith(REPO): del sys.modules[k]
        os.chdir("/")
        if up: net.requests, S.dead, S.full, S.rate, S.watch, S.pid, S.in_script, S.proc = up[:8]; os.chdir(up[8])
    if S.violation: raise Violation()
    with real.open(outp, encoding="utf-8", errors="replace") as f: out = f.read()
    note("exit %s%s" % (rc, (": " + errp.getvalue().strip().splitlines()[-1][:160]) if rc and errp.getvalue().strip() else ""))
    observe(rc)
    return rc, out, errp.getvalue()
def put(path, data):
    with real.open(path, "wb") as f: f.write(data if isinstance(data, bytes) else data.encode())
def get(path):
    try:
        with real.open(path, "rb") as f: return f.read()
    except OSError: return None
def swarm(kinds):
    """pick a mix of fault rates"""
    S.rate = {}
    for k in kinds:
        if draw("conf", 2): S.rate[k] = [5, 20, 60, 200][draw("conf", 4)]
    return S.rate

# ---------------------------------------------------------------- driver
def one(fn, seed, choices=None):
    global S
    S = State(seed, choices); net.__init__()
    base = os.path.join(one.base, "run"); shutil.rmtree(base, ignore_errors=True); os.mkdir(base); S.root = base
    status = 0
    try: fn()
    except Violation: pass
    except Crash: pass
    if S.violation: status = 1; S.h.update(repr(S.violation).encode())
    S.h.update(b"%d" % S.steps)
    r = S; S = None
    r.status = status; r.hash = r.h.hexdigest()[:16]; r.ohash = r.oh.hexdigest()[:16]
    r.cs = hashlib.sha256(repr(sorted(r.cov)).encode()).hexdigest()[:16]
    return r
def run_seed(seed, i): return int(hashlib.sha256(b"%d/%d" % (seed, i)).hexdigest()[:12], 16)
def minimise(fn, rec, sig, limit):
    t0 = real.monotonic(); best = {k: list(v) for k, v in rec.items()}; n = 0
    def attempt(c):
        nonlocal best, n
        n += 1; r = one(fn, 0, c)
        if r.status == 1 and r.violation[0] == sig: best = {k: list(v) for k, v in r.rec.items()}; [best[k].pop() for k in best for _ in list(best[k]) if best[k] and best[k][-1] == 0]; return True
        return False
    prog = True
    while prog and real.monotonic() - t0 < limit:
        prog = False
        for st in ("sched", "fault", "conf", "work"):
            c = {k: list(v) for k, v in best.items()}
            if c[st]:
                c[st] = []
                if attempt(c): prog = True; continue
            ln = len(best[st]) // 2
            while ln >= 1 and real.monotonic() - t0 < limit:
                at = 0
                while at + ln <= len(best[st]) and real.monotonic() - t0 < limit:
                    c = {k: list(v) for k, v in best.items()}
                    if any(c[st][at:at + ln]):
                        c[st][at:at + ln] = [0] * ln
                        if attempt(c): prog = True
                    at += ln
                ln //= 2
    return best, n
def timeout_run(fn, seed, secs=120):
    def h(*a): raise TimeoutError
    signal.signal(signal.SIGALRM, h); signal.alarm(secs)
    try: return one(fn, seed)
    finally: signal.alarm(0)
def main(props):
    a = sys.argv[1:]; o = {"seed": 1, "runs": 1000, "time": 60.0, "outdir": "/tmp", "jobs": os.cpu_count() or 4}
    i = 0
    while i < len(a): o[a[i][2:]] = a[i + 1]; i += 2
    prop = o["prop"]; fn, rule = props[prop]; seed, runs, tl, out, jobs = int(o["seed"]), int(o["runs"]), float(o["time"]), o["outdir"], min(60, int(o["jobs"]))
    make_requests(); install()
    top = tempfile.mkdtemp(prefix="pysim-", dir=out); one.base = top
    try:
        if "replay" in o:
            c = {k: [] for k in STREAMS}
            for ln in real.open(o["replay"]):
                m = re.match(r"choices (\w+): ?(.*)", ln)
                if m: c[m.group(1)] = [int(x) for x in m.group(2).split()]
            r = one(fn, 0, c)
            for x in r.notes: print(x)
            v = r.violation or ("", "")
            print("REPLAY status=%d sig=%s hash=%s msg=%s" % (r.status, v[0], r.hash, v[1])); sys.stdout.flush()
            return 1 if r.status else 0
        if "only" in o:
            r = one(fn, run_seed(seed, int(o["only"])))
            for x in r.notes: print(x)
            print("RUN", r.status, r.violation, r.counters); return r.status
        t0 = real.monotonic(); ws = []
        stop = os.path.join(top, "stop")
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                try:
                    one.base = os.path.join(top, "w%d" % w); os.mkdir(one.base)
                    import ctypes; ctypes.CDLL(None).prctl(1, 9)
                    T = {"n": 0, "steps": 0, "sim": 0.0, "harmful": 0, "benign": 0, "nontriv": 0, "faultruns": 0, "ch": 0, "cnt": {}, "oh": set(), "cs": set(), "all": set(), "samples": [], "found": None, "known": {}}
                    known = set(x for x in o.get("known", "").split(",") if x); idx = w; t_start = 1.7e9
                    while idx < runs and real.monotonic() - t0 < tl and not os.path.exists(stop):
                        r = timeout_run(fn, run_seed(seed, idx))
                        T["n"] += 1; T["steps"] += r.steps; T["sim"] += r.now - t_start; T["harmful"] += r.harmful; T["benign"] += r.benign; T["faultruns"] += r.harmful + r.benign > 0; T["ch"] += sum(map(len, r.rec.values()))
                        T["all"].add(r.hash); T["cs"].add(r.cs)
                        if r.nontriv: T["nontriv"] += 1; T["oh"].add(r.ohash)
                        for k, v in r.counters.items(): T["cnt"][k] = T["cnt"].get(k, 0) + v
                        if idx < 4: T["samples"].append("run %d: " % idx + "\n".join(r.notes)[:1200])
                        if r.status:
                            if r.violation[0] in known: T["known"][r.violation[0]] = T["known"].get(r.violation[0], 0) + 1
                            else: T["found"] = idx; real.open(stop, "w").close(); break
                        idx += jobs
                    for k in ("oh", "cs", "all"): T[k] = sorted(T[k])
                    with real.open(os.path.join(top, "r%d" % w), "w") as f: json.dump(T, f)
                    shutil.rmtree(one.base, ignore_errors=True)
                    os._exit(0)
                except BaseException: traceback.print_exc(file=real.stderr); real.stderr.flush(); os._exit(3)
            ws.append(pid)
        bad = 0
        for p in ws: bad += os.waitpid(p, 0)[1] != 0
        if bad: print("ERROR: %d worker(s) failed" % bad, file=sys.stderr); return 3
        Ts = [json.load(real.open(os.path.join(top, "r%d" % w))) for w in range(jobs)]
        search = real.monotonic() - t0
        A = lambda k: sum(t[k] for t in Ts); U = lambda k: len(set(x for t in Ts for x in t[k]))
        def merge(k):
            d = {}
            for t in Ts:
                for a_, v in t[k].items(): d[a_] = d.get(a_, 0) + v
            return d
        found = [t["found"] for t in Ts if t["found"] is not None]; vio = None; det = 0
        if found:
            idx = min(found); sd = run_seed(seed, idx); r1 = one(fn, sd); r2 = one(fn, sd)
            if r1.status != 1 or r1.hash != r2.hash: print("ERROR: run %d is not repeatable" % idx, file=sys.stderr); return 3
            best, n = minimise(fn, r1.rec, r1.violation[0], 10)
            m = one(fn, 0, best)
            if m.status != 1 or m.violation[0] != r1.violation[0]: best = r1.rec; m = one(fn, 0, best)
            rf = os.path.join(out, "%s-%x.replay" % (prop, sd))
            with real.open(rf, "w") as f:
                f.write("# replay of a simulated run\nproperty %s\nseed %d run %d runseed %x\nsignature %s\nmessage %s\nhash %s\nminimised-in %d runs\n" % (prop, seed, idx, sd, m.violation[0], m.violation[1].replace("\n", " "), m.hash, n))
                for k in STREAMS: f.write("choices %s: %s\n" % (k, " ".join(map(str, best[k]))))
                f.write("trace:\n" + "\n".join(m.notes) + "\n")
            vio = {"sig": m.violation[0], "msg": m.violation[1].replace("\n", " "), "replay": rf, "run": idx, "hash": m.hash}
        else:
            for q in range(3):
                if one(fn, run_seed(seed, q)).hash != one(fn, run_seed(seed, q)).hash: print("ERROR: run %d is not deterministic" % q, file=sys.stderr); return 3
                det += 1
        print(json.dumps({"property": prop, "seed": seed, "runs": A("n"), "search_s": round(search, 2), "edges": A("steps"), "sim_ns": int(A("sim") * 1e9), "harmful": A("harmful"), "benign": A("benign"), "nontrivial": A("nontriv"), "fault_runs": A("faultruns"), "choices": A("ch"),
            "distinct_outcomes": U("oh"), "distinct_coverage": U("cs"), "distinct_executions": U("all"), "determinism_rechecks": det, "rule": rule, "counters": merge("cnt"), "known": merge("known"), "samples": [x for t in Ts for x in t["samples"]][:4], "violation": vio}))
        sys.stdout.flush()
        return 1 if vio else 0
    finally: shutil.rmtree(top, ignore_errors=True)
