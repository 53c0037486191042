"""P20: whatever interrupts, corrupts or races a download, no incomplete or wrong file is ever in place of a data file.
The real python/download.py runs against an in-process HTTP transport; every crash point (each executed line), every fault
position and every two-process interleaving up to the preemption bound is executed in a scratch directory."""
import hashlib, http.client, importlib.util, io, itertools, json, os, resource, shutil, signal, sys, tempfile, threading, types, urllib.error, urllib.request, zipfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python", "download.py")
BASE = tempfile.mkdtemp(prefix="dl-", dir=os.environ.get("VERIF_SCRATCH"))
os.environ["HOME"] = BASE
def load():
    s = importlib.util.spec_from_file_location("dl_under_test", SRC); m = importlib.util.module_from_spec(s); sys.modules["dl_under_test"] = m; s.loader.exec_module(m); return m
dl = load()
CH = 1 << 16
GOOD = bytes((i * 7 + (i >> 8)) & 255 for i in range(2 * CH + 777)); SMALL = b"alpha beta gamma\n"
SHA = hashlib.sha256(GOOD).hexdigest()
# ---------------------------------------------------------------- transport
class Body(io.RawIOBase):
    def __init__(self, data, fail_at=None, exc=None): self.d = data; self.p = 0; self.fail = fail_at; self.exc = exc
    def readable(self): return True
    def readinto(self, b):
        end = len(self.d) if self.fail is None else min(self.fail, len(self.d)); n = min(len(b), end - self.p)
        if n <= 0:
            if self.fail is not None and self.exc: raise self.exc
            return 0
        b[:n] = self.d[self.p:self.p + n]; self.p += n; return n
class Sock:
    def __init__(self, f): self.f = f
    def makefile(self, *a, **k): return io.BufferedReader(self.f, 1 << 14)
    def close(self): pass
class Net(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    """url -> behaviour: dict(body, status, length(True/False/int), cut(bytes), reset(bytes), refuse)"""
    def __init__(self): urllib.request.HTTPHandler.__init__(self); urllib.request.HTTPSHandler.__init__(self); self.map = {}; self.calls = []
    def _open(self, req):
        url = req.full_url; self.calls.append(url); b = self.map.get(url)
        if callable(b): b = b()
        if b is None: b = dict(status=404, body=b"nope")
        if b.get("refuse"): raise urllib.error.URLError(ConnectionRefusedError(111, "refused"))
        body = b.get("body", b""); st = b.get("status", 200); ln = b.get("length", True); head = "HTTP/1.1 %d X\r\n" % st
        if ln is True: head += "Content-Length: %d\r\n" % len(body)
        elif ln is not False: head += "Content-Length: %d\r\n" % ln
        if "location" in b: head += "Location: %s\r\n" % b["location"]
        head = (head + "Connection: close\r\n\r\n").encode(); fail = None; exc = None
        if "cut" in b: fail = len(head) + b["cut"]
        if "reset" in b: fail = len(head) + b["reset"]; exc = ConnectionResetError(104, "reset")
        r = http.client.HTTPResponse(Sock(Body(head + body, fail, exc)), method="GET", url=url); r.begin(); r.url = url; r.msg = r.reason; return r
    http_open = https_open = _open
NET = Net(); urllib.request.install_opener(urllib.request.build_opener(NET))
U = "http://data.test/"; Z = "https://zenodo.org/api/records/%s/files"
def zen(rec, files, links="content"):
    NET.map[Z % rec] = dict(body=json.dumps({"entries": [{"key": n, "links": {links: U + "z/%s/%s" % (rec, n)}} for n in files]}).encode())
    for n, d in files.items(): NET.map[U + "z/%s/%s" % (rec, n)] = d if isinstance(d, dict) or callable(d) else dict(body=d)
def mkzip(entries):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for n, d in entries:
            zi = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)); zi.compress_type = zipfile.ZIP_DEFLATED; z.writestr(zi, d)
    return b.getvalue()
def fresh(): return tempfile.mkdtemp(prefix="d-", dir=BASE)
def listing(d): return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
def content(p):
    try:
        with open(p, "rb") as f: return f.read()
    except OSError: return None
def quiet(fn):
    o = sys.stdout; sys.stdout = io.StringIO()
    try: return fn()
    finally: sys.stdout = o
def attempt(fn):
    try: quiet(fn); return None
    except Exception as e: return e
# ---------------------------------------------------------------- the operations under study
ARCH = [("data/alpha/one.txt", SMALL), ("data/alpha/two.bin", GOOD), ("data/alphabet/x.txt", b"not alpha"), ("data/beta/sub/three.txt", b"three" * 40)]
def arch_expect(prefix): return {n: d for n, d in ARCH if not prefix or n.startswith(prefix + "/")}
class Op:
    """name, call(dir), targets: rel path -> content when complete, sentinel rel path or None"""
    def __init__(self, name, call, targets, sentinel=None, setup=None): self.name = name; self.call = call; self.targets = targets; self.sentinel = sentinel; self.setup = setup or (lambda: None)
def good():
    NET.map.clear(); NET.map[U + "g"] = dict(body=GOOD); NET.map[U + "s"] = dict(body=SMALL); NET.map[U + "nolen"] = dict(body=GOOD, length=False); NET.map[U + "short"] = dict(body=GOOD, cut=CH + 5); NET.map[U + "reset"] = dict(body=GOOD, reset=CH + 5); NET.map[U + "bad"] = dict(body=GOOD[:-1] + b"!"); NET.map[U + "moved"] = dict(status=302, location=U + "g", body=b""); zen("77", {"arch.zip": mkzip(ARCH), "a.dat": GOOD, "b.dat": SMALL}); NET.calls.clear()
OPS = [
    Op("file", lambda d: dl.download_file(U + "g", d + "/sub/f.bin"), {"sub/f.bin": GOOD}),
    Op("file-sha", lambda d: dl.download_file(U + "g", d + "/f.bin", sha256=SHA), {"f.bin": GOOD}),
    Op("ensure-files", lambda d: dl.ensure_files([{"path": d + "/f.bin", "url": U + "g"}, {"path": d + "/t/s.txt", "url": U + "s", "sha256": hashlib.sha256(SMALL).hexdigest()}]), {"f.bin": GOOD, "t/s.txt": SMALL}),
    Op("zenodo-files", lambda d: dl.ensure_zenodo_files("77", [{"name": "a.dat", "path": "x/a.dat"}, {"name": "b.dat"}], d), {"x/a.dat": GOOD, "b.dat": SMALL}),
    Op("archive", lambda d: dl.ensure_zenodo_archive("77", "arch.zip", d), arch_expect(""), ".zenodo_extracted"),
    Op("archive-prefix", lambda d: dl.ensure_zenodo_archive("77", "arch.zip", d, prefix="data/alpha"), arch_expect("data/alpha"), "data/alpha/.zenodo_extracted"),
]
def done(op, d): return os.path.isfile(os.path.join(d, op.sentinel)) if op.sentinel else None
def wrong(op, d):
    """None, or what is wrong: a data file in place that is not the complete right one (for archives: once marked as extracted)."""
    if op.sentinel and not done(op, d): return None
    for n, c in op.targets.items():
        g = content(os.path.join(d, n))
        if g is None and not op.sentinel: continue
        if g != c: return "%s holds %s of %d bytes" % (n, "nothing" if g is None else "%d bytes%s" % (len(g), "" if len(g) != len(c) else " (altered)"), len(c))
    return None
def recovered(op, d, key, where):
    good(); e = attempt(lambda: op.call(d)); vc.expect(e is None, key + ":recovery", lambda: "%s: the next attempt fails with %r" % (where, e)); vc.step()
    for n, c in op.targets.items(): vc.expect(content(os.path.join(d, n)) == c, key + ":recovery", lambda: "%s: after the next attempt %s is wrong" % (where, n))
TRACED = tuple(os.path.realpath(f) for f in (SRC, shutil.__file__)) + tuple(os.path.realpath(f) for f in ([zipfile.__file__] if zipfile.__file__ else []))
def tracer(hook, files):
    def local(frame, event, arg):
        if event == "line": hook(frame)
        return local
    def glob(frame, event, arg): return local if os.path.realpath(frame.f_code.co_filename) in files else None
    return glob
# ---------------------------------------------------------------- crash points
def crashes(op, pre):
    """kill the process before the k-th executed line, for every k"""
    files = TRACED if vc.thorough() else TRACED[:2]; k = 0
    while True:
        k += 1; d = fresh(); good(); vc.note("%s crash %d" % (op.name, k))
        if pre: # an older complete state, an unrelated neighbour, leftovers
            for n in ("f.bin.tmp", "neighbour.bin"):
                with open(os.path.join(d, n), "wb") as f: f.write(b"left over")
        pid = os.fork()
        if pid == 0:
            cnt = [0]
            def hook(frame):
                cnt[0] += 1
                if cnt[0] == k: os._exit(77)
            sys.stdout = io.StringIO(); sys.settrace(tracer(hook, files))
            try: op.call(d)
            except BaseException: os._exit(5)
            os._exit(0)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]); vc.trace(); vc.step(); where = "%s killed before line event %d" % (op.name, k)
        if st == 77:
            w = wrong(op, d); vc.expect(w is None, "crash:" + op.name, lambda: "%s: %s" % (where, w)); vc.state("%s %d %s" % (op.name, k, listing(d)))
            recovered(op, d, "crash:" + op.name, where)
            if pre: vc.expect(content(d + "/neighbour.bin") == b"left over", "crash:neighbour", where)
        shutil.rmtree(d, ignore_errors=True)
        if st != 77: vc.expect(st == 0, "crash:undisturbed", "%s: undisturbed run ends with %d" % (op.name, st)); break
# ---------------------------------------------------------------- transfer and disk faults
def transfer_faults():
    cuts = [0, 1, 100, CH - 1, CH, CH + 1, 2 * CH - 1, 2 * CH, 2 * CH + 1, len(GOOD) - 1] + (list(range(1000, len(GOOD), 1777)) if vc.thorough() else list(range(5000, len(GOOD), 9973)))
    for sha in ("", SHA):
        for old in (None, b"older version"):
            beh = [("complete", dict(body=GOOD)), ("no-length", dict(body=GOOD, length=False)), ("refuse", dict(refuse=True)), ("altered", dict(body=GOOD[:-1] + b"!")), ("longer", dict(body=GOOD + b"x"))]
            beh += [("status-%d" % s, dict(status=s, body=b"error page")) for s in (400, 403, 404, 429, 500, 503)] + [("cut-%d" % c, dict(body=GOOD, cut=c)) for c in cuts] + [("cut-nolen-%d" % c, dict(body=GOOD, cut=c, length=False)) for c in cuts] + [("reset-%d" % c, dict(body=GOOD, reset=c)) for c in cuts] + [("moved", dict(status=302, location=U + "g2", body=b"")), ("moved-nowhere", dict(status=302, location=U + "nowhere", body=b""))]
            for name, b in beh:
                d = fresh(); good(); NET.map[U + "g"] = b; NET.map[U + "g2"] = dict(body=GOOD); p = d + "/in/f.bin"; os.makedirs(d + "/in"); where = "%s%s%s" % (name, " with checksum" if sha else "", " over an older file" if old else "")
                if old:
                    with open(p, "wb") as f: f.write(old)
                e = attempt(lambda: dl.download_file(U + "g", p, sha256=sha)); c = content(p); vc.trace(); vc.step(); vc.state(where)
                if e is None:
                    ok = c == GOOD or (not sha and (("altered" in name and c == b["body"]) or (name == "longer" and c == b["body"]) or ("cut-nolen" in name and c == GOOD[:b["cut"]])))
                    vc.expect(ok, "fault:accepted-incomplete", lambda: "%s: reported success but holds %s bytes of %d" % (where, len(c) if c is not None else None, len(GOOD)))
                else:
                    vc.expect(c == old, "fault:replaced-on-failure", lambda: "%s: failed (%r) yet the file is now %s" % (where, e, None if c is None else len(c))); vc.expect(listing(d) == (["in/f.bin"] if old else []), "fault:left-behind", lambda: "%s: failed and left %s" % (where, listing(d)))
                must = name in ("complete", "no-length", "moved"); bad = name.startswith(("status", "refuse", "reset", "moved-no")) or (name.startswith("cut-") and "nolen" not in name) or (sha and not must)
                if must: vc.expect(e is None and c == GOOD, "fault:healthy-refused", lambda: "%s: %r" % (where, e))
                if bad: vc.expect(e is not None, "fault:undetected", where)
                good(); e2 = attempt(lambda: dl.download_file(U + "g", p, sha256=sha)); vc.expect(e2 is None and content(p) == GOOD, "fault:retry", lambda: "%s: retry %r" % (where, e2)); shutil.rmtree(d)
def disk_faults(op):
    """every write fails beyond a byte limit (the limit walks over the file sizes)"""
    lims = sorted(set([0, 1, 16, 17, 18, 100, 4095, 4096, 8192, CH - 1, CH, CH + 1, 2 * CH, len(GOOD) - 1, len(GOOD)] + list(range(0, len(GOOD), 3001 if vc.thorough() else 15013))))
    for lim in lims:
        d = fresh(); good(); pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim)); sys.stdout = io.StringIO()
            try: op.call(d)
            except Exception: os._exit(5)
            except BaseException: os._exit(6)
            os._exit(0)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]); vc.trace(); vc.step(); where = "%s with files limited to %d bytes" % (op.name, lim); vc.state(where)
        w = wrong(op, d); vc.expect(w is None, "disk:" + op.name, lambda: "%s: %s" % (where, w)); vc.expect(st in (0, 5), "disk:exit", "%s: %d" % (where, st))
        if st == 0: vc.expect(all(content(os.path.join(d, n)) == c for n, c in op.targets.items()), "disk:silent", "%s: reported success" % where)
        if not op.sentinel: vc.expect(all(f in op.targets for f in listing(d)), "disk:left-behind", lambda: "%s left %s" % (where, listing(d)))
        recovered(op, d, "disk:" + op.name, where); shutil.rmtree(d)
def archive_faults():
    z = mkzip(ARCH); n = len(z)
    flips = range(0, n, 1 if vc.thorough() and n < 4000 else max(1, n // (400 if vc.thorough() else 60)))
    beh = [("html", dict(body=b"<html>busy</html>")), ("empty", dict(body=b"")), ("404", dict(status=404)), ("refuse", dict(refuse=True))] + [("cut-%d" % c, dict(body=z, cut=c)) for c in range(0, n, max(1, n // 40))] + [("cut-nolen-%d" % c, dict(body=z, cut=c, length=False)) for c in range(0, n, max(1, n // 40))] + [("flip-%d" % c, dict(body=z[:c] + bytes([z[c] ^ 0x55]) + z[c + 1:])) for c in flips]
    for op in OPS[4:]:
        for name, b in beh:
            d = fresh(); good(); NET.map[U + "z/77/arch.zip"] = b; e = attempt(lambda: op.call(d)); vc.trace(); vc.step(); where = "%s %s" % (op.name, name); vc.state(where); w = wrong(op, d) if not name.startswith("flip") or e is not None else None
            vc.expect(w is None, "archive-fault:marked-incomplete", lambda: "%s: %s (%r)" % (where, w, e))
            if e is not None: vc.expect(not done(op, d), "archive-fault:marked-after-failure", lambda: "%s: %r" % (where, e)); recovered(op, d, "archive-fault", where)
            shutil.rmtree(d)
    # the listing service itself fails
    for op in OPS[3:]:
        for name, b in [("404", dict(status=404)), ("500", dict(status=500)), ("refuse", dict(refuse=True)), ("garbage", dict(body=b"{")), ("empty-list", dict(body=b"[]")), ("no-links", dict(body=json.dumps([{"key": k, "links": {}} for k in ("arch.zip", "a.dat", "b.dat")]).encode())), ("self-links", None)]:
            d = fresh(); good()
            if b is None: zen("77", {"arch.zip": mkzip(ARCH), "a.dat": GOOD, "b.dat": SMALL}, links="self")
            else: NET.map[Z % "77"] = b
            e = attempt(lambda: op.call(d)); vc.trace(); vc.expect((e is None) == (b is None), "listing-fault", lambda: "%s with listing %s: %r" % (op.name, name, e)); vc.expect(wrong(op, d) is None and not (b is not None and any(os.path.exists(os.path.join(d, t)) for t in op.targets)), "listing-fault", op.name + name); recovered(op, d, "listing-fault", op.name + " " + name); vc.state(op.name + name); shutil.rmtree(d)
# ---------------------------------------------------------------- two processes
class Race:
    """runs two calls, switching between them at executed lines; a schedule is a list of (who, number of lines)"""
    def __init__(self, calls, monitor): self.calls = calls; self.monitor = monitor
    def go(self, plan):
        self.plan = list(plan); self.turn = plan[0][0]; self.left = plan[0][1]; self.i = 0; self.sem = [threading.Semaphore(0) for _ in self.calls]; self.over = [False] * len(self.calls); self.err = [None] * len(self.calls); self.lines = [0] * len(self.calls); self.res = [None] * len(self.calls); self.tl = threading.local(); self.used = 0
        real = os.getpid; os.getpid = lambda: 100000 + getattr(self.tl, "me", 7)
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.calls))]
        for t in ts: t.start()
        self.sem[self.turn].release()
        for t in ts: t.join(60)
        os.getpid = real; return all(not t.is_alive() for t in ts)
    def handover(self, me):
        self.i += 1
        if self.i < len(self.plan): who, self.left = self.plan[self.i]
        else: who, self.left = (1 - me, 1 << 30)
        if self.over[who]: who = me if not self.over[me] else 1 - who
        self.turn = who
        if self.over[who]: return
        if who != me: self.sem[who].release()
        if who != me and not self.over[me]: self.sem[me].acquire()
    def body(self, me):
        self.tl.me = me; self.sem[me].acquire()
        def hook(frame):
            if self.left <= 0: self.used = max(self.used, self.i + 1); self.handover(me)
            self.left -= 1; self.lines[me] += 1; self.monitor(me, frame)
        sys.settrace(tracer(hook, TRACED[:2]))
        try: self.res[me] = self.calls[me]()
        except Exception as e: self.err[me] = e
        sys.settrace(None); self.over[me] = True; self.left = 0; self.handover(me)
def race(name, op_of, expect_ok, invariants, bound):
    """every schedule with at most `bound` preemptions, starting from either process"""
    def one(plan):
        d = fresh(); good(); mon = invariants(d); calls = op_of(d); bad = []
        def monitor(me, frame):
            w = mon()
            if w and not bad: bad.append("%s, seen before line %d of %s" % (w, frame.f_lineno, frame.f_code.co_name))
        r = Race(calls, monitor); o = sys.stdout; sys.stdout = io.StringIO()
        try: fin = r.go(plan)
        finally: sys.stdout = o
        vc.trace(); vc.step(sum(r.lines)); where = "%s schedule %s" % (name, plan); vc.note(where); vc.state("%s%s" % (name, plan))
        vc.expect(fin, "race:%s:stuck" % name, where); vc.expect(not bad, "race:%s:torn" % name, lambda: "%s: %s" % (where, bad[0])); w = mon(); vc.expect(w is None, "race:%s:final" % name, lambda: "%s: %s" % (where, w)); expect_ok(d, r, "race:%s:outcome" % name, where); shutil.rmtree(d, ignore_errors=True); return r
    for first in (0, 1):
        base = one([(first, 1 << 30), (1 - first, 1 << 30)]); n0, n1 = base.lines[first], None; 
        for i in range(0, n0 + 1):
            r = one([(first, i), (1 - first, 1 << 30), (first, 1 << 30)]); n1 = r.lines[1 - first]
            if bound >= 2 and i < n0:
                for j in range(1, n1): one([(first, i), (1 - first, j), (first, 1 << 30), (1 - first, 1 << 30)])
def races(which):
    f = lambda u, **k: (lambda d: (lambda: dl.download_file(u, d + "/f.bin", show_progress=False, **k)))
    def file_inv(d):
        def m():
            c = content(d + "/f.bin"); return None if c is None or c == GOOD else "f.bin is in place with %d of %d bytes" % (len(c), len(GOOD))
        return m
    def ok_file(want):
        def e(d, r, key, where):
            for k in (0, 1):
                vc.expect((r.err[k] is None) == want[k], key, lambda: "%s: process %d ended with %r" % (where, k, r.err[k]))
            if any(want): vc.expect(content(d + "/f.bin") == GOOD, key, lambda: "%s: f.bin is not the complete file" % where)
            vc.expect(all(n == "f.bin" for n in listing(d)), key + ":left-behind", lambda: "%s: left %s" % (where, listing(d)))
        return e
    def arch_inv(op):
        def mk(d): return lambda: wrong(op, d)
        return mk
    def ok_arch(op):
        def e(d, r, key, where):
            for k in (0, 1): vc.expect(r.err[k] is None, key, lambda: "%s: process %d ended with %r" % (where, k, r.err[k]))
            vc.expect(done(op, d) and wrong(op, d) is None, key, lambda: "%s: not extracted completely" % where)
        return e
    b2 = 2; b1 = 2 if vc.thorough() else 1
    if which == "same": race("same-file", lambda d: [f(U + "g")(d), f(U + "g", sha256=SHA)(d)], ok_file([True, True]), file_inv, b2)
    if which == "cut": race("one-cut", lambda d: [f(U + "g")(d), f(U + "short")(d)], ok_file([True, False]), file_inv, b1)
    if which == "reset": race("one-reset", lambda d: [f(U + "reset")(d), f(U + "g")(d)], ok_file([False, True]), file_inv, b1)
    if which == "bad": race("one-altered", lambda d: [f(U + "g", sha256=SHA)(d), f(U + "bad", sha256=SHA)(d)], ok_file([True, False]), file_inv, b1)
    if which == "ensure": race("ensure", lambda d: [lambda: dl.ensure_files([{"path": d + "/f.bin", "url": U + "g"}])] * 2, ok_file([True, True]), file_inv, b1)
    if which == "archive": race("archive", lambda d: [lambda: OPS[4].call(d)] * 2, ok_arch(OPS[4]), arch_inv(OPS[4]), b1)
    if which == "prefix": race("archive-prefix", lambda d: [lambda: OPS[5].call(d)] * 2, ok_arch(OPS[5]), arch_inv(OPS[5]), b1)
    if which == "mixed": race("archive-mixed", lambda d: [lambda: OPS[4].call(d), lambda: OPS[5].call(d)], ok_arch(OPS[5]), arch_inv(OPS[5]), b1)
    if which == "probe":
        def ok(d, r, key, where):
            for k in (0, 1): vc.expect(r.err[k] is None and r.res[k] == d + "/m", key, lambda: "%s: process %d was sent to %s (%r)" % (where, k, r.res[k], r.err[k]))
            vc.expect(listing(d) == [], key + ":left-behind", lambda: "%s: left %s" % (where, listing(d)))
        race("writable", lambda d: [lambda: dl.writable_data_dir(d + "/m")] * 2, ok, lambda d: (lambda: None), 2)
# ---------------------------------------------------------------- what gets fetched, extracted, cached
def specs():
    kinds = ["present", "good", "bad", "nourl", "mismatch"]
    for combo in itertools.product(kinds, repeat=3):
        d = fresh(); good(); sp = []; names = []
        for i, k in enumerate(combo):
            p = os.path.join(d, "f%d" % i); names.append(p)
            if k == "present":
                with open(p, "wb") as f: f.write(b"mine %d" % i)
                sp.append({"path": p, "url": U + "g"})
            else: sp.append({"good": {"path": p, "url": U + "s"}, "bad": {"path": p, "url": U + "missing"}, "nourl": {"path": p}, "mismatch": {"path": p, "url": U + "s", "sha256": SHA}}[k])
        e = attempt(lambda: dl.ensure_files(sp)); vc.trace(); vc.step(); vc.state(combo); where = str(combo); net = any(k in ("bad", "mismatch") for k in combo); no = [names[i] for i, k in enumerate(combo) if k == "nourl"]
        vc.expect((e is None) == (not net and not no), "specs:outcome", lambda: "%s: %r" % (where, e))
        for i, k in enumerate(combo):
            c = content(names[i]); vc.expect(c == (b"mine %d" % i if k == "present" else SMALL) if k == "present" or (k == "good" and not net) else c in (None, SMALL if k == "good" else None), "specs:files", lambda: "%s: file %d (%s) holds %r" % (where, i, k, c if c is None else c[:20]))
        if no and not net: vc.expect(isinstance(e, FileNotFoundError) and all(p in str(e) for p in no), "specs:missing-listed", lambda: "%s: %r" % (where, e))
        vc.expect(all(c == U + "s" or c == U + "missing" for c in NET.calls), "specs:requests", lambda: "%s fetched %s" % (where, NET.calls)); shutil.rmtree(d)
    for combo in itertools.product(["present", "good", "absent", "renamed", "mismatch"], repeat=2):
        d = fresh(); good(); fs = []; tg = []
        for i, k in enumerate(combo):
            nm = ["a.dat", "b.dat"][i]; rel = nm if k != "renamed" else "deep/er/%d.bin" % i
            if k == "present":
                with open(os.path.join(d, nm), "wb") as f: f.write(b"mine")
            fs.append({"absent": {"name": "zz%d" % i}, "renamed": {"name": nm, "path": rel}, "mismatch": {"name": nm, "sha256": "0" * 64}}.get(k, {"name": nm})); tg.append(rel)
        e = attempt(lambda: dl.ensure_zenodo_files("77", fs, d)); vc.trace(); vc.step(); vc.state(combo); bad = any(k in ("absent", "mismatch") for k in combo); vc.expect((e is None) == (not bad), "zenodo-specs:outcome", lambda: "%s %r" % (combo, e))
        for i, k in enumerate(combo): vc.expect(content(os.path.join(d, tg[i])) in ([b"mine"] if k == "present" else [[GOOD, SMALL][i]] + ([None] if bad else []) if k in ("good", "renamed") else [None]), "zenodo-specs:files", lambda: "%s file %d" % (combo, i))
        vc.expect(NET.calls.count(Z % "77") <= 1 and (NET.calls != [] or all(k == "present" for k in combo)), "zenodo-specs:listing-once", str(NET.calls)); vc.expect(not all(k == "present" for k in combo) or NET.calls == [], "zenodo-specs:no-traffic", str(NET.calls)); shutil.rmtree(d)
def extraction():
    pool = [("a/x.txt", b"ax"), ("a/b/y.txt", b"aby"), ("ab/z.txt", b"abz"), ("a", b"plain a"), ("top.txt", b"top"), ("a/b/", b""), ("c/a/x.txt", b"cax")]
    for r in range(1, len(pool) + 1):
        for sub in itertools.combinations(pool, r):
            names = [n for n, _ in sub]
            if "a" in names and any(n.startswith("a/") for n in names): continue
            if not vc.thorough() and r > 4: continue
            for prefix in ("", "a", "a/b", "a/", "ab", "zz"):
                if prefix and "a" in names and prefix.rstrip("/") == "a": continue # the prefix is a file
                d = fresh(); good(); zen("77", {"arch.zip": mkzip(sub)}); e = attempt(lambda: dl.ensure_zenodo_archive("77", "arch.zip", d, prefix=prefix)); p = prefix.rstrip("/"); want = {n: c for n, c in sub if not n.endswith("/") and (not p or n.startswith(p + "/"))}; any_ = [n for n, _ in sub if not p or n.startswith(p + "/")]
                got = {n: content(os.path.join(d, n)) for n in listing(d) if not n.startswith(".download_cache") and os.path.basename(n) != ".zenodo_extracted"}; where = "%s prefix %r" % (names, prefix); vc.trace(); vc.step(); vc.state(where)
                if any_: vc.expect(e is None and got == want, "extract:content", lambda: "%s: got %s expected %s (%r)" % (where, sorted(got), sorted(want), e))
                else: vc.expect(isinstance(e, FileNotFoundError) and got == {}, "extract:no-such-prefix", lambda: "%s: %r" % (where, e))
                sent = os.path.join(d, p, ".zenodo_extracted"); vc.expect(os.path.isfile(sent) == bool(any_), "extract:mark", where)
                if any_: # a marked directory is left alone
                    NET.calls.clear()
                    for n in want:
                        with open(os.path.join(d, n), "wb") as f: f.write(b"user edit")
                    e = attempt(lambda: dl.ensure_zenodo_archive("77", "arch.zip", d, prefix=prefix)); vc.expect(e is None and NET.calls == [] and all(content(os.path.join(d, n)) == b"user edit" for n in want), "extract:repeat", where)
                shutil.rmtree(d)
def containment():
    outer = fresh(); n = 0
    evils = ["../evil", "a/../../evil", "../d2/evil", "a/b/../../../evil", os.path.join(outer, "evil-abs"), "../dest-sibling/evil", "..", "a/../..", "x/../../evil/deeper", "link/evil", "link/sub/evil", "a/link2/evil"]
    for ev in evils:
        for prefix in ("", "a", "link"):
            for order in (0, 1):
                n += 1; top = os.path.join(outer, str(n)); d = os.path.join(top, "dest"); os.makedirs(d + "/a"); os.makedirs(top + "/outside/sub"); os.makedirs(top + "/dest-sibling")
                os.symlink(top + "/outside", d + "/link"); os.symlink("../../outside", d + "/a/link2"); ents = [("a/ok.txt", b"fine"), (ev, b"EVIL")]; ents = ents if order == 0 else ents[::-1]; good(); zen("77", {"arch.zip": mkzip(ents)})
                before = {t: listing(t) for t in (top + "/outside", top + "/dest-sibling")}; top_before = sorted(os.listdir(top)); out_before = [x for x in os.listdir(outer) if not x.isdigit()]
                e = attempt(lambda: dl.ensure_zenodo_archive("77", "arch.zip", d, prefix=prefix)); where = "entry %r prefix %r order %d" % (ev.replace(outer, "<outer>"), prefix, order); vc.trace(); vc.step(); vc.state(where)
                vc.expect(all(listing(t) == v for t, v in before.items()) and sorted(os.listdir(top)) == top_before and [x for x in os.listdir(outer) if not x.isdigit()] == out_before, "contain:escaped", lambda: "%s: files appeared outside the destination: %s" % (where, [x for x in listing(top) if not x.startswith("dest/")]))
                sel = not prefix or ev.startswith(prefix + "/")
                if sel and ev not in ("a/../..", ".."): vc.expect(e is not None, "contain:accepted", where); vc.expect(not os.path.exists(os.path.join(d, prefix, ".zenodo_extracted")) if prefix != "link" else True, "contain:marked", where)
def caching():
    """every sequence of archive requests: each destination receives the archive that was asked for, and each archive is fetched once"""
    reqs = [("77", "x.zip"), ("77", "x.zip.y.zip"), ("7", "7_x.zip"), ("77", "x"), ("78", "x.zip"), ("77", "y.zip")]
    for seq in itertools.product(range(len(reqs)), repeat=3):
        d = fresh(); good()
        for rec in {r for r, _ in reqs}: zen(rec, {f: mkzip([("p%d/who.txt" % i, ("%s/%s" % (rec, f)).encode()) for i in range(3)]) for r, f in reqs if r == rec})
        NET.calls.clear()
        for i, q in enumerate(seq):
            rec, f = reqs[q]; e = attempt(lambda: dl.ensure_zenodo_archive(rec, f, d, prefix="p%d" % i)); c = content(os.path.join(d, "p%d/who.txt" % i)); vc.step(); vc.expect(e is None and c == ("%s/%s" % (rec, f)).encode(), "cache:right-archive", lambda: "requests %s: number %d received %r (%r)" % ([reqs[k] for k in seq], i, c, e))
        got = [c for c in NET.calls if "/z/" in c]; vc.expect(len(got) == len(set(got)) == len({reqs[k] for k in seq}), "cache:fetched-once", lambda: "requests %s fetched %s" % ([reqs[k] for k in seq], got)); vc.trace(); vc.state(seq); shutil.rmtree(d)
def places():
    d = fresh(); blocked = os.path.join(d, "file"); open(blocked, "w").close(); seen = {}
    for rel in ("resources/detectors/A", "resources/detectors/B", "resources/fluxes/A", "lib/resources/processes/A-v1", "resources/resources/A", "plain/dir", "resources/detectors/A/"):
        for ok in (True, False):
            m = os.path.join(d, "w" if ok else "file", rel); r = quiet(lambda: dl.writable_data_dir(m)); vc.trace(); vc.step(); vc.state((rel, ok))
            if ok: vc.expect(r == m and os.path.isdir(m) and listing(m) == [], "places:writable", lambda: "%s -> %s" % (rel, r))
            else:
                n = os.path.normpath(rel); want = n[n.index("resources"):] if "resources" in n.split("/") else os.path.basename(n); vc.expect(os.path.normpath(r) == os.path.join(BASE, ".siren", want) and os.path.isdir(r), "places:fallback", lambda: "%s -> %s" % (rel, r))
    for a in (0, 1):
        for b in (0, 1):
            i, o = fresh(), fresh()
            for p, k in ((i, a), (o, b)):
                if k: open(os.path.join(p, "f"), "w").close()
            vc.expect(dl.resolve_data_path(i, o, "f") == os.path.join(i if a else o, "f"), "places:resolve", "%d%d" % (a, b)); vc.trace()
    # record lookups
    E = [{"key": "a", "links": {"content": "C", "self": "S"}}, {"key": "b", "links": {"self": "S2"}}, {"key": "c", "links": {}}, {"key": "ab", "links": {"content": "AB"}}]
    for shape in ("list", "entries", "files"):
        for tok in ("", "T"):
            for name, want in (("a", "C"), ("b", "S2"), ("c", ValueError), ("ab", "AB"), ("zz", FileNotFoundError), ("A", FileNotFoundError)):
                good(); u = Z % "5" + ("?token=T" if tok else ""); NET.map[u] = dict(body=json.dumps(E if shape == "list" else {shape: E}).encode())
                try: g = dl.zenodo_file_url("5", name, tok)
                except Exception as x: g = type(x)
                vc.expect(g == want and NET.calls == [u], "places:record", "%s %s %r: %r calls %s" % (shape, name, tok, g, NET.calls)); vc.trace(); vc.state((shape, tok, name))
    for st, tok, want in ((404, "", FileNotFoundError), (404, "T", urllib.error.HTTPError), (500, "", urllib.error.HTTPError), (None, "", ConnectionError)):
        good(); NET.map[Z % "5" + ("?token=T" if tok else "")] = dict(status=st, body=b"") if st else dict(refuse=True)
        try: dl.zenodo_file_url("5", "a", tok); g = None
        except Exception as x: g = x
        vc.expect(isinstance(g, want), "places:record-errors", "%s %r: %r" % (st, tok, g)); vc.trace()
def command():
    pk = types.ModuleType("sirenpk"); pk.__path__ = [os.path.dirname(SRC)]; sys.modules["sirenpk"] = pk; ut = types.ModuleType("sirenpk._util"); sys.modules["sirenpk._util"] = ut; pk._util = ut
    s = importlib.util.spec_from_file_location("sirenpk.download", SRC); m = importlib.util.module_from_spec(s); sys.modules["sirenpk.download"] = m; s.loader.exec_module(m)
    kinds = ["ok", "none", "nofetch", "raise"]; log = []
    def mod(t, n):
        k = table[(t, n)]; log.append((t, n))
        if k == "none": return None
        o = types.SimpleNamespace()
        if k != "nofetch":
            def f():
                fetched.append((t, n))
                if k == "raise": raise RuntimeError("x")
            o.fetch_data = f
        return o
    ut.import_resource = mod
    for a, b, c in itertools.product(kinds, repeat=3):
        table = {("detector", "A"): a, ("flux", "A"): b, ("processes", "B"): c}
        ut.list_detectors = lambda: ["A"]; ut.list_fluxes = lambda: ["A"]; ut.list_processes = lambda: ["B"]
        for argv in (["--fetch-all"], ["--fetch", "A"], ["--fetch", "B"], ["--fetch", "A", "B"], ["--fetch", "B", "Q", "A"], ["--fetch", "Q"], [], ["--list"]):
            log.clear(); fetched = []; sys.argv = ["siren-download"] + argv; er = sys.stderr; sys.stderr = io.StringIO()
            try: rc = quiet(m.main)
            finally: sys.stderr = er
            asked = ["A", "B"] if argv == ["--fetch-all"] else argv[1:] if "--fetch" in argv else []; want = [k for k in table if k[1] in asked]; bad = "Q" in asked or any(table[k] == "raise" for k in want)
            vc.expect(rc == (1 if bad else 0), "command:exit", lambda: "%s with %s: exit %s" % (argv, table, rc)); vc.expect(sorted(log) == sorted(want) and sorted(fetched) == sorted(k for k in want if table[k] in ("ok", "raise")), "command:all-attempted", lambda: "%s with %s: attempted %s" % (argv, table, log)); vc.trace(); vc.step(); vc.state((a, b, c, argv))
CASES = [("crash-%s" % o.name, lambda o=o: crashes(o, False)) for o in OPS] + [("crash-leftovers-%s" % o.name, lambda o=o: crashes(o, True)) for o in OPS[1:5:3]] + [("transfer-faults", transfer_faults), ("archive-faults", archive_faults)] + [("disk-%s" % o.name, lambda o=o: disk_faults(o)) for o in OPS] + [("race-" + w, lambda w=w: races(w)) for w in ("same", "cut", "reset", "bad", "ensure", "archive", "prefix", "mixed", "probe")] + [("specs", specs), ("extraction", extraction), ("containment", containment), ("caching", caching), ("places", places), ("command", command)]
try: vc.run(CASES)
finally: shutil.rmtree(BASE, ignore_errors=True)
