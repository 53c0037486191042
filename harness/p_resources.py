"""P31: named and versioned resources. The real python/_util.py and python/resources.py run over enumerated directory layouts
(in a scratch directory) and over all version strings up to a bound; the oracle is PEP 440 and the documented search."""
import importlib.util, itertools, logging, os, shutil, sys, tempfile, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python")
BASE = os.path.realpath(tempfile.mkdtemp(prefix="res-", dir=os.environ.get("VERIF_SCRATCH")))
os.environ["HOME"] = BASE
sys.dont_write_bytecode = True
# ---- a package "siren" with nothing compiled in it -------------------------------------------------------------------
class Anything(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return type(n, (), {})
PKG = os.path.join(BASE, "siren"); os.makedirs(PKG); open(os.path.join(PKG, "__init__.py"), "w").close()
sys.path.insert(0, BASE)
for n in ("numpy", "awkward", "h5py"):
    if n not in sys.modules: sys.modules[n] = Anything(n)
import siren
for n in ("dataclasses", "math", "interactions", "detector", "utilities", "injection", "distributions", "geometry"):
    m = Anything("siren." + n); sys.modules["siren." + n] = m; setattr(siren, n, m)
def load(n):
    s = importlib.util.spec_from_file_location("siren." + n, os.path.join(SRC, n + ".py")); m = importlib.util.module_from_spec(s); sys.modules["siren." + n] = m; s.loader.exec_module(m); setattr(siren, n, m); return m
U = load("_util"); RES = load("resources"); logging.disable(logging.CRITICAL)
class FakeDetector:
    def __init__(self): self.log = []
    def LoadMaterialModel(self, f): self.log.append(("materials", f))
    def LoadDetectorModel(self, f): self.log.append(("densities", f))
    @staticmethod
    def ParseFiducialVolume(a, b): return ("fiducial", a, b)
sys.modules["siren.detector"].DetectorModel = FakeDetector
# ---- PEP 440, written from its text: all parses of a string -----------------------------------------------------------
INF = (1,)
def lit(s, i, *ws):
    for w in ws:
        if s.startswith(w, i): yield w, i + len(w)
def digits(s, i):
    j = i
    while j < len(s) and s[j] in "0123456789": j += 1; yield s[i:j], j
def sep(s, i):
    yield i
    if i < len(s) and s[i] in "-_.": yield i + 1
def optnum(s, i):
    for k in sep(s, i):
        yield 0, k
        for d, j in digits(s, k): yield int(d), j
def parses(text):
    """the versions (epoch, release, pre, post, dev, local) that the text can be read as"""
    s = text.strip().lower(); out = set()
    for v in ([0, 1] if s.startswith("v") else [0]):
        eps = [(0, v)] + [(int(d), j + 1) for d, j in digits(s, v) if s.startswith("!", j)]
        for ep, i in eps:
            rel = [((int(d),), j) for d, j in digits(s, i)]; rels = []
            while rel:
                r, j = rel.pop(); rels.append((r, j))
                if s.startswith(".", j): rel += [(r + (int(d),), k) for d, k in digits(s, j + 1)]
            for r, j in rels:
                pres = [(None, j)]
                for k in sep(s, j):
                    for w, e in lit(s, k, "a", "b", "c", "rc", "alpha", "beta", "pre", "preview"): pres += [(({"a": "a", "alpha": "a", "b": "b", "beta": "b"}.get(w, "rc"), n), e2) for n, e2 in optnum(s, e)]
                for p, j1 in pres:
                    posts = [(None, j1)]
                    if s.startswith("-", j1): posts += [(int(d), e) for d, e in digits(s, j1 + 1)]
                    for k in sep(s, j1):
                        for w, e in lit(s, k, "post", "rev", "r"): posts += [(n, e2) for n, e2 in optnum(s, e)]
                    for po, j2 in posts:
                        devs = [(None, j2)]
                        for k in sep(s, j2):
                            for w, e in lit(s, k, "dev"): devs += [(n, e2) for n, e2 in optnum(s, e)]
                        for de, j3 in devs:
                            if j3 == len(s): out.add((ep, r, p, po, de, None))
                            elif s[j3] == "+":
                                seg = s[j3 + 1:].replace("-", ".").replace("_", ".").split(".")
                                if all(x and all(c in "abcdefghijklmnopqrstuvwxyz0123456789" for c in x) for x in seg): out.add((ep, r, p, po, de, tuple(int(x) if x.isdigit() else x for x in seg)))
    return out
def pick(t): return min(parses(t), key=lambda p: (p[3] is not None, p[4] is not None, repr(p)))      # a number belongs to the part before it
def canon(v):
    ep, r, p, po, de, lo = v
    return ("%d!" % ep if ep else "") + ".".join(map(str, r)) + ("%s%d" % p if p else "") + (".post%d" % po if po is not None else "") + (".dev%d" % de if de is not None else "") + ("+" + ".".join(map(str, lo)) if lo else "")
def key(v):
    ep, r, p, po, de, lo = v
    r = list(r)
    while len(r) > 1 and r[-1] == 0: r.pop()
    pk = (0, "", 0) if p is None and po is None and de is not None else (1, p[0], p[1]) if p else (2, "", 0)
    return (ep, r, pk, (-1 if po is None else po), (float("inf") if de is None else de), (0, ()) if lo is None else (1, tuple((1, x, "") if isinstance(x, int) else (0, 0, x) for x in lo)))
def vbad(t, why): return lambda: "version %r: %s" % (t, why)
def judge_string(t):
    vc.note(t); vc.step(); ps = parses(t)
    d = U.decompose_version(t)
    vc.expect(bool(d) == bool(ps), "accept", vbad(t, "%s, although it is %sa version" % ("read" if d else "not read", "" if ps else "not ")))
    if not d or not ps: return None
    try: n = U.normalize_version(t)
    except Exception as e: vc.expect(False, "normal", vbad(t, "%s: %s" % (type(e).__name__, e))); return None
    ns = {canon(p) for p in ps}
    # "1!": a zero epoch may be written out
    vc.expect(any(n == c or n == "0!" + c for c in ns), "normal", vbad(t, "normalised to %r, not %s" % (n, sorted(ns))))
    vc.expect(U.normalize_version(n) == n, "idempotent", vbad(t, "normalised to %r, then to %r" % (n, U.normalize_version(n))))
    return pick(t)
def strings(part, of):
    import re
    def f():
        for alpha, n in (("10.-_av+!", 7 if vc.thorough() else 5), (("1", "0", ".", "-", "_", "rc", "dev", "post", "a", "r", "v", "beta", "RC", "+"), 5 if vc.thorough() else 4)):
            k = 0
            for ln in range(1, n + 1):
                for t in itertools.product(alpha, repeat=ln):
                    k += 1
                    if k % of != part: continue
                    s = "".join(t); judge_string(s); vc.state(s)
        vc.trace()
    return f
EP = ["", "0!", "1!"]; RL = ["1", "1.1", "1.2", "2", "0.9", "10", "01.2.3"]
PRE = ["", "a1", "-alpha.2", "b", "beta0", "rc1", "RC2", ".c3", "_preview4", "pre10"]; POST = ["", "-1", ".post2", "post", "rev3", "R10"]; DEV = ["", ".dev1", "-DEV2", "dev", "_dev_10"]
LOC = ["", "+abc", "+1", "+abc.1", "+Ubuntu-2", "+1_0", "+10.x"]
def order(part, of):
    def f():
        vs = []
        for t in itertools.product(EP[::2] if not vc.thorough() else EP, RL, PRE, POST, DEV, LOC):
            s = "".join(t)
            if (sum(bool(x) for x in t[2:]) > 2 and not vc.thorough()): continue
            vs.append(s)
        toks = []
        for i, s in enumerate(vs):
            s2 = ["", "v", " "][i % 3] + s
            if i % of == part: vc.state(s2); judge_string(s2)
            try: toks.append((s2, U.tokenize_version(s2), key(pick(s2))))
            except Exception as e: vc.expect(False, "tokens", vbad(s2, "%s: %s" % (type(e).__name__, e)))
        # all pairs: the order of the tokens is the order of the versions. Sort by the oracle's key, then neighbours and a sliding window, then all pairs of a subset
        n = len(toks)
        for i in range(part, n, of):
            s, t, k = toks[i]
            step = 1 if vc.thorough() else 7
            for j in range((i * 3) % step, n, step):
                s2, t2, k2 = toks[j]
                vc.R.evaluations += 1
                try: got = (t > t2) - (t < t2)
                except TypeError as e: vc.expect(False, "comparable", "%r and %r: %s" % (s, s2, e)); continue
                want = (k > k2) - (k < k2)
                if got != want: vc.expect(False, "order", "%r is ranked %s %r" % (s, "below" if got < 0 else "above" if got > 0 else "the same as", s2))
        # the maximum is a maximum whatever the list
        if part == 0:
            top = max(toks, key=lambda x: x[1]); vc.expect(top[2] == max(x[2] for x in toks), "order", "%r is taken as the highest" % top[0])
        vc.trace()
    return f
# ---- layouts ----------------------------------------------------------------------------------------------------------
KINDS = [("flux", "fluxes", "flux.py", lambda n, **k: U.get_flux_model_path(n, **k), lambda n: U.load_flux(n)),
         ("detector", "detectors", "detector.py", lambda n, **k: U.get_detector_model_path(n, **k), lambda n: U.load_detector(n)),
         ("processes", "processes", "processes.py", lambda n, **k: U.get_processes_model_path(n, **k), lambda n: U.load_processes(n))]
def make(root, tree):
    """tree: {relative path: text | None for a directory}"""
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for k in ("fluxes", "detectors", "processes"): os.makedirs(os.path.join(root, k))
    for p, t in tree.items():
        p = os.path.join(root, p); os.makedirs(p if t is None else os.path.dirname(p), exist_ok=True)
        if t is not None:
            with open(p, "w") as f: f.write(t)
class Error(Exception): pass
def split(name):
    """name and version text of a request, None if it is not a request"""
    name = name.strip()
    cut = [i for i, c in enumerate(name) if c == "-" and (name[i + 1:i + 2].isdigit() or (name[i + 1:i + 2] in "vV" and name[i + 2:i + 3].isdigit()))]
    n, v = (name[:cut[0]], name[cut[0] + 1:]) if cut else (name, None)
    if not n or not all(x.isalnum() and x.isascii() for x in n.replace("-", ".").replace("_", ".").split(".")): return None
    if v is not None and not parses(v): return None
    return n, v
def version_of(t): return canon(pick(t))
def oracle(root, folder, special, request, must_exist, dirs, files):
    """the set of acceptable folders (relative to the kind's folder), or Error"""
    sp = split(request)
    if sp is None: return Error
    name, ver = sp; tops = sorted({d.split("/")[0] for d in dirs})
    hit = [d for d in tops if d.lower() == name.lower()] or [d for d in tops if d.lower().startswith(name.lower())]
    if not hit: return Error if must_exist else {"%s/%s-v%s" % (name, name, version_of(ver) if ver else "1")}
    if len(hit) > 1: return Error
    top = hit[0]; special_there = special is not None and top + "/" + special in files
    if ver is None and special_there: return {top}
    subs = [(d, split(d.split("/")[1])) for d in dirs if d.startswith(top + "/") and d.count("/") == 1]
    subs = [(d, version_of(s[1])) for d, s in subs if s and s[1] is not None]
    if ver is None:
        if subs:
            kk = [key(pick(v)) for _, v in subs]; return {d for (d, _), k in zip(subs, kk) if k == max(kk)}          # 1 and 1.0 are the same version
        return Error if must_exist else {"%s/%s-v1" % (top, top)}
    same = [d for d, v in subs if v == version_of(ver)]
    if len(same) == 1: return set(same)
    if len(same) > 1: return Error
    if special_there: return {top, "%s/%s-v%s" % (top, top, version_of(ver)), Error}          # the folder serves all versions
    return Error if must_exist else {"%s/%s-v%s" % (top, top, version_of(ver))}
REQ = ["Foo", "foo", "FOO-v1", "Foo-v1.0", "Foo-1.0.0", "Foo-v2", "Foo-2.0RC1", "foo-v2.0rc1", "Foo-v2.0-rc.1", "Fo", "Foo-v", "Foo-", "-v1", "Foo-v2.0.dev1", "Foo-v10", "Foo_Bar", "foo_bar-v1", "Foo-Bar-v3", "Foo/..", "..", "", " Foo-v1 ", "Foo-v1!2", "Foo-v3.post1", "Foo-v3-1", "Bar", "Foo-v02"]
def check(root, tree, k, requests, what):
    kind, folder, special, path, loadf = KINDS[k]
    base = os.path.join(root, folder); dirs, files = set(), set()
    for p, t in tree.items():
        if not p.startswith(folder + "/"): continue
        q = p[len(folder) + 1:].split("/")
        if t is None: dirs.add("/".join(q))
        else: files.add("/".join(q)); q.pop()
        for i in range(1, len(q) + 1): dirs.add("/".join(q[:i]))
    dirs.discard("")
    U.resource_package_dir = lambda: root
    for r in requests:
        for me in (True, False):
            vc.note("%s: %s (must exist: %s)" % (what, r, me)); vc.step()
            want = oracle(root, folder, special, r, me, dirs, files)
            try: got = os.path.relpath(os.path.normpath(path(r, must_exist=me)), base)
            except (ValueError, KeyError): got = Error
            except Exception as e: got = e
            ok = got is Error if want is Error else got in want
            vc.expect(ok, "path", lambda: "%s: %s %r%s is %s instead of %s" % (what, kind, r, "" if me else " (may be new)", "refused" if got is Error else repr(got), "refused" if want is Error else sorted(map(str, want))))
            if me and want is not Error and Error not in want and len(want) == 1:
                p = next(iter(want))
                if p + "/" + special in files:
                    try: res = loadf(r)
                    except Exception as e: res = e
                    vc.expect(res == (p, 7), "loaded", lambda: "%s: loading %s %r gives %r instead of what %s says" % (what, kind, r, res, p))
                    vc.expect(not any(n.startswith("siren-") for n in sys.modules), "left", lambda: "%s: a module of %r is left" % (what, r))
                elif kind == "detector" and p + "/densities.dat" in files and p + "/materials.dat" in files:
                    try: res = loadf(r).log
                    except Exception as e: res = e
                    d = os.path.join(base, p)
                    vc.expect(isinstance(res, list) and [(a, os.path.normpath(b)) for a, b in res] == [("materials", d + "/materials.dat"), ("densities", d + "/densities.dat")], "loaded", lambda: "%s: loading detector %r gives %r" % (what, r, res))
    vc.trace()
VERS = ["v1", "v2", "v1.0", "v2.0rc1", "v2.0.dev1", "v10", "2", "v3.post1", "v02", "v2.0.RC1", "v9a", "notes"]
def loader(kind, where): return '"""doc of %s"""\nX = 7\ndef load_%s(*a):\n    """how to load %s"""\n    return (%r, X)\n' % (where, kind, where, where)
def layouts(k, part, of):
    def f():
        kind, folder, special, _, _ = KINDS[k]; root = os.path.join(BASE, "r-%s-%d" % (kind, part)); n = 0
        tops = [(), ("Foo",), ("foo",), ("Foo", "FooBar"), ("FooBar",), ("Foo", "foo"), ("Foo_Bar", "Foo"), ("Foo-Bar", "Foo_Bar"), ("Bar", "Foo")]
        for top in tops:
            for nv in range(0, 4 if vc.thorough() else 3):
                for vs in itertools.combinations(VERS, nv):
                    for style in range(4):                  # a loader in every folder, at the top as well, only at the top, data files only
                        n += 1
                        if n % of != part: continue
                        tree = {}
                        for t in top:
                            tree[folder + "/" + t] = None
                            for v in vs:
                                d = t + "/" + (t + "-" + v if v != "notes" else v)
                                tree[folder + "/" + d] = None
                                if style in (0, 1): tree[folder + "/" + d + "/" + special] = loader(kind, d)
                                if style == 3: tree[folder + "/" + d + "/densities.dat"] = "x"; tree[folder + "/" + d + "/materials.dat"] = "x"
                            if style in (1, 2): tree[folder + "/" + t + "/" + special] = loader(kind, t)
                        tree[folder + "/README"] = "text"; tree[folder + "/__pycache__"] = None
                        what = "%s with %s%s" % (list(top), list(vs), ["", " and at the top", ", loader only at the top", ", data only"][style])
                        vc.state((kind, top, vs, style)); make(root, tree); check(root, tree, k, REQ, what)
                        if style == 0: listing(root, kind, folder, top, vs, what)
        shutil.rmtree(root, ignore_errors=True)
    return f
def listing(root, kind, folder, top, vs, what):
    lst = {"flux": (U.list_fluxes, RES.fluxes), "detector": (U.list_detectors, RES.detectors), "processes": (U.list_processes, RES.processes)}[kind]
    got = lst[0]()
    vc.expect(got == sorted(top), "list", lambda: "%s: the list of %s is %r" % (what, folder, got))
    vc.expect(set(top) <= set(dir(lst[1])), "list", lambda: "%s: dir() lacks names" % what)
    for t in top:
        want = oracle(root, folder, "x", t, True, set(top) | {x + "/" + (x + "-" + v if v != "notes" else v) for v in vs for x in top}, set())
        if want is Error or len(want) > 1: continue
        try: res = getattr(lst[1], t)(); doc = getattr(lst[1], t).__doc__; x = getattr(lst[1], t).X
        except Exception as e: res, doc, x = e, "", 0
        w = next(iter(want))
        vc.expect(res == (w, 7) and x == 7 and doc == "how to load " + w, "attribute", lambda: "%s: resources.%s.%s() is %r, X=%r, documentation %r" % (what, folder, t, res, x, doc))
    for t in ("Nothing", "Fo"):
        try: getattr(lst[1], t); ok = False
        except AttributeError: ok = True
        except Exception: ok = False
        vc.expect(ok, "attribute", lambda: "%s: resources.%s.%s is not an attribute error" % (what, folder, t))
# ---- the fiducial volume of a detector folder ----------------------------------------------------------------------------
def fiducial():
    root = os.path.join(BASE, "fid"); U.resource_package_dir = lambda: root
    LN = ["fiducial box 0 0 0 0 0 0 1 1 1", "  fiducial\tsphere 0 0 0 0 0 0 2  ", "detector 1 2 3", "\tdetector 4 5 6 0 0 1", "# fiducial box 9", "object box 0 0 0 0 0 0 1 1 1 fiducial ROCK constant 1", "", "   ", "fiducials", "#detector 1 1 1"]
    for n in range(0, 5 if vc.thorough() else 4):
        for ls in itertools.product(LN, repeat=n):
            vc.state(ls); vc.step(); text = "\n".join(ls) + ("\n" if n % 2 else ""); make(root, {"detectors/D/D-v1/densities.dat": text, "detectors/D/D-v1/materials.dat": ""}) if n == 0 and not os.path.isdir(root) else open(os.path.join(root, "detectors/D/D-v1/densities.dat"), "w").write(text)
            fl = [l for l in ls if l.split()[:1] == ["fiducial"]]; dl = [l for l in ls if l.split()[:1] == ["detector"]]
            got = U.get_fiducial_volume("D")
            if fl and dl: ok = isinstance(got, tuple) and got[1].strip() in [l.strip() for l in fl] and (len(fl) > 1 or got[1].strip() == fl[0].strip()) and got[2].strip() in [l.strip() for l in dl]
            else: ok = got is None
            vc.expect(ok, "fiducial", lambda: "lines %r give %r" % (ls, got))
    vc.trace(); shutil.rmtree(root, ignore_errors=True)
def shipped():
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "resources")
    for k, (kind, folder, special, path, _) in enumerate(KINDS):
        base = os.path.join(root, folder); dirs, files = set(), set()
        for a, d, f in os.walk(base):
            rel = os.path.relpath(a, base)
            if rel.count("/") > 1: d[:] = []; continue
            dirs |= {x if rel == "." else rel + "/" + x for x in d}; files |= {rel + "/" + x for x in f}
        U.resource_package_dir = lambda: root
        names = sorted({x.split("/")[0] for x in dirs} | {x.split("/")[-1] for x in dirs})
        for n in names + [x.lower() for x in names]:
            if n.startswith("_"): continue
            vc.state((kind, n)); vc.step(); want = oracle(root, folder, special, n, True, dirs, files)
            try: got = os.path.relpath(os.path.normpath(path(n)), base)
            except ValueError: got = Error
            vc.expect(got is Error if want is Error else got in want, "shipped", lambda: "%s %r is %s instead of %s" % (kind, n, got, want))
    vc.trace()
if __name__ == "__main__":
    cases = [("strings-%d" % p, strings(p, 6)) for p in range(6)] + [("order-%d" % p, order(p, 6)) for p in range(6)]
    for k in range(3): cases += [("layouts-%s-%d" % (KINDS[k][0], p), layouts(k, p, 4)) for p in range(4)]
    cases += [("fiducial", fiducial), ("shipped", shipped)]
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
