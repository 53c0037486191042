"""P42: the SBN site. The real sbn_geometry, sbn_loader and detector modules run with stand-ins for the compiled modules and for the
downloads; all pairs and triples of frames, all small frame graphs, all detectors, all interleavings of two loads up to a bound."""
import builtins, importlib.util, io, itertools, math, os, shutil, sys, threading, types
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren
for n in ("numpy", "awkward", "h5py"): sys.modules.pop(n, None)
sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
try: import numpy as np
except ImportError: np = None
DIR = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "resources/detectors/SBN/SBN-v1")
class Matrix3D:
    def __init__(self, *a): self.m = np.array(a, float).reshape(3, 3)
class Vector3D:
    def __init__(self, *a): self.v = np.array(a, float)
class Quaternion:
    def __init__(self): self.m = np.eye(3)
    def SetMatrix(self, m): self.m = m.m
    def GetEulerAnglesXYZs(self): m = self.m; return math.atan2(m[2, 1], m[2, 2]), -math.asin(max(-1.0, min(1.0, m[2, 0]))), math.atan2(m[1, 0], m[0, 0])   # Rz Ry Rx
    X = property(lambda s: (s.m[2, 1] - s.m[1, 2]) / 4); Y = property(lambda s: (s.m[0, 2] - s.m[2, 0]) / 4); Z = property(lambda s: (s.m[1, 0] - s.m[0, 1]) / 4)
def euler(x, y, z):
    c, s = math.cos, math.sin; return np.array([[c(z), -s(z), 0], [s(z), c(z), 0], [0, 0, 1]]) @ np.array([[c(y), 0, s(y)], [0, 1, 0], [-s(y), 0, c(y)]]) @ np.array([[1, 0, 0], [0, c(x), -s(x)], [0, s(x), c(x)]])
HERE = threading.local()
def gate(what):
    g = getattr(HERE, "gate", None)
    if g: g(what)
class Model:
    def LoadGDML(self, path, *a):
        gate("load")
        with open(path) as f: self.text = f.read()
        root = ET.fromstring(self.text); world = root.find("setup/world").get("ref"); vol = [v for v in root.findall("structure/volume") if v.get("name") == world]; self.world = vol[0]; self.root = root; self.path = path
    def AddSector(self, s): self.sectors = getattr(self, "sectors", []) + [s]
class Downloads: asked = []
def ensure_files(specs):
    for s in specs:
        Downloads.asked.append(dict(s))
        if not os.path.isfile(s["path"]):
            if not s.get("url"): raise RuntimeError("%s is missing and has no source" % s["path"])
            os.makedirs(os.path.dirname(s["path"]), exist_ok=True)
            with builtins.open(s["path"], "w") as f: f.write("<gdml/>")
DATA = [None]; MODS = {}
def mods():
    if MODS: return MODS
    siren.math.Matrix3D, siren.math.Vector3D, siren.math.Quaternion = Matrix3D, Vector3D, Quaternion; siren.detector.DetectorModel = Model; siren.detector.GeometryPosition = lambda v: v
    d = types.ModuleType("siren.download"); d.ensure_files = ensure_files; DATA[0] = os.path.join(BASE, "data-%d" % os.getpid()); os.makedirs(DATA[0], exist_ok=True); d.writable_data_dir = lambda p: DATA[0]; sys.modules["siren.download"] = d; siren.download = d
    s = importlib.util.spec_from_file_location("sbn_detector", os.path.join(DIR, "detector.py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); MODS.update(det=m, geo=m.geo, loader=m.sbn_loader)
    return MODS
def fresh(): shutil.rmtree(DATA[0], ignore_errors=True); os.makedirs(DATA[0]); Downloads.asked = []
def far(a, b): return float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float))))
PTS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-12.5, 3.25, 700.0), (100.0, -40.0, 8.0)]
# one physical point in two frames, as published (metres); directions too
ANCHORS = [("ICARUS_LArSoft", (0, 0, 0), "BNB", (0, 0, 600)), ("ICARUS_LArSoft", (0, 0, 0), "NuMI", (4.503730, 80.153901, 795.112945)), ("SBND_LArSoft", (0, 0, 0), "BNB", (0.7378, 0, 110)), ("MicroBooNE_LArSoft", (0, 0, 0), "BNB", (0, 0, 470)), ("MiniBooNE_local", (0, 0, 0), "BNB", (0, 1.89614, 541.34)), ("DUNE_ND", (0, 0.05387, 6.66), "LBNF", (0, 0, 562.1179)), ("ProtoDUNE_ND_2x2", (0, 0, 0), "NuMI", (0, 0, 1036.48837)), ("LBNF", (0, 0, 0), "BNB", (261.5, 8.369, 35.8))]
A, B = math.radians(287.79), 0.101
AXES = [("LBNF", (0, 0, 1), "BNB", (-math.cos(B) * math.sin(A), -math.sin(B), math.cos(B) * math.cos(A))), ("LBNF", (1, 0, 0), "BNB", (math.cos(A), 0, math.sin(A))), ("DUNE_ND", (1, 0, 0), "LBNF", (1, 0, 0)), ("DUNE_ND", (0, 0, 1), "LBNF", (0, math.sin(0.101), math.cos(0.101))), ("ProtoDUNE_ND_2x2", (0, 0, 1), "NuMI", (0, math.sin(0.0582977560), math.cos(0.0582977560))), ("ICARUS_LArSoft", (0, 0, 1), "NuMI", (-0.389477631, 0.053716629, 0.919468161)), ("ICARUS_LArSoft", (0, 1, 0), "NuMI", (0, 0.998297825, -0.058321970)), ("ICARUS_LArSoft", (1, 0, 0), "NuMI", (0.921035925, 0.022715103, 0.388814672))] + [(f, a, "BNB", a) for f in ("ICARUS_LArSoft", "SBND_LArSoft", "MicroBooNE_LArSoft", "MiniBooNE_local") for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
def frames():
    g = mods()["geo"]; F = list(g.GRAPH.frames); vc.expect(len(F) >= 9, "frames", str(F))
    for a, b in itertools.product(F, F):
        what = "%s to %s" % (a, b); vc.note(what); vc.step()
        try: t = g.transform(a, b)
        except Exception as e: vc.expect(False, "no-way", lambda: "%s: %s" % (what, e)); continue
        vc.expect((t.source, t.target) == (a, b), "names", lambda: "%s goes from %s to %s" % (what, t.source, t.target)); vc.expect(far(t.R @ t.R.T, np.eye(3)) < 2e-8 and abs(np.linalg.det(t.R) - 1) < 1e-7, "rigid", what)
        for p in PTS:
            q = g.convert(p, a, b); vc.state((a, b, p)); vc.expect(far(q, t.apply(p)) < 1e-9, "convert", what); vc.expect(far(g.convert(q, b, a), p) < 1e-4, "inverse", lambda: "%s and back: %s becomes %s" % (what, p, g.convert(q, b, a))); vc.expect(a != b or far(q, p) == 0, "identity", what)
            for c in F: vc.step(); vc.expect(far(g.convert(q, b, c), g.convert(p, a, c)) < 1e-3, "path", lambda: "%s over %s to %s: %s" % (a, b, c, p))
        vc.trace()
    for a, p, b, q in ANCHORS: vc.step(); vc.state((a, b)); vc.expect(far(g.convert(p, a, b), q) < 2e-4, "anchor", lambda: "%s of %s is at %s of %s instead of %s" % (p, a, g.convert(p, a, b), b, q))
    for a, p, b, q in AXES: d = g.transform(a, b).R @ np.array(p, float); vc.step(); vc.state((a, b, p)); vc.expect(far(d, q) < 1e-6, "axis", lambda: "axis %s of %s is %s in %s instead of %s" % (p, a, d, b, q))
    for n, d in g.DETECTORS.items():
        vc.expect(np.all(d.active_min < d.active_max) and np.all(d.active_min <= d.center_native) and np.all(d.center_native <= d.active_max) and far(d.active_size(), d.active_max - d.active_min) == 0, "active", n)
        for f in F:
            vc.step(); vc.state((n, f)); o = g.detector_origin(n, f); vc.expect(far(g.detector_center(n, f), g.convert(d.center_native, d.native_frame, f)) < 1e-9 and far(o, g.convert((0, 0, 0), d.native_frame, f)) < 1e-9 and far(g.detector_transform(n, f).apply((1, 2, 3)), g.convert((1, 2, 3), d.native_frame, f)) < 1e-9, "detector", "%s in %s" % (n, f))
    for a, b in (("BNB", "nowhere"), ("nowhere", "BNB")):
        try: g.transform(a, b); vc.expect(False, "unknown", "%s to %s" % (a, b))
        except (ValueError, KeyError): pass
POSES = [(euler(0, 0, 0), (0, 0, 0)), (euler(0.3, -0.2, 1.1), (1, 2, -3)), (euler(-1.2, 0.7, 2.0), (-40, 0, 5)), (euler(2.9, 0.1, -0.4), (0, 300, 1)), (euler(0, 1.0, 0), (7, -7, 7))]
def graphs(n):
    """every graph of n frames (each edge absent, forward or backward): every pair of frames, against the poses the edges were made from"""
    def f():
        g = mods()["geo"]; N = [chr(97 + i) for i in range(n)]; pairs = list(itertools.combinations(range(n), 2))
        def edge(i, j): R = POSES[j][0].T @ POSES[i][0]; return g.Transform(N[i], N[j], R, POSES[j][0].T @ (np.array(POSES[i][1], float) - np.array(POSES[j][1], float)))
        E = {(i, j): edge(i, j) for i in range(n) for j in range(n) if i != j}; p = np.array([3.0, -5.0, 11.0])
        for k, choice in enumerate(itertools.product((0, 1, 2), repeat=len(pairs))):
            if n == 5 and not vc.thorough() and k % 40 != 7: continue
            G = g.FrameGraph(); near = {i: {i} for i in range(n)}
            for x in N: G.add_frame(g.Frame(x, "", "", "", "", ""))
            for c, (i, j) in zip(choice, pairs):
                if c: G.add_transform(E[(i, j) if c == 1 else (j, i)]); m = near[i] | near[j]; [near.__setitem__(q, m) for q in m]
            vc.state((n, choice)); vc.trace()
            for i, j in itertools.product(range(n), repeat=2):
                vc.step(); what = "graph %s of %d frames, %s to %s" % (choice, n, N[i], N[j])
                try: q = G.convert(p, N[i], N[j]); ok = True
                except ValueError: ok = False
                vc.expect(ok == (j in near[i]), "reach", lambda: "%s: %s" % (what, "a way that is none" if ok else "no way"))
                if ok and j in near[i]: want = POSES[j][0].T @ (POSES[i][0] @ p + np.array(POSES[i][1], float) - np.array(POSES[j][1], float)); vc.expect(far(q, want) < 1e-6, "way", lambda: "%s: %s instead of %s" % (what, q, want))
    return f
def angles():
    g = mods()["geo"]; v = [-2.5, -1.2, -0.3, 0.0, 0.4, 1.3, 2.9]
    for x, y, z in itertools.product(v, [-1.5, -0.7, 0.0, 0.2, 1.4], v): R = euler(x, y, z); a = g.gdml_rotation_angles(R); vc.state((x, y, z)); vc.step(); vc.expect(far(euler(*a), R) < 1e-9, "angles", lambda: "%s gives %s" % ((x, y, z), a))
def unit(e, d): return {"m": 1.0, "mm": 1e-3, "cm": 1e-2, "rad": 1.0, "deg": math.pi / 180}[e.get("unit", d)]
def place(pv):
    """rigid placement of a <physvol>: r = M^T r' + t (GDML rotations are passive)"""
    p, r = pv.find("position"), pv.find("rotation"); t = np.zeros(3) if p is None else np.array([float(p.get(k, 0)) for k in "xyz"]) * unit(p, "mm"); R = np.eye(3) if r is None else euler(*[float(r.get(k, 0)) * unit(r, "rad") for k in "xyz"]).T; return R, t
FILE = dict(ICARUS="icarus", SBND="sbnd", MiniBooNE="miniboone", DUNE_ND="nd_hall")
GRADE = 6.4733 + 1.89614   # the ground, in the BNB frame (the tank centre lies 1.89614 above the beam axis)
NATIVE = dict(ICARUS="ICARUS_LArSoft", SBND="SBND_LArSoft", MiniBooNE="MiniBooNE_local", DUNE_ND="DUNE_ND")
def judge(m, det, lbnf, what):
    M = mods(); g = M["geo"]; want = {"BooNE": "BNB", "numi": "NuMI"}
    if lbnf: want["lbnf"] = "LBNF"
    files = [(pv, pv.find("file")) for pv in m.world.findall("physvol") if pv.find("file") is not None]; want[FILE[det]] = NATIVE[det]; vc.expect(len(files) == len(want), "sources", lambda: "%s: %s" % (what, [f.get("name") for _, f in files]))
    for key, frame in want.items():
        mine = [(pv, f) for pv, f in files if key in f.get("name")]
        if not vc.expect(len(mine) == 1, "sources", lambda: "%s: %d files of %s" % (what, len(mine), key)): continue
        R, t = place(mine[0][0]); T = g.transform(frame, "BNB"); vc.expect(os.path.isfile(os.path.join(os.path.dirname(m.path), mine[0][1].get("name"))), "file", lambda: "%s: %s is not there" % (what, mine[0][1].get("name")))
        for p in PTS: vc.expect(far(R @ np.array(p, float) + t, T.apply(p)) < 1e-3, "placed", lambda: "%s: %s of %s is placed at %s instead of %s" % (what, p, frame, R @ np.array(p, float) + t, T.apply(p)))
        vc.expect((mine[0][1].get("as_assembly") == "true") == (key not in ("BooNE", "numi", "lbnf")), "unwrapped", lambda: "%s: %s as_assembly=%s" % (what, key, mine[0][1].get("as_assembly")))
    d = g.DETECTORS[det]; vc.expect(far(m.DetectorOrigin.v, g.convert(d.center_native, d.native_frame, "BNB")) < 1e-9, "origin", lambda: "%s: %s" % (what, m.DetectorOrigin.v)); vc.expect(far(m.DetectorRotation.m, g.transform(d.native_frame, "BNB").R) < 1e-9, "rotation", what)
    # the ground: from the top, air, till and dolomite without a gap, in every column of the site
    boxes = {b.get("name"): np.array([float(b.get(k)) for k in "xyz"]) * {"m": 1, "mm": 1e-3}[b.get("lunit", "mm")] for b in m.root.findall("solids/box")}; vols = {v.get("name"): (v.find("materialref").get("ref"), boxes.get(v.find("solidref").get("ref"))) for v in m.root.findall("structure/volume")}
    grade = GRADE; mats = set(x.get("name") for x in m.root.findall("materials/material"))
    for name, (mat, b) in vols.items(): vc.expect(mat in mats and b is not None, "material", lambda: "%s: %s is made of %s" % (what, name, mat))
    def at(x, y, z):
        o = vols[m.world.get("name")][0]
        for pv in m.world.findall("physvol"):
            r = pv.find("volumeref")
            if r is None: continue
            mat, b = vols[r.get("ref")]; R, t = place(pv)
            if np.all(np.abs(R.T @ (np.array([x, y, z]) - t)) < b / 2): o = mat
        return o
    for y, mat in ((grade + 50, "env_Air"), (grade + 5, "env_Air"), (grade - 0.01, "env_GlacialTill"), (grade - 19.9, "env_GlacialTill"), (grade - 20.1, "env_Dolomite"), (-150, "env_Dolomite")):
        for x, z in ((100, 600), (-300, 110), (400, -900), (-5, 541)): vc.step(); vc.expect(at(x, y, z) == mat, "ground", lambda: "%s: %s at %s instead of %s" % (what, at(x, y, z), (x, y, z), mat))
    w = vols[m.world.get("name")][1]
    for key in want.values(): o = g.convert((0, 0, 0), key, "BNB"); vc.expect(np.all(np.abs(o) < w / 2), "inside", lambda: "%s: %s lies outside of the site" % (what, key))
def load(det, lbnf, earth=False): return mods()["det"].load_detector(det, lbnf=lbnf, earth_model=earth)
CH = [(d, l) for d in ("ICARUS", "SBND", "MiniBooNE", "DUNE_ND") for l in (False, True)]
def loads():
    """histories of up to three loads, on a folder that is empty or holds the rest of an interrupted load"""
    M = mods(); M["det"].__dict__
    for n in (1, 2, 3) if vc.thorough() else (1, 2):
        for hist in itertools.product(CH, repeat=n):
            for rest in (False, True):
                fresh()
                if rest:
                    for d, l in CH:
                        for x in ("composite_%s.gdml" % d.lower(), "composite_%s.gdml.tmp" % d.lower()): builtins.open(os.path.join(DATA[0], x), "w").write("<gdml><solids>")
                for d, l in hist:
                    what = "%s%s" % (hist, ", after an interrupted load" if rest else ""); vc.note(what); vc.step(); Downloads.asked = []
                    try: m = load(d, l)
                    except Exception as e: vc.expect(False, "failed", lambda: "%s: %s: %s" % (what, type(e).__name__, e)); break
                    judge(m, d, l, what); asked = {os.path.basename(a["path"]): a for a in Downloads.asked}; vc.state((hist, d, l, rest)); vc.expect(all(a.get("sha256") and a.get("url") for k, a in asked.items() if "miniboone" not in k), "unverified", lambda: "%s: %s" % (what, asked))
                left = [x for x in os.listdir(DATA[0]) if x.endswith(".tmp")]; vc.expect(rest or not left, "litter", lambda: "%s leaves %s" % (hist, left)); vc.trace()
    import re
    Downloads.asked = []; fresh(); M["det"].fetch_data(); got = {os.path.basename(a["path"]): a for a in Downloads.asked if a.get("url")}; vc.step()
    for k in ("BooNE", "numi", "lbnf", "icarus", "sbnd", "nd_hall"): vc.expect(any(k in f for f in got), "fetch", lambda: "fetch_data leaves out %s: %s" % (k, sorted(got)))
    for f, a in got.items(): vc.expect(re.fullmatch("[0-9a-f]{64}", a.get("sha256") or "") is not None, "unverified", lambda: "%s has the checksum %r" % (f, a.get("sha256")))
    have = sorted(f for _, _, fs in os.walk(DATA[0]) for f in fs)
    for d, l in CH:
        Downloads.asked = []; load(d, l); new = [a["path"] for a in Downloads.asked if os.path.basename(a["path"]) not in have]; vc.expect(not new, "fetch", lambda: "%s needs %s after fetch_data" % ((d, l), new))
    for bad in (None, "T2K", "icarus", ""):
        try: load(bad, False); vc.expect(False, "accepted", repr(bad))
        except (TypeError, ValueError): pass
def earth():
    """with the Earth model: the same composite, within one Earth whose surface is the ground of the site"""
    M = mods(); shutil.copytree(os.path.join(pysiren.SRC, "earth"), os.path.join(pysiren.PKG, "earth"), dirs_exist_ok=True); E = importlib.import_module("siren.earth"); built = []; E.build_earth_sectors = lambda model, **k: built.append((model, k)); siren.geometry.Sphere = siren.geometry.Placement = lambda *a: a; Quaternion.rotation_between = staticmethod(lambda a, b: Quaternion())
    for n in (1, 2):
        for hist in itertools.product([c + (e,) for c in CH for e in (False, True)], repeat=n):
            fresh()
            for d, l, e in hist:
                what = "%s of %s" % ((d, l, e), hist); vc.note(what); vc.step(); vc.state((hist, d, l, e)); built.clear(); m = load(d, l, e); judge(m, d, l, what)
                vc.expect(len(built) == e and all(b is m for b, _ in built), "earth", lambda: "%s: %d Earths" % (what, len(built)))
                for _, k in built: vc.expect(abs(k["surface_offset"] - GRADE) < 0.01, "surface", lambda: "%s: the surface lies at %s instead of %g" % (what, k["surface_offset"], GRADE))
            vc.trace()
class Stop(BaseException): pass
class Writer:
    def __init__(self, f): self.f = f
    def write(self, s):
        for h in (s[:len(s) // 2], s[len(s) // 2:]): gate("write"); self.f.write(h); self.f.flush()
        return len(s)
    def close(self): gate("close"); self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close() if a[0] is None else self.f.close()
    def __getattr__(self, n): return getattr(self.f, n)
def gated_open(path, mode="r", *a, **k):
    gate("open"); f = builtins.open(path, mode, *a, **k); return Writer(f) if getattr(HERE, "gate", None) and any(c in mode for c in "wax") else f
def patch(M):
    M["loader"].__dict__["open"] = gated_open
    if not hasattr(os, "_real_replace"): os._real_replace = os.replace
    def rep(a, b): gate("replace"); return os._real_replace(a, b)
    os.replace = rep
class Fail(Exception): pass
def faults():
    """the n-th file operation of a load fails: an earlier composite stays what it was and a later load succeeds"""
    M = mods(); patch(M)
    for (d, l), before in itertools.product(CH, (False, True)):
        for n in range(30):
            fresh()
            if before: load(d, l); old = {x: builtins.open(os.path.join(DATA[0], x)).read() for x in os.listdir(DATA[0]) if x.endswith(".gdml")}
            k = [0]; what = "%s%s: operation %d fails%s" % (d, " with LBNF" if l else "", n, ", on a loaded folder" if before else ""); vc.note(what); vc.step(); vc.state(what)
            def g(w):
                k[0] += 1
                if k[0] - 1 == n: raise Fail(w)
            HERE.gate = g; failed = False
            try: load(d, l)
            except Fail: failed = True
            except Exception as e: vc.expect(False, "fault", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
            finally: HERE.gate = None
            if before: now = {x: builtins.open(os.path.join(DATA[0], x)).read() for x in old if os.path.isfile(os.path.join(DATA[0], x))}; vc.expect(now == old, "torn", lambda: "%s: a file that was there is another now" % what)
            left = [os.path.join(r, x) for r, _, f in os.walk(DATA[0]) for x in f if x.endswith(".tmp")]; vc.expect(not left, "litter", lambda: "%s leaves %s" % (what, left))
            try: judge(load(d, l), d, l, what + ", then loaded")
            except Exception as e: vc.expect(False, "after-fault", lambda: "%s, then %s: %s" % (what, type(e).__name__, e))
            vc.trace()
            if not failed: break
def interleave(jobs, schedule, limit):
    """runs the jobs as threads, one step at a time; schedule: which job runs until when. Returns results and the steps taken"""
    turn = [threading.Semaphore(0) for _ in jobs]; back = threading.Semaphore(0); done = [False] * len(jobs); res = [None] * len(jobs)
    def body(i):
        def g(w): back.release(); turn[i].acquire()
        turn[i].acquire(); HERE.gate = g
        try: res[i] = ("ok", jobs[i]())
        except BaseException as e: res[i] = ("error", "%s: %s" % (type(e).__name__, e))
        HERE.gate = None; done[i] = True; back.release()
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]; [t.start() for t in ts]; steps = 0; cur = 0; points = []
    while not all(done):
        if done[cur]: cur = [i for i in range(len(jobs)) if not done[i]][0]
        points.append((steps, [i for i in range(len(jobs)) if not done[i]]))
        if steps in schedule and not done[schedule[steps]]: cur = schedule[steps]
        turn[cur].release(); back.acquire(); steps += 1
        if steps > limit: raise RuntimeError("too many steps")
    [t.join() for t in ts]; return res, points
def concurrent(jobs, bound):
    def f():
        M = mods(); patch(M); seen = 0; stack = [{}]
        bnd = bound + (1 if vc.thorough() else 0)
        while stack:
            s = stack.pop(); fresh(); what = "%s at once, switching at %s" % (jobs, s); vc.note(what); res, points = interleave([lambda d=d, l=l: load(d, l) for d, l in jobs], s, 400); seen += 1; vc.step(len(points)); vc.trace(); vc.state((jobs, tuple(sorted(s.items()))))
            for (d, l), r in zip(jobs, res):
                if vc.expect(r[0] == "ok", "race", lambda: "%s: %s" % (what, r[1])): judge(r[1], d, l, what)
            left = [x for r, _, fs in os.walk(DATA[0]) for x in fs if x.endswith(".tmp")]; vc.expect(not left, "litter", lambda: "%s leaves %s" % (what, left))
            if len(s) < bnd:
                last = max(s) if s else -1; cur = 0
                for k, live in points:
                    if k in s: cur = s[k]
                    if cur not in live: cur = live[0]
                    if k > last:
                        for o in live:
                            if o != cur: stack.append({**s, k: o})
    return f
if __name__ == "__main__":
    if np is None: cases = [("numpy-missing", lambda: vc.state("numpy is not installed here: nothing explored"))]
    else:
        cases = [("frames", frames), ("angles", angles), ("loads", loads), ("earth", earth), ("faults", faults)] + [("graphs-%d" % n, graphs(n)) for n in (2, 3, 4, 5)]
        cases += [("concurrent-%s" % "-".join("%s%d" % j for j in js), concurrent(js, b)) for js, b in (((("ICARUS", False), ("ICARUS", False)), 4), ((("SBND", True), ("SBND", False)), 3), ((("MiniBooNE", False), ("MiniBooNE", False)), 2), ((("DUNE_ND", True), ("ICARUS", True)), 2), ((("ICARUS", False), ("ICARUS", False), ("ICARUS", True)), 1))]
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
