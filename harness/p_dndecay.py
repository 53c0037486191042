"""P40: DarkNews decays and the loading and saving of DarkNews processes. The real PyDarkNewsDecay and processes.py of the
resource run on stand-ins for DarkNews whose widths and phase space are known in closed form; all histories up to a depth."""
import importlib.util, itertools, math, os, pickle, shutil, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, p_darknews as dn
from p_darknews import np, siren, Anything, BASE, REPO, ParticleType, Record, Sig, DN, Code
HERE = os.path.join(REPO, "resources/processes/DarkNewsTables")
for n, v in dict(Decay=0, Gamma=22, EMinus=11, EPlus=-11, MuMinus=13, MuPlus=-13, TauMinus=15, TauPlus=-15, NuLight=5910, N5=5915).items(): setattr(ParticleType, n, ParticleType(v))
def boost(p, E, cost, phi, m):
    """p (n,4) given in the rest frame of a parent of mass m, z along the parent's direction; to the lab"""
    E, cost, phi = (np.asarray(a, float) for a in (E, cost, phi)); g = E / m; bg = np.sqrt(np.maximum(g * g - 1, 0)); sint = np.sqrt(np.maximum(1 - cost ** 2, 0))
    e = g * p[:, 0] + bg * p[:, 3]; z = bg * p[:, 0] + g * p[:, 3]; x, y = p[:, 1], p[:, 2]
    return np.stack([e, (x * cost + z * sint) * np.cos(phi) - y * np.sin(phi), (x * cost + z * sint) * np.sin(phi) + y * np.cos(phi), -x * sint + z * cost], 1)
def lam(a, b, c): return np.sqrt(np.maximum((a - b - c) ** 2 - 4 * b * c, 0))
def unit(u, n, what):
    u = np.asarray(u)
    if u.shape != (n,): raise ValueError("%s has shape %s for %d events" % (what, u.shape, n))
    return u
def pair(cost, phi, m1, m2, m3, n):
    m1 = np.broadcast_to(np.asarray(m1, float), (n,)); k = lam(m1 ** 2, m2 ** 2, m3 ** 2) / (2 * m1); s = np.sqrt(1 - cost ** 2); d = np.stack([k * s * np.cos(phi), k * s * np.sin(phi), k * cost], 1)
    return np.concatenate([np.sqrt(k ** 2 + m2 ** 2)[:, None], d], 1), np.concatenate([np.sqrt(k ** 2 + m3 ** 2)[:, None], -d], 1)
def lab(b, m, *ps): n = len(b["EP_LAB"]); r = np.concatenate([np.full((n, 1), m), np.zeros((n, 3))], 1); return tuple(boost(p, b["EP_LAB"], b["costP_LAB"], b["phiP_LAB"], m) for p in (r,) + ps)
def two_body_decay(samples, boost=None, m1=1, m2=0, m3=0, rng=None):
    n = len(boost["EP_LAB"])
    if m2 + m3 > m1: raise ValueError("decay of %g into %g and %g" % (m1, m2, m3))
    c = 2 * unit(samples["unit_cost"] if "unit_cost" in samples else rng(n), n, "unit_cost") - 1; return lab(boost, m1, *pair(c, 2 * math.pi * rng(n), m1, m2, m3, n))
def three_body_decay(samples, boost=None, m1=1, m2=0, m3=0, m4=0, rng=None):
    """t: the square of the mass of the pair, u: its polar angle in the pair's frame, c3 and phi34: of m4 in the parent's"""
    n = len(boost["EP_LAB"]); t, u, c3, phi = (unit(samples["unit_" + k], n, k) for k in ("t", "u", "c3", "phi34")); s = (m2 + m3) ** 2 + t * ((m1 - m4) ** 2 - (m2 + m3) ** 2)
    q, p4 = pair(1 - 2 * c3, 2 * math.pi * rng(n), m1, np.sqrt(s), m4, n); p2, p3 = pair(2 * u - 1, 2 * math.pi * phi, np.sqrt(s), m2, m3, n)
    a = (q[:, 0], q[:, 3] / np.sqrt((q[:, 1:] ** 2).sum(1)), np.arctan2(q[:, 2], q[:, 1])); w = lambda p: np.concatenate([_b(p[i:i + 1], a[0][i], a[1][i], a[2][i], math.sqrt(s[i])) for i in range(n)])
    return lab(boost, m1, w(p2), w(p3), p4)
_b = boost
class Mean:
    def __init__(self, m): self.mean = m
class Integrator(dict): pass
class Dec:
    m_parent = 0.4; m_daughter = 0.0; NDIM = 1; RATE = 2.5e-3; nu_daughter = Code(5910); vector_on_shell = scalar_on_shell = False; vector_off_shell = scalar_off_shell = True; mm = 0.0; mzprime = 0.15; mhprime = 0.22
    def __init__(self, parent=5914): self.nu_parent = Code(parent); self.new = 0; self.widths = 0; self.log = []
    integral = property(lambda s: isinstance(s, Dilepton) and s.vector_off_shell and s.scalar_off_shell)
    def fresh(self): self.new += 1; return {"diff_decay_rate_0": 7.0}, Integrator(diff_decay_rate_0=Mean(self.RATE / 7.0), made=self.new)
    def total_width(self, return_norm=False, return_dec=False, **kw):
        if kw: raise TypeError("unexpected %s" % sorted(kw))
        self.widths += 1
        if not self.integral:
            if return_norm or return_dec: raise ValueError("there is no integral in this width")
            return np.float64(self.RATE)
        if not (return_norm or return_dec): return np.float64(self.RATE)
        norm, dec = self.fresh(); return (np.float64(self.RATE),) + ((norm,) if return_norm else ()) + ((dec,) if return_dec else ())
    POINTS = [0.1, 0.35, 0.62, 0.9, 0.5]; WEIGHTS = [1.0, 0.0, 5.0, 2.0, 0.5]
    def SamplePS(self, return_norm=False, return_dec=False, existing_integrator=None):
        if existing_integrator is not None and not isinstance(existing_integrator, Integrator): raise TypeError("not an integrator: %r" % (existing_integrator,))
        n = len(self.POINTS); s = np.array([[self.POINTS[(i + d) % n] for i in range(n)] for d in range(self.NDIM)]); w = {"diff_decay_rate_0": np.array(self.WEIGHTS)}
        if existing_integrator is not None: return s, w
        norm, dec = self.fresh(); return ((s, w),) + ((norm,) if return_norm else ()) + ((dec,) if return_dec else ()) if return_norm or return_dec else (s, w)
    def differential_width(self, momenta):
        for p in momenta:
            if p.shape != (1, 4): raise ValueError("momenta of shape %s" % (p.shape,))
        return np.array([sum((10.0 ** -i) * (p[0, 0] + 0.3 * p[0, 1] - 0.2 * p[0, 2] + 0.1 * p[0, 3]) for i, p in enumerate(momenta))])
class Dilepton(Dec): mm = 0.05; secondaries = [Code(11), Code(-11)]
class Photon(Dec): secondaries = [Code(22)]
def kind(name):
    d = Photon() if name.startswith("photon") else Dilepton()
    if name == "photon-heavy": d.m_daughter = 0.15; d.nu_daughter = Code(5914); d.nu_parent = Code(5915)
    if name == "vector": d.vector_on_shell, d.vector_off_shell = True, False
    if name == "scalar": d.scalar_on_shell, d.scalar_off_shell = True, False
    if name == "muons": d.mm = 0.12; d.secondaries = [Code(-13), Code(13)]
    if name == "offshell-heavy": d.m_daughter = 0.1; d.nu_daughter = Code(5914); d.nu_parent = Code(5915)
    if d.integral: d.NDIM = 4
    return d
KINDS = ["photon", "photon-heavy", "vector", "scalar", "offshell", "offshell-heavy", "muons"]
DN.processes.FermionDileptonDecay = Dilepton; DN.processes.FermionSinglePhotonDecay = Photon; DN.phase_space.two_body_decay = two_body_decay; DN.phase_space.three_body_decay = three_body_decay
C = Anything("DarkNews.Cfourvec"); C.__all__ = []; C.get_cosTheta = lambda p: p.T[3] / np.sqrt((p.T[1:] ** 2).sum(0)); sys.modules["DarkNews.Cfourvec"] = C; DN.Cfourvec = C
class NuclearTarget:
    def __init__(self, name, code): self.name = name; self.code = code
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return isinstance(o, NuclearTarget) and o.name == self.name
DN.nuclear_tools.NuclearTarget = NuclearTarget
siren.interactions.DarkNewsDecay = type("DarkNewsDecay", (), {"__init__": lambda s: None})
class Models:
    given = None; ups = {}; dec = {}
    def __init__(self, **kw): Models.given = kw; self.ups_cases = dict(Models.ups); self.dec_cases = dict(Models.dec)
def load_module(name, path, persist=True):
    if name in sys.modules: return sys.modules[name]
    s = importlib.util.spec_from_file_location(name, path); m = importlib.util.module_from_spec(s); sys.modules[name] = m; s.loader.exec_module(m); return m
MOD = []
def processes():
    if not MOD:
        u = types.ModuleType("siren._util"); u.load_module = load_module; u.resource_package_dir = lambda: BASE; sys.modules["siren._util"] = u; siren._util = u
        c = types.ModuleType("siren.DNModelContainer"); c.ModelContainer = Models; sys.modules["siren.DNModelContainer"] = c; siren.DNModelContainer = c
        siren.utilities.darknews_version = lambda: "1.0"; siren.utilities.get_processes_model_path = lambda *a, **k: BASE; siren.detector.DetectorModel = object
        MOD.append(load_module("dn_processes", os.path.join(HERE, "processes.py")))
    return MOD[0]
class Sec:
    four_momentum = None; mass = None
class DRec(Record):
    def get_secondary_particle_records(self):
        if not hasattr(self, "secs"): self.secs = [Sec() for _ in self.signature.secondary_types]
        return self.secs
    def get_secondary_particle_record(self, i): return self.get_secondary_particle_records()[i]
    secondary_particle_records = property(get_secondary_particle_records)
siren.dataclasses.InteractionRecord = Record
def record(case, p, order=None):
    r = DRec(); r.signature.primary_type = ParticleType(case.nu_parent.pdgid); r.signature.target_type = ParticleType.Decay; t = [case.nu_daughter.pdgid] + [s.pdgid for s in case.secondaries]
    r.signature.secondary_types = [ParticleType(t[i]) for i in (order or range(len(t)))]; m = case.m_parent; r.primary_momentum = [math.sqrt(m * m + sum(x * x for x in p))] + list(p); r.primary_mass = m; return r
class Rng:
    def __init__(self, frac): self.frac = frac; self.k = 0
    def Uniform(self, a=0.0, b=1.0):
        self.k += 1
        return a + (b - a) * (self.frac if self.k == 1 else (self.frac * 0.37 + 0.61 * self.k) % 1.0)
MOMENTA = [(0.0, 0.0, 3.0), (0.2, -1.1, 0.4), (-0.7, 0.0, -2.0), (0.01, 0.02, 0.005)]
def dot(a, b): return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
def near(a, b, t=1e-7): return math.isfinite(a) and abs(a - b) <= t * max(1.0, abs(b))
def sample(name, case, x, p, frac, order, what):
    r = record(case, p, order); x.SampleRecordFromDarkNews(r, Rng(frac)); ids = [int(t) for t in r.signature.secondary_types]; out = {}
    for i, s in zip(ids, r.secs):
        ok = s.four_momentum is not None and np.shape(s.four_momentum) == (4,); vc.expect(ok, "missing", "%s: secondary %d has momentum %r" % (what, i, s.four_momentum))
        if not ok: return
        out[i] = [float(v) for v in s.four_momentum]
    P = r.primary_momentum; tot = [sum(q[k] for q in out.values()) for k in range(4)]; vc.expect(all(near(a, b, 1e-6) for a, b in zip(tot, P)), "conservation", lambda: "%s: momenta %s from %s" % (what, out, P))
    mass = {case.nu_daughter.pdgid: case.m_daughter}
    for s in case.secondaries: mass[s.pdgid] = case.mm if isinstance(case, Dilepton) else 0.0
    for (i, q), s in zip(out.items(), r.secs):
        vc.expect(near(dot(q, q), mass[i] ** 2, 1e-6) and q[0] > 0, "mass-shell", lambda: "%s: particle %d has mass^2 %g instead of %g" % (what, i, dot(q, q), mass[i] ** 2)); vc.expect(s.mass is None or near(s.mass, mass[i]), "mass", lambda: "%s: particle %d is given the mass %r instead of %g" % (what, i, s.mass, mass[i]))
    cdf = 0.0; j = None; W = case.WEIGHTS
    for i, w in enumerate(W):
        cdf += w
        if frac * sum(W) <= cdf and j is None: j = i
    c = [case.POINTS[(j + d) % len(case.POINTS)] for d in range(case.NDIM)]; D = out[case.nu_daughter.pdgid]; m = case.m_parent; pm = math.sqrt(sum(v * v for v in P[1:]))
    ed = dot(D, P) / m; kd = math.sqrt(max(ed * ed - case.m_daughter ** 2, 0)); cost = (D[0] * m / P[0] - ed) / (kd * pm / P[0])   # D0 = g (e + b k c)
    if case.integral:
        lm, lp = [(out[i]) for i in sorted((s.pdgid for s in case.secondaries), reverse=True)]; q = [a + b for a, b in zip(lm, lp)]; s = dot(q, q); lo, hi = (2 * case.mm) ** 2, (m - case.m_daughter) ** 2
        vc.expect(near((s - lo) / (hi - lo), c[0], 1e-5), "coordinate-t", lambda: "%s: t is %g instead of %g" % (what, (s - lo) / (hi - lo), c[0]))
        kq = kd; el = dot(lm, q) / math.sqrt(s); kl = math.sqrt(max(el * el - case.mm ** 2, 0)); eq = dot(q, P) / m; ell = dot(lm, P) / m; g = eq / math.sqrt(s); bg = kq / math.sqrt(s); cu = (ell - g * el) / (bg * kl)
        vc.expect(near((cu + 1) / 2, c[1], 1e-5), "coordinate-u", lambda: "%s: u is %g instead of %g (the lepton's polar angle)" % (what, (cu + 1) / 2, c[1])); vc.expect(near((1 + cost) / 2, c[2], 1e-5), "coordinate-c3", lambda: "%s: c3 is %g instead of %g" % (what, (1 + cost) / 2, c[2]))
    else:
        vc.expect(near((cost + 1) / 2, c[0], 1e-5), "coordinate", lambda: "%s: cost is at %g instead of %g, point %d" % (what, (cost + 1) / 2, c[0], j))
        if isinstance(case, Dilepton): lm, lp = [out[s.pdgid] for s in case.secondaries]; q = [a + b for a, b in zip(lm, lp)]; M = case.mzprime if case.vector_on_shell else case.mhprime; vc.expect(near(dot(q, q), M * M, 1e-6), "mediator", lambda: "%s: the pair's mass^2 is %g instead of %g" % (what, dot(q, q), M * M))
def copy(x):
    y = type(x).__new__(type(x))
    for a, v in pickle.loads(pickle.dumps(x.get_representation())).items(): setattr(y, a, v)
    return y
OPS = ["all", "all-record", "width", "other", "diff", "sample", "save", "reload", "pickle", "rebuild", "signatures"]
def run_op(name, case, x, op, d, what):
    pt = ParticleType(case.nu_parent.pdgid); K = type(x); n = 3 if isinstance(case, Dilepton) else 2
    if op == "all": vc.expect(near(float(x.TotalDecayWidthAllFinalStates(pt)) / case.RATE, 1.0, 1e-9), "width", what)
    elif op == "all-record": vc.expect(near(float(x.TotalDecayWidthAllFinalStates(record(case, MOMENTA[1]))) / case.RATE, 1.0, 1e-9), "width", what)
    elif op == "width": vc.expect(near(float(x.TotalDecayWidth(record(case, MOMENTA[0]))) / case.RATE, 1.0, 1e-9), "width", what)
    elif op == "other":
        for t in (14, -int(pt), 22): vc.expect(x.TotalDecayWidthAllFinalStates(ParticleType(t)) == 0, "other", "%s: a width of %d" % (what, t))
        for f in (lambda s: setattr(s, "primary_type", ParticleType(14)), lambda s: setattr(s, "target_type", ParticleType(1000060120)), lambda s: setattr(s, "secondary_types", s.secondary_types + [ParticleType(22)]), lambda s: setattr(s, "secondary_types", s.secondary_types[:-1])) + tuple((lambda s, i=i: s.secondary_types.__setitem__(i, ParticleType(12))) for i in range(n)):
            r = record(case, MOMENTA[0]); f(r.signature); vc.expect(x.TotalDecayWidth(r) == 0, "other", lambda: "%s: a width of %s" % (what, r.signature.key()))
    elif op == "diff":
        for order in itertools.permutations(range(n)):
            r = record(case, MOMENTA[1], order); q = {int(t): [1.0 + 0.37 * k + abs(int(t)) * 0.01 + (0.2 if int(t) < 0 else 0) for k in range(4)] for t in r.signature.secondary_types}; r.secondary_momenta = [q[int(t)] for t in r.signature.secondary_types]; neg = [t for t in q if t in (11, 13)]; pos = [t for t in q if t in (-11, -13)]
            ms = [r.primary_momentum, q[22]] if n == 2 else [r.primary_momentum, q[neg[0]], q[pos[0]], q[case.nu_daughter.pdgid]]; want = case.differential_width([np.array([m]) for m in ms]).item()
            got = x.DifferentialDecayWidth(r); vc.expect(type(got) is float and near(got, want), "differential", lambda: "%s, secondaries %s: %r instead of %r" % (what, r.signature.secondary_types, got, want))
    elif op == "sample": sample(name, case, x, MOMENTA[1], 0.73, None, what)
    elif op == "save": os.makedirs(d, exist_ok=True); x.save_to_table(d)
    elif op == "reload":
        saved = os.path.isfile(os.path.join(d, "decay.pkl")); x = K(case); x.load_from_table(d); vc.expect(os.path.isdir(d), "folder", what)
    elif op == "pickle": c = x.dec_case; x = pickle.loads(pickle.dumps(x)); x.dec_case = c
    elif op == "rebuild":
        c = x.dec_case; x = copy(x); vc.expect(type(getattr(x, "dec_case", None)) is type(c), "representation", what + ": the representation lacks the decay case"); x.dec_case = c
    elif op == "signatures":
        want = (case.nu_parent.pdgid, 0, (case.nu_daughter.pdgid,) + tuple(s.pdgid for s in case.secondaries)); vc.expect([s.key() for s in x.GetPossibleSignatures()] == [want] and [s.key() for s in x.GetPossibleSignaturesFromParent(pt)] == [want], "signatures", what); vc.expect(x.GetPossibleSignaturesFromParent(ParticleType(14)) == [], "signatures", what)
        v = x.DensityVariables(); vc.expect(isinstance(v, (list, tuple)) and list(v) == (["t", "u", "c3", "phi34"] if case.integral else ["cost"]), "variables", lambda: "%s: density variables %r" % (what, v))
    return x
def histories(name):
    def f():
        depth = 3 if vc.thorough() else 2
        K = processes().PyDarkNewsDecay; d = os.path.join(BASE, "h-" + name)
        for ops in itertools.product(OPS, repeat=depth):
            shutil.rmtree(d, ignore_errors=True); case = kind(name); x = K(case); have = False; disk = False   # does the object, the folder hold an integrator?
            for i, op in enumerate(ops + ("all", "sample")):
                what = "%s: %s" % (name, " ".join((ops + ("all", "sample"))[:i + 1])); vc.note(what); vc.step(); before = case.new
                try: x = run_op(name, case, x, op, d, what)
                except (Exception, SystemExit) as e: vc.expect(False, "failed-" + op, lambda: "%s: %s: %s" % (what, type(e).__name__, e)); break
                if op == "sample" or op.startswith("all") and case.integral:
                    vc.expect(case.new == before if have else case.new <= before + 1, "integrated-again", lambda: "%s: %d new integrations although one was at hand" % (what, case.new - before)); have = True
                if op == "save": disk = have
                if op == "reload": have = disk
                vc.state((name, op, have, disk, case.new, case.widths, sorted(k for k, v in x.get_representation().items() if v is not None)))
            vc.trace()
    return f
def sampling(name):
    def f():
        K = processes().PyDarkNewsDecay; n = 3 if isinstance(kind(name), Dilepton) else 2; fr = 64 if vc.thorough() else 17
        for p, order in itertools.product(MOMENTA, itertools.permutations(range(n))):
            case = kind(name); x = K(case)
            for i in range(fr):
                what = "%s: sample at %g, momentum %s, order %s" % (name, (i + 0.5) / fr, p, order); vc.note(what); vc.step(); vc.state(what)
                try: sample(name, case, x, p, (i + 0.5) / fr, order, what)
                except (Exception, SystemExit) as e: vc.expect(False, "failed-sample", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
            vc.trace()
        case = kind(name); case.WEIGHTS = [0.0] * 5; x = K(case)
        try: x.SampleRecordFromDarkNews(record(case, MOMENTA[0]), Rng(0.5)); vc.expect(False, "zero-weight", name + ": a sample of points that all have weight zero")
        except ValueError: pass
        except (Exception, SystemExit) as e: vc.expect(False, "failed-zero", "%s: %s" % (name, e))
    return f
TARGETS = [NuclearTarget("C12", 1000060120), NuclearTarget("H1", 1000010010)]
def ups(which):
    out = {}
    for p, t, n in which: c = dn.Case(t.code, curved=False); c.nu_projectile = Code(p); c.nu_upscattered = Code(n); out[(Code(p), Code(n), t, "dipole", "coherent")] = c
    return out
def decs(which): return {(Code(kind(k).nu_parent), Code(kind(k).nu_daughter), "x%d" % i, k): kind(k) for i, k in enumerate(which)}
UPS = [(14, TARGETS[0], 5914), (-14, TARGETS[0], 5914), (14, TARGETS[1], 5914), (14, TARGETS[0], 5915)]
DECS = ["photon", "photon-heavy", "offshell", "offshell-heavy", "vector"]
class Mats:
    mats = [[22, 1000060120], [1000010010, 11], [1000060120, 1000180400]]; names = {22: "ParticleType.Gamma", 11: "ParticleType.EMinus", 1000060120: "ParticleType.C12Nucleus", 1000010010: "ParticleType.HNucleus", 1000180400: "ParticleType.Ar40Nucleus"}
    def HasMaterial(self, i): return i < len(self.mats)
    def GetMaterialTargets(self, i): return [T(t) for t in self.mats[i]]
class T(int):
    def __str__(self): return Mats.names[int(self)]
class Det: Materials = Mats()
def loading(part, of):
    """which cases there are x which primary is asked for x what was stored before x how"""
    def f():
        P = processes(); k = 0
        usets = [c for n in range(len(UPS) + 1) for c in itertools.combinations(UPS, n)]; dsets = [c for n in range(len(DECS) + 1) for c in itertools.combinations(DECS, n)]
        combos = [(u, d) for i, u in enumerate(usets) for j, d in enumerate(dsets) if vc.thorough() or len(u) in (0, 2, 4) and (len(d) in (0, 2, 5))]
        for (u, d), primary, mode in itertools.product(combos, (14, -14), ("noname", "empty", "saved", "saved-nopickle", "fill", "saved-used")):
            k += 1
            if k % of != part: continue
            tdir = os.path.join(BASE, "lp-%d" % part); shutil.rmtree(tdir, ignore_errors=True); Models.ups = ups(u); Models.dec = decs(d); what = "%d upscattering cases, decays %s, primary %d, %s" % (len(u), list(d), primary, mode); vc.note(what); vc.step(); vc.state(what); pt = ParticleType(primary)
            kw = dict(primary_type=pt, tolerance=0.01, interp_tolerance=0.5, always_interpolate=True, table_name=None if mode == "noname" else tdir, m4=0.4)
            if mode == "empty":
                for n in ("tolerance", "interp_tolerance", "always_interpolate"): del kw[n]
            if mode == "fill": kw.update(fill_tables_at_start=True, Emax=3.0)
            if mode == "empty": kw.update(detector_model=Det(), target_types=["Fe56"]); want = ["C12", "H1", "Ar40", "Fe56"]
            else: kw.update(nuclear_targets=["C12"]); want = ["C12"]
            try:
                ps = P.load_processes(**kw); judge(ps, u, d, primary, what); vc.expect(Models.given.get("nuclear_targets") == want and Models.given.get("m4") == 0.4, "model", lambda: "%s: the model is made with %s" % (what, Models.given))
                xs = [x for v in ps[0].values() for x in v]; ds = [x for v in ps[1].values() for x in v]
                for x in xs: vc.expect((x.tolerance, x.interp_tolerance, x.always_interpolate) == ((1e-6, 5e-2, True) if mode == "empty" else (0.01, 0.5, True)), "settings", what); c = x.ups_case.calls; x.TotalCrossSection(pt, 1.3, ParticleType(x.ups_case.nuclear_target.pdgid)); vc.expect(mode != "fill" or x.ups_case.calls == c, "filled", lambda: "%s: the table was not filled" % what)
                if mode.startswith("saved"):
                    for x in xs: x.FillInterpolationTables(Emax=3.0)
                    for x in ds: x.TotalDecayWidthAllFinalStates(ParticleType(x.dec_case.nu_parent.pdgid))
                    if mode == "saved-used":
                        for x in ds: x.SampleRecordFromDarkNews(record(x.dec_case, MOMENTA[0]), Rng(0.4))
                    P.SaveDarkNewsProcesses(tdir, ps[0], ps[2], ps[1], ps[3], pickles=mode != "saved-nopickle")
                    Models.ups = ups(u); Models.dec = decs(d); ps = P.load_processes(**kw); judge(ps, u, d, primary, what + ", loaded again"); vc.step()
                    for pt_ in ps[0]:
                        for x, kk in zip(ps[0][pt_], ps[2][pt_]):
                            c = x.ups_case.calls; got = x.TotalCrossSection(pt, 1.3, ParticleType(x.ups_case.nuclear_target.pdgid)); vc.expect(x.ups_case.calls == c and near(float(got), x.ups_case.total(1.3), 1e-6), "loaded", lambda: "%s: total cross section %r after loading, %d new evaluations" % (what, got, x.ups_case.calls - c))
                    for x in (x for v in ps[1].values() for x in v):
                        c = x.dec_case.new; got = x.TotalDecayWidthAllFinalStates(ParticleType(x.dec_case.nu_parent.pdgid)); vc.expect(near(float(got) / x.dec_case.RATE, 1.0, 1e-9) and x.dec_case.new == c, "loaded-decay", lambda: "%s: width %r after loading, %d new integrations" % (what, got, x.dec_case.new - c)); sample("", x.dec_case, x, MOMENTA[0], 0.73, None, what)
                        if mode == "saved-used" or x.dec_case.integral: vc.expect(x.dec_case.new == c, "loaded-decay", lambda: "%s: %d new integrations after loading a decay" % (what, x.dec_case.new - c))
                    if mode != "saved-nopickle" and d:
                        for pref in (["pickle"], ["pickle", "table", "normal"], ["table", "normal"], ["normal"]):
                            m = Models(); ds = P.load_decays(m, table_dir=tdir, preferences=pref); vc.step(); vc.expect(list(ds) == list(m.dec_cases), "keys", what)
                            for kk, x in ds.items():
                                vc.expect(type(x.dec_case) is type(m.dec_cases[kk]) and int(x.dec_case.nu_parent) == int(kk[0]), "from-pickle", lambda: "%s: %s gives the decay of %s" % (what, pref, x.dec_case.nu_parent))
                                vc.expect((x.dec_case is not m.dec_cases[kk]) == (pref[0] == "pickle"), "preference", lambda: "%s: preferences %s: the pickle is %staken" % (what, pref, "" if pref[0] != "pickle" else "not ")); c = x.dec_case.new; x.TotalDecayWidthAllFinalStates(ParticleType(int(kk[0])))
                                if x.dec_case.integral: vc.expect((x.dec_case.new == c) == (pref != ["normal"]), "preference", lambda: "%s: preferences %s: %d new integrations" % (what, pref, x.dec_case.new - c))
            except (Exception, SystemExit) as e: vc.expect(False, "failed-load", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
            vc.trace()
    return f
def judge(ps, u, d, primary, what):
    prim, sec, pk, sk = ps; mine = [x for x in u if x[0] == primary]
    vc.expect(list(prim) == ([primary] if mine else []) and list(pk) == list(prim), "primaries", lambda: "%s: primary processes of %s" % (what, list(prim)))
    if mine and primary in prim:
        vc.expect(len(prim[primary]) == len(pk[primary]) == len(mine), "primaries", lambda: "%s: %d processes, %d keys for %d cases" % (what, len(prim[primary]), len(pk[primary]), len(mine)))
        for x, kk in zip(prim[primary], pk[primary]): vc.expect(x.ups_case is Models.ups[kk] and x.GetPossibleSignatures()[0].key() == (primary, kk[2].code, (int(kk[1]), kk[2].code)), "keys", lambda: "%s: %s does not belong to %s" % (what, x.GetPossibleSignatures()[0].key(), kk))
        vc.expect(len(set(map(id, prim[primary]))) == len(mine) and len(set(pk[primary])) == len(mine), "primaries", what)
    parents = {}
    for k in d: parents.setdefault(int(kind(k).nu_parent), []).append(k)
    vc.expect({int(k): len(v) for k, v in sec.items()} == {k: len(v) for k, v in parents.items()} and list(sec) == list(sk), "secondaries", lambda: "%s: secondary processes %s" % (what, {int(k): len(v) for k, v in sec.items()}))
    for k in sec:
        vc.expect(len(sec[k]) == len(sk[k]), "secondaries", what)
        for x, kk in zip(sec[k], sk[k]): vc.expect(int(k) == int(kk[0]) == int(x.dec_case.nu_parent) and type(x.dec_case) is type(Models.dec[kk]) and x.dec_case.integral == Models.dec[kk].integral, "keys", lambda: "%s: the decay of %s is filed under %s, %s" % (what, x.dec_case.nu_parent, k, kk))
if __name__ == "__main__":
    cases = [] if np is None else [("h-" + n, histories(n)) for n in KINDS] + [("sampling-" + n, sampling(n)) for n in KINDS] + [("loading-%d" % i, loading(i, 8)) for i in range(8)]
    if np is None: cases = [("numpy-missing", lambda: vc.state("numpy and scipy are not installed here: nothing explored"))]
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
