"""P36: tabulated DarkNews cross sections. The real PyDarkNewsCrossSection classes (the resource's and the controller's) run on
stand-ins for DarkNews whose cross sections are known in closed form; all histories of queries, fills, saves and reloads."""
import builtins, itertools, math, os, shutil, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren, Anything
for n in ("numpy", "awkward", "h5py"): sys.modules.pop(n, None)
sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
try: import numpy as np, scipy.interpolate
except ImportError: np = None
REPO = os.environ.get("VERIF_REPO", "/repo")
class ParticleType(int):
    pass
for n, v in dict(NuMu=14, NuMuBar=-14, PPlus=2212, HNucleus=1000010010, C12Nucleus=1000060120, N4=5914).items(): setattr(ParticleType, n, ParticleType(v))
class Sig:
    def __init__(self): self.primary_type = None; self.target_type = None; self.secondary_types = []
    def key(self): return (self.primary_type, self.target_type, tuple(self.secondary_types))
class Record:
    def __init__(self): self.signature = Sig(); self.primary_momentum = [0.0] * 4; self.target_mass = 0.0; self.secondary_momenta = []; self.primary_helicity = 0.5; self.target_helicity = 0.25
class P_: pass
P_.ParticleType = ParticleType
siren.dataclasses.Particle = P_; siren.dataclasses.ParticleType = ParticleType; siren.dataclasses.InteractionRecord = Record; siren.dataclasses.InteractionSignature = Sig
class Base:
    def __init__(self): pass
siren.interactions.DarkNewsCrossSection = Base; siren.interactions.DarkNewsDecay = type("DarkNewsDecay", (), {})
def q2min(E, m, MA): return 0.01 * E
def q2max(E, m, MA): return 1.01 * E
DN = Anything("DarkNews"); sys.modules["DarkNews"] = DN
for n in ("phase_space", "processes", "nuclear_tools", "integrands"):
    m = Anything("DarkNews." + n); m.__all__ = []; sys.modules["DarkNews." + n] = m; setattr(DN, n, m)
DN.phase_space.upscattering_Q2min = q2min; DN.phase_space.upscattering_Q2max = q2max
class Code(int):
    pdgid = property(lambda s: int(s)); name = "x"
class Case:
    """linear: the interpolators reproduce it exactly whatever the points"""
    Ethreshold = 1.0; MA = 12.0; m_ups = 0.1; h_upscattered = -1; scattering_regime = "coherent"; nu_projectile = Code(14); nu_upscattered = Code(5914)
    def __init__(self, target=1000060120, curved=False): self.nuclear_target = Code(target); self.curved = curved; self.calls = 0
    def total(self, E): return 0.02 * E ** 1.7 * (1 - 0.9 / E) if self.curved else 2.0 + 0.75 * E
    def diff(self, E, z): return 3.0 * E ** 0.5 * math.exp(-2 * z) if self.curved else 3.0 + 0.5 * E + 2.0 * z
    def total_xsec(self, E): self.calls += 1; return np.float64(self.total(E))
    def diff_xsec_Q2(self, E, Q2): self.calls += 1; a, b = q2min(E, 0, 0), q2max(E, 0, 0); return np.float64(self.diff(E, (Q2 - a) / (b - a)))
MODS = {}
def module(which):
    if which not in MODS:
        u = types.ModuleType("siren._util"); u.load_module = lambda *a, **k: None; u.resource_package_dir = lambda: BASE; sys.modules["siren._util"] = u; siren._util = u
        c = types.ModuleType("siren.DNModelContainer"); c.ModelContainer = object; sys.modules["siren.DNModelContainer"] = c
        import importlib.util
        p = os.path.join(REPO, "resources/processes/DarkNewsTables/DarkNewsCrossSection.py" if which == "resource" else "python/SIREN_DarkNews.py"); s = importlib.util.spec_from_file_location("dn_" + which, p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); MODS[which] = m
    return MODS[which]
DIR = [0]
def make(which, case, d, always, tol=0.01, itol=0.5):
    C = module(which).PyDarkNewsCrossSection
    if which == "resource":
        x = C(case, tolerance=tol, interp_tolerance=itol, always_interpolate=always)
        if d: x.load_from_table(d)
        return x
    return C(case, table_dir=d, tolerance=tol, interp_tolerance=itol, always_interpolate=always)
def save(which, x, d): x.save_to_table(d) if which == "resource" else x.SaveInterpolationTables()
NU, C12 = ParticleType(14), ParticleType(1000060120)
def record(E, z):
    """a massless neutrino along z going to a heavier lepton so that Q2 = -(p1 - p3)^2 lies at z of its range"""
    r = Record(); r.signature.primary_type = NU; r.signature.target_type = C12; r.primary_momentum = [E, 0.0, 0.0, E]; r.target_mass = 12.0; Q2 = q2min(E, 0, 0) + z * (q2max(E, 0, 0) - q2min(E, 0, 0))
    m, e3 = 0.1, 0.8 * E + 0.2; p3 = math.sqrt(e3 * e3 - m * m); c = (2 * E * e3 - m * m - Q2) / (2 * E * p3)
    if abs(c) > 1: return None
    r.secondary_momenta = [[e3, p3 * math.sqrt(1 - c * c), 0.0, p3 * c]]; return r
ES = [0.5, 1.0, 1.005, 1.3, 4.0, 9.0]; ZS = [-0.05, 0.0, 0.004, 0.3, 0.96, 1.0, 1.05]
OPS = [("total", e) for e in ES] + [("diff", e, z) for e in (1.0, 1.005, 1.3, 9.0) for z in ZS] + [("diff", 0.5, 0.3), ("rec", 4.0, 0.3), ("rectotal", 4.0), ("other", 4.0), ("fill", None), ("fill", 3.0), ("at", 4.0), ("at", 1.3), ("save",), ("reload",), ("rebuild",)]
OPS3 = [("total", 0.5), ("total", 1.0), ("total", 1.3), ("total", 9.0), ("diff", 1.005, 0.3), ("diff", 1.3, 0.004), ("diff", 1.3, 0.3), ("diff", 9.0, 0.96), ("diff", 9.0, 1.05), ("rec", 4.0, 0.3), ("fill", None), ("fill", 3.0), ("at", 4.0), ("at", 1.3), ("save",), ("reload",), ("rebuild",)]
def close(a, b, t): return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= t * max(abs(a), abs(b)) and a == a
def run_op(which, x, op, case, d, always, what, t=1e-6, mk=None):
    """returns the object to continue with"""
    k = op[0]; t = t if always and d or k not in ("total", "rectotal") else 0.01   # a table entry within the tolerance (1%) of the energy may be taken
    if k in ("total", "rectotal"):
        E = op[1]
        if k == "total": got = x.TotalCrossSection(NU, E, C12)
        else: r = record(E, 0.3) or record(E, 0.0); got = x.TotalCrossSection(r)
        want = case.total(E) if E >= 1.0 else 0.0; vc.expect(close(float(got), want, t) if want else got == 0, "total", lambda: "%s: total cross section at %g is %r instead of %r" % (what, E, got, want))
    elif k in ("diff", "rec"):
        E, z = op[1:]; r = record(E, z) if k == "rec" else None
        Q2 = q2min(E, 0, 0) + z * (q2max(E, 0, 0) - q2min(E, 0, 0))
        if z == 1.0: Q2 = q2max(E, 0, 0)
        if k == "rec" and r is None: return x
        got = x.DifferentialCrossSection(r) if k == "rec" else x.DifferentialCrossSection(NU, C12, E, Q2)
        want = case.diff(E, z) if E >= 1.0 and 0 <= z <= 1 else 0.0
        if z == 0.0 and got == 0 and Q2 < q2min(E, 0, 0): return x
        vc.expect(close(float(got), want, t) if want else got == 0, "differential", lambda: "%s: differential cross section at E = %g, z = %g is %r instead of %r" % (what, E, z, got, want))
    elif k == "other":
        for p in (ParticleType(-14), ParticleType(12)): vc.expect(x.TotalCrossSection(p, op[1], C12) == 0 and x.DifferentialCrossSection(p, C12, op[1], 2.0) == 0, "other-primary", lambda: "%s: a cross section for another primary" % what)
    elif k == "fill": x.FillInterpolationTables(Emax=op[1])
    elif k == "at": x.FillTableAtEnergy(op[1])
    elif k == "save": save(which, x, d)
    elif k == "reload": return make(which, case, d, always)
    elif k == "rebuild":
        y = module(which).PyDarkNewsCrossSection.__new__(module(which).PyDarkNewsCrossSection)
        for a, v in x.get_representation().items(): setattr(y, a, v)
        return y
    return x
def histories(which, always, part, of):
    def f():
        k = 0; d = os.path.join(BASE, "t-%s-%s-%d" % (which, always, part))
        for ops in itertools.chain(itertools.product(OPS, repeat=2), itertools.product(OPS3, repeat=3)) if vc.thorough() else itertools.product(OPS3, OPS):
            k += 1
            if k % of != part: continue
            shutil.rmtree(d, ignore_errors=True); case = Case(); x = make(which, case, d, always); os.makedirs(d, exist_ok=True); hist = []
            for op in list(ops) + [("diff", 1.3, 0.3), ("total", 1.3)]:
                hist.append(op); what = "%s, %s, %s" % (which, "always interpolating" if always else "interpolating when close", hist); vc.note(what); vc.step()
                try: x = run_op(which, x, op, case, d, always, what)
                except (Exception, SystemExit) as e: vc.expect(False, "failed-" + op[0], lambda: "%s: %s: %s" % (what, type(e).__name__, e)); break
                vc.state((which, always, len(x.total_cross_section_table), len(x.differential_cross_section_table), float(x.total_cross_section_table.sum()), op))
            vc.trace()
    return f
def nodir():
    for always in (True, False):
        x = make("controller", Case(), None, always) if True else None
        for op in OPS:
            if op[0] in ("save", "reload"): continue
            what = "controller without a folder, %s" % (op,); vc.note(what); vc.step(); vc.state(what)
            try: x = run_op("controller", x, op, Case(), None, always, what)
            except (Exception, SystemExit) as e: vc.expect(False, "failed-nodir", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
        vc.trace()
        x = make("resource", Case(), None, always)
        for op in OPS:
            if op[0] in ("save", "reload"): continue
            what = "resource without a folder, %s" % (op,); vc.note(what); vc.step(); vc.state(what)
            try: x = run_op("resource", x, op, Case(), None, always, what)
            except (Exception, SystemExit) as e: vc.expect(False, "failed-nodir", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
        vc.trace()
class Torn(Exception): pass
def faults(which):
    """a save that stops after n bytes of either table: what is then on disk is still a usable table"""
    def f():
        m = module(which); real = np.save
        for n, first, before in itertools.product((0, 1, 10, 100, 129, 200, 10 ** 6), (0, 1), (False, True)):
            d = os.path.join(BASE, "f-%s" % which); shutil.rmtree(d, ignore_errors=True); case = Case(); x = make(which, case, d, True); os.makedirs(d, exist_ok=True); x.FillInterpolationTables(Emax=3.0)
            if before: save(which, x, d); x.FillInterpolationTables(Emax=9.0)
            count = [0]; what = "%s: save stops after %d bytes of table %d, %s earlier tables" % (which, n, first, "with" if before else "without"); vc.note(what); vc.state(what); vc.step()
            def broken(fo, a, *k, **kw):
                count[0] += 1
                if count[0] - 1 < first: return real(fo, a, *k, **kw)
                import io
                b = io.BytesIO(); real(b, a); b = b.getvalue()[:n]
                if hasattr(fo, "write"): fo.write(b); fo.flush()
                else: open(fo, "wb").write(b)
                raise Torn()
            np.save = broken
            try: save(which, x, d); vc.expect(False, "fault-silent", what + ": no error")
            except Torn: pass
            except (Exception, SystemExit) as e: vc.expect(False, "fault-failed", "%s: %s" % (what, e))
            finally: np.save = real
            try:
                y = make(which, case, d, True)
                for op in (("total", 1.3), ("diff", 1.3, 0.3), ("total", 9.0), ("diff", 9.0, 0.3), ("save",), ("reload",), ("total", 4.0), ("diff", 4.0, 0.96)): y = run_op(which, y, op, case, d, True, what)
            except (Exception, SystemExit) as e: vc.expect(False, "fault-unusable", lambda: "%s: afterwards %s: %s" % (what, type(e).__name__, e))
            left = [n for n in os.listdir(d) if n not in ("total_cross_sections.npy", "differential_cross_sections.npy")]; vc.expect(not left, "fault-litter", lambda: "%s leaves %s" % (what, left)); vc.trace()
    return f
def accuracy(which, always):
    def f():
        d = os.path.join(BASE, "a-%s-%s" % (which, always)); case = Case(curved=True); x = make(which, case, d, always, 1e-6, 5e-2)
        for E in [1.0 + 0.013 * i for i in range(24)]:
            for z in [i / 23.0 for i in range(24)]:
                got = x.DifferentialCrossSection(NU, C12, E, q2min(E, 0, 0) + z * (q2max(E, 0, 0) - q2min(E, 0, 0)) if z < 1 else q2max(E, 0, 0)); want = case.diff(E, z); vc.step(); vc.state((which, always, E, z))
                if z == 0 and got == 0: continue
                vc.expect(close(float(got), want, 0.05), "accuracy", lambda: "%s: differential cross section at E = %g, z = %g is %r instead of %r" % (which, E, z, got, want))
        for E in [1.0 + 0.037 * i for i in range(200)]: got = x.TotalCrossSection(NU, E, C12); vc.step(); vc.expect(close(float(got), case.total(E), 0.05), "accuracy", lambda: "%s: total cross section at E = %g is %r instead of %r" % (which, E, got, case.total(E)))
        vc.trace()
    return f
def signatures():
    for which, t in itertools.product(("resource", "controller"), (1000060120, 2212, 1000010010)):
        for fresh in (False, True):
            d = os.path.join(BASE, "s"); shutil.rmtree(d, ignore_errors=True); case = Case(t); x = make(which, case, d, True); want_t = 1000010010 if t == 2212 else t; vc.step(); vc.state((which, t, fresh)); what = "%s, target %d%s" % (which, t, ", rebuilt" if fresh else "")
            if fresh: x = run_op(which, x, ("rebuild",), case, d, True, what)
            want = (14, want_t, (5914, want_t))
            try:
                vc.expect([s.key() for s in x.GetPossibleSignaturesFromParents(NU, ParticleType(want_t))] == [want], "signatures", lambda: "%s: from its parents: %s instead of %s" % (what, [s.key() for s in x.GetPossibleSignaturesFromParents(NU, ParticleType(want_t))], want))
                vc.expect([s.key() for s in x.GetPossibleSignatures()] == [want], "signatures", lambda: "%s: %s" % (what, [s.key() for s in x.GetPossibleSignatures()]))
                vc.expect(x.GetPossibleSignaturesFromParents(ParticleType(-14), ParticleType(want_t)) == [] and x.GetPossibleSignaturesFromParents(NU, ParticleType(999)) == [], "signatures", what + ": signatures of other parents")
                vc.expect(x.GetPossiblePrimaries() == [14] and x.GetPossibleTargets() == [want_t] and x.GetPossibleTargetsFromPrimary(NU) == [want_t] and x.GetPossibleTargetsFromPrimary(ParticleType(-14)) == [], "targets", what)
                r = Record(); vc.expect(list(x.SecondaryMasses([])) == [0.1, 12.0] and x.TargetMass(None) == 12.0 and list(x.SecondaryHelicities(r)) == [-0.5, 0.25], "masses", what)
            except Exception as e: vc.expect(False, "failed-signatures", lambda: "%s: %s: %s" % (what, type(e).__name__, e))
            vc.trace()
if __name__ == "__main__":
    cases = [] if np is None else [("h-%s-%s-%d" % (w, a, p), histories(w, a, p, 4)) for w in ("resource", "controller") for a in (True, False) for p in range(4)] + [("nodir", nodir), ("signatures", signatures)] + [("faults-" + w, faults(w)) for w in ("resource", "controller")] + [("accuracy-%s-%s" % (w, a), accuracy(w, a)) for w in ("resource", "controller") for a in (True, False)]
    if np is None: cases = [("numpy-missing", lambda: vc.state("numpy and scipy are not installed here: nothing explored"))]
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
