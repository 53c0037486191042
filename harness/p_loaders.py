"""P35: fluxes and interactions loaded by tag. The real flux.py and processes.py of resources/ run on synthetic tables (their
downloads are replaced by the tables) and recording stand-ins for the compiled classes."""
import glob, importlib.util, itertools, math, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren
for n in ("numpy", "awkward", "h5py"): sys.modules.pop(n, None)
sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
try: import numpy as np
except ImportError: np = None
REPO = os.environ.get("VERIF_REPO", "/repo")
class PT(int):
    pass
class _T: pass
ParticleType = _T()
NUS = ["NuE", "NuMu", "NuTau"]; BARS = ["NuEBar", "NuMuBar", "NuTauBar"]; OTHER = ["MuMinus", "Nucleon", "PPlus", "Neutron", "O16Nucleus"]
for i, n in enumerate(NUS + BARS + OTHER): setattr(ParticleType, n, "PT." + n)
siren.dataclasses.Particle = _T(); siren.dataclasses.Particle.ParticleType = ParticleType; siren.dataclasses.ParticleType = ParticleType
class Recorder:
    def __init__(self, *a, **k): self.a = a; self.k = k; self.kind = type(self).__name__
for n in ("DISFromSpline", "HNLDISFromSpline", "HNLDipoleDISFromSpline", "MarleyCrossSection"): setattr(siren.interactions, n, type(n, (Recorder,), {}))
siren.distributions.TabulatedFluxDistribution = type("TabulatedFluxDistribution", (Recorder,), {})
siren.utilities.Constants = _T(); siren.utilities.Constants.isoscalarMass = 0.9389
DL = pysiren.load("download"); siren.download = DL
FETCHED = []; TABLES = {}
def ensure_files(files, *a, **k):
    for f in files:
        FETCHED.append(f["path"]); b = os.path.basename(f["path"])
        vc.expect(f.get("url", "").endswith("/" + b) and len(f.get("sha256", "")) == 64, "download-entry", lambda: "the download of %s is described by %s" % (b, f))
        if not os.path.exists(f["path"]):
            os.makedirs(os.path.dirname(f["path"]), exist_ok=True); TABLES[b](f["path"]) if callable(TABLES.get(b)) else open(f["path"], "w").write(TABLES.get(b, ""))
def ensure_zenodo_archive(record, name, root, prefix=None, **k): FETCHED.append((root, prefix))
DL.ensure_files = ensure_files; DL.ensure_zenodo_archive = ensure_zenodo_archive
COUNT = [0]
def fresh(kind, model, tables):
    """a new installation of one resource, imported"""
    COUNT[0] += 1; root = os.path.join(BASE, "inst%d-%d" % (os.getpid(), COUNT[0]), "resources"); src = os.path.join(REPO, "resources", kind, model.split("-")[0], model); dst = os.path.join(root, kind, model.split("-")[0], model)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__")); TABLES.clear(); TABLES.update(tables); del FETCHED[:]
    f = os.path.join(dst, {"fluxes": "flux.py", "processes": "processes.py"}[kind]); s = importlib.util.spec_from_file_location("res%d" % COUNT[0], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m, dst
def done(dst): shutil.rmtree(os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(dst)))), ignore_errors=True)
def close(a, b): return a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))
def same(xs, ys): return len(xs) == len(ys) and all(close(float(x), float(y)) for x, y in zip(xs, ys))
FL = ["nue", "numu", "nuebar", "numubar"]
RANGES = [(), (0.5, 2.0), (0.0, 4.0), (None, 2.0), (0.5, None), (0.0, None), (None, 0.0)]
def check_table(what, got, e, f, rng, norm):
    a = list(got.a) + [got.k[k] for k in got.k]
    want = (list(rng) if rng else []) + [e, f, norm]
    ok = got.kind == "TabulatedFluxDistribution" and len(a) == len(want) and all((same(x, y) if isinstance(y, list) else x == y) for x, y in zip(a, want))
    vc.expect(ok, "flux-table", lambda: "%s: %s(%s) instead of %s" % (what, got.kind, a, want))
def tabulated(model, tags, tables, expected):
    """expected(tag) -> None or (energies, fluxes)"""
    def f():
        for order in itertools.permutations(FL):
            m, dst = fresh("fluxes", model, tables(order))
            for tag, rng, norm in itertools.product(tags, RANGES, (None, True, False)):
                if rng not in ((), (0.5, 2.0)) and (norm is not None or order != tuple(FL)): continue
                kw = {}
                if rng: kw.update({k: v for k, v in zip(("min_energy", "max_energy"), rng) if v is not None})
                if norm is not None: kw["physically_normalized"] = norm
                what = "%s, columns %s, load_flux(%r, %s)" % (model, order, tag, kw); vc.note(what); vc.state(what); vc.step(); want = expected(tag); whole = len([k for k in kw if k.endswith("energy")]) != 1
                try: got = m.load_flux(tag, **kw)
                except (ValueError, TypeError, RuntimeError) as e: vc.expect(want is None or not whole, "flux-refused", lambda: "%s is refused: %s" % (what, e)); continue
                if vc.expect(want is not None and whole, "flux-accepted", lambda: "%s is accepted" % what): check_table(what, got, want[0], want[1], rng, True if norm is None else norm)
            vc.trace(); done(dst)
    return f
MODES = ["FHC", "RHC", "fhc", "", "FHCX"]
def val(mode, part, i): return 1.0 + 10 * i + 100 * FL.index(part) + 1000 * abs(hash_(mode))
def hash_(s): return sum((i + 1) * ord(c) for i, c in enumerate(s)) % 97
def bnb_tables(order): return {"BNB_%s.dat" % m: "E_lo E_hi %s\n" % " ".join(order) + "".join("%r %r %s\n" % (0.5 * i, 0.5 * i + 0.5, " ".join(repr(val(m, p, i)) for p in order)) for i in range(4)) for m in ("FHC", "RHC")}
def bnb_expected(tag):
    t = str(tag).split("_")
    if len(t) != 2 or t[0] not in ("FHC", "RHC") or t[1] not in FL: return None
    return [0.5 * i + 0.25 for i in range(4)], [val(t[0], t[1], i) / 50 * 1000 * 1e4 for i in range(4)]
PARTS = FL + ["nutau", "", "E_lo", "NUE", "numubarx"]
BNB_TAGS = [None, "", "FHC", "numu", "numu_FHC"] + [a + "_" + b for a in MODES for b in PARTS] + ["FHC_numu_nue", "FHC_FHC_numu", "_FHC_numu"]
EN = ["LE", "ME", "ME_unofficial", "HE", "", "LE_unofficial"]
def numi_tables(order): return {"NUMI_%s_%s.dat" % (m, e): "E %s\n" % " ".join(order) + "".join("%r %s\n" % (0.5 * i, " ".join(repr(val(m + e, p, i)) for p in order)) for i in range(4)) for m in ("FHC", "RHC") for e in EN[:3]}
def numi_expected(tag):
    for m in ("FHC", "RHC"):
        for e in EN[:3]:
            for p in FL:
                if tag == "%s_%s_%s" % (m, e, p): return [0.5 * i for i in range(4)], [val(m + e, p, i) * 1e4 for i in range(4)]
    return None
NUMI_TAGS = [None, "", "FHC", "FHC_numu", "LE_numu"] + ["%s_%s_%s" % t for t in itertools.product(MODES, EN, PARTS)] + ["FHC_LE_ME_numu", "FHC_LE_numu_numu"]
SN = "dN_dE_SNe_2n_D1_0_s20_t100d_NuMu_d10kpc.txt"
def sn_tables(order): return {SN: "E flux\n" + "".join("%r %r\n" % (10.0 ** i, 3.0 + i) for i in range(4))}
def sn_expected(tag): return ([10.0 ** i for i in range(4)], [(3.0 + i) * 1e4 for i in range(4)]) if tag == "numu" else None
# ---- loaders that write a table ---------------------------------------------------------------------------------------------------
def read(path): return [[float(x) for x in l.split()] for l in open(path) if l.strip()]
def written(model, tags, tables, expected, orders, faults):
    def f():
        for order in orders:
            valid = [t for t in tags if expected(t) is not None]
            seqs = [(t,) for t in tags] + (list(itertools.product(valid[:6] if not vc.thorough() else valid, repeat=2)) if order == orders[0] else [])
            for seq in seqs:
                m, dst = fresh("fluxes", model, tables(order)); files = {}
                for tag in seq:
                    what = "%s, columns %s, loads %s" % (model, order, seq); vc.note(what); vc.state((model, order, seq, tag)); vc.step(); want = expected(tag)
                    try: got = m.load_flux(tag)
                    except (ValueError, TypeError) as e: vc.expect(want is None, "file-refused", lambda: "%s: %r is refused: %s" % (what, tag, e)); continue
                    if not vc.expect(want is not None, "file-accepted", lambda: "%s: %r is accepted" % (what, tag)): continue
                    files[tag] = got
                    for t, p in files.items():      # earlier files are still what they were
                        rows = read(p); vc.expect(len(rows) == len(expected(t)) and all(same(a, b) for a, b in zip(rows, expected(t))), "file-table", lambda: "%s: the table for %r is %s instead of %s" % (what, t, rows[:3], expected(t)[:3]))
                vc.trace(); done(dst)
        if faults:
            for tag in [t for t in tags if expected(t) is not None]:
                for k in range(1, 4):      # the k-th write fails; afterwards the table is still right
                    m, dst = fresh("fluxes", model, tables(orders[0])); real = np.savetxt; n = [0]
                    def broken(fn, x, *a, **kw):
                        with open(fn, "w") as fo: fo.write("".join("%r %r %r\n" % tuple(r) for r in list(x)[:k]))
                        raise OSError(28, "No space left on device")
                    np.savetxt = broken; vc.step()
                    try: m.load_flux(tag); vc.expect(False, "fault-silent", "a failed write of %s is silent" % tag)
                    except OSError: pass
                    finally: np.savetxt = real
                    rows = read(m.load_flux(tag)); vc.state(("fault", tag, k)); vc.expect(len(rows) == len(expected(tag)) and all(same(a, b) for a, b in zip(rows, expected(tag))), "fault-table", lambda: "after a failed write the table for %r has %d rows" % (tag, len(rows))); vc.trace(); done(dst)
    return f
def t2k_tables(order): return {"T2K_%s_250kA.dat" % m: "# flux\nbin range(GeV) %s\nunits\n" % " ".join(order) + "".join("%d: %r - %r %s\n" % (i + 1, 0.05 * i, 0.05 * i + 0.05, " ".join(repr(val(m, p, i)) for p in order)) for i in range(4)) for m in ("PLUS", "MINUS")}
def t2k_expected(tag):
    t = str(tag).split("_")
    if len(t) != 2 or t[0] not in ("PLUS", "MINUS") or t[1] not in FL: return None
    return [[0.05 * i + 0.025, val(t[0], t[1], i) * 2e-16] for i in range(4)]
T2K_TAGS = [a + "_" + b for a in ("PLUS", "MINUS", "plus", "") for b in PARTS] + ["", "PLUS", "numu", "PLUS_numu_nue", "numu_PLUS"]
RATIO = [(0.5, 0.25), (1.5, 0.75), (2.5, 2.0)]
def kaon_tables(order): return {"kaon-flux-data.dat": "".join("%r %r\n" % (0.25 * i, 8.0 + 0.5 * i) for i in range(14)), "ratio.dat": "".join("%r %r 9.0\n" % r for r in RATIO), "TOT_PLUS_NUMU.dat": "", "TOT_MINUS_NUMUBAR.dat": ""}
def ratio(e):
    if e <= RATIO[0][0]: return RATIO[0][1]
    for (a, x), (b, y) in zip(RATIO, RATIO[1:]):
        if e <= b: return x + (y - x) * (e - a) / (b - a)
    return RATIO[-1][1]
def kaon_expected(tag):
    t = str(tag).split("_")
    if len(t) != 2 or t[0] not in ("numu", "numubar") or t[1] not in ("PLUS", "MINUS"): return None
    return [[0.25 * i, 10 ** (8.0 + 0.5 * i) * 2e-16 * (ratio(0.25 * i) if t[1] == "MINUS" else 1.0)] for i in range(14)]
KAON_TAGS = [b + "_" + a for a in ("PLUS", "MINUS", "minus", "") for b in FL + ["", "NUMU"]] + ["", "numu", "PLUS_numu", "numu_PLUS_MINUS"]
AM = ["bartol", "daemonflux", "H3a_SIBYLL21", "H3a_SIBYLL23C", "honda2006"]; AP = ["nue", "numu", "nuebar", "numubar", "nutau", "nutaubar"]
def aval(m, p, o, i, j): return 1.0 + i + 10 * j + 100 * AP.index(p) + 1000 * AM.index(m) + (5000 if o == "osc" else 0)
def atm_tables(order):
    def mk(m):
        def w(path): np.savez(open(path, "wb"), energy=np.array([1.0, 10.0, 100.0]), cos_theta=np.array([-1.0, 0.5]), **{"%s_%s" % (p, o): np.array([[aval(m, p, o, i, j) for j in range(2)] for i in range(3)], dtype=np.float32) for p in AP for o in ("osc", "unosc")})
        return w
    return {m + ".npz": mk(m) for m in AM}
def atm_expected(tag):
    m = [x for x in AM if tag.startswith(x + "_")]
    if len(m) != 1: return None
    t = tag[len(m[0]) + 1:].split("_")
    if len(t) < 2 or t[0] not in ("osc", "unosc") or any(p not in AP for p in t[1:]): return None
    return [[e, c, sum(aval(m[0], p, t[0], i, j) for p in t[1:])] for i, e in enumerate([1.0, 10.0, 100.0]) for j, c in enumerate([-1.0, 0.5])]
ATM_TAGS = ["%s_%s_%s" % (m, o, "_".join(ps)) for m in AM + ["H3a", "Bartol", ""] for o in ("osc", "unosc", "os", "") for ps in [[p] for p in AP + ["", "x"]] + [["nue", "numubar"], ["numu", "nue", "nutau"], ["nue", "x"]]] + ["", "bartol", "bartol_osc", "osc_nue", "bartol_nue_osc", "H3a_SIBYLL2_osc_nue"]
# ---- interactions -------------------------------------------------------------------------------------------------------------------
P = lambda n: "PT." + n
def subsets(xs): return [list(s) for k in range(len(xs) + 1) for s in itertools.combinations(xs, k)]
def splines(model, cls, dipole):
    def f():
        csms = cls == "DISFromSpline"; v = model; m, dst = fresh("processes", model, {})
        prims = [None] + [[P(n) for n in s] for s in subsets(NUS + BARS)] + [[P("NuMuBar"), P("NuE")], [P("MuMinus")], [P("NuE"), P("O16Nucleus")]]
        targets = [None, [P("Nucleon")], [P("PPlus"), P("Neutron")]]
        opts = [dict(process_types=x) for x in (None, ["CC"], ["NC"], ["NC", "CC"], ["cc"], ["CC", "X"], [])] if csms else [dict(m4_MeV=x) for x in (None, 0, 100, 100.0, 2500, 1000000)]
        for pr, tg, iso, o in itertools.product(prims, targets, (None, True, False), opts):
            if len([x for x in (pr is not None and len(pr) not in (1, 2), tg is not None, iso is not None, list(o.values())[0] is None) if x]) > 2: continue
            kw = {k: x for k, x in dict(primary_types=pr, target_types=tg, isoscalar=iso).items() if x is not None}; kw.update({k: x for k, x in o.items() if x is not None})
            if not csms: kw["dipole_couplings" if dipole else "mixings"] = [0.1, 0.2, 0.3]
            what = "%s: load_processes(%s)" % (model, kw); vc.note(what); vc.state(what); vc.step()
            known = [P(n) for n in NUS + BARS]; bad = iso is False or any(p not in known for p in pr or []) or (any(x not in ("CC", "NC") for x in o["process_types"] or []) if csms else o["m4_MeV"] is None)
            try: got, extra = m.load_processes(**kw)
            except ValueError as e: vc.expect(bad, "processes-refused", lambda: "%s is refused: %s" % (what, e)); continue
            if not vc.expect(not bad, "processes-accepted", lambda: "%s is accepted" % what): continue
            want = known if pr is None else pr; kinds = (["CC", "NC"] if o["process_types"] is None else o["process_types"]) if csms else ["NC"]
            if csms and not kinds: vc.expect(not any(got.values()), "processes-primaries", lambda: "%s: %s" % (what, got)); continue
            if not vc.expect(sorted(got) == sorted(want) and not extra, "processes-primaries", lambda: "%s: interactions for %s" % (what, sorted(got))): continue
            for p, xs in got.items():
                nu = "nu" if p in [P(n) for n in NUS] else "nubar"; wants = []
                for k in kinds:
                    if csms: wants.append(("dsdxdy_%s_%s_iso.fits" % (nu, k), "sigma_%s_%s_iso.fits" % (nu, k)))
                    else: wants.append(("M_0000000MeV/dsdxdy-%s-N-nc-GRV98lo_patched_central.fits" % nu, "M_%07dMeV/sigma-%s-N-nc-GRV98lo_patched_central.fits" % (int(o["m4_MeV"]), nu)))
                seen = []
                for x in xs:
                    a = list(x.a) + list(x.k.values()); strs = [y for y in a[:2]]; seen.append(tuple(str(y)[str(y).index(model) + len(model) + 1:] if model in str(y) else str(y) for y in strs)); lists = [y for y in a[2:] if isinstance(y, list) and y and isinstance(y[0], str)]
                    vc.expect(x.kind == cls and len(lists) == 2 and p in lists[0] and all((q in [P(n) for n in NUS]) == (nu == "nu") for q in lists[0]) and lists[1] == (tg or [P("Nucleon")]), "processes-interaction", lambda: "%s: for %s there is %s(%s)" % (what, p, x.kind, a))
                    vc.expect(all(q in want for q in lists[0]), "processes-others", lambda: "%s: the interaction for %s also serves %s" % (what, p, lists[0]))
                    if csms: vc.expect("m" in a[2:], "processes-units", lambda: "%s: %s" % (what, a))
                    else:
                        vc.expect(close(a[2], o["m4_MeV"] * 1e-3) and a[3] == [0.1, 0.2, 0.3], "processes-mass", lambda: "%s: %s" % (what, a))
                        if not dipole: vc.expect(a[4] == 0.9389 and a[5] == 1.0, "processes-mass", lambda: "%s: %s" % (what, a))
                vc.expect(sorted(seen) == sorted(wants), "processes-files", lambda: "%s: for %s the tables are %s instead of %s" % (what, p, seen, wants))
            vc.expect(any(isinstance(x, tuple) and x[1] == "processes/%s/%s" % (model.split("-")[0], model) for x in FETCHED), "processes-fetch", lambda: "%s: fetched %s" % (what, FETCHED[-1:])); del FETCHED[:]
            vc.trace()
        done(dst)
    return f
def marley():
    pre = os.path.join(BASE, "prefix"); os.environ["PREFIX"] = pre; root = os.path.join(pre, "share", "marley")
    for d in ("", "react", "structure"): os.makedirs(os.path.join(root, d), exist_ok=True)
    RE = {"ve40ArCC_Bhattacharya1998.react": "CC", "ve40ArCC_Liu1998.react": "CC", "ve40ArCC_Bhattacharya2009.react": "CC", "CEvNS40Ar.react": "CEvNS", "ES.react": "ES"}
    for r in RE: open(os.path.join(root, "react", r), "w").close()
    for s in ("nuclide_index.txt", "Ar40.dat", "K40.dat", "gs_spin_parity_table.txt"): open(os.path.join(root, "structure", s), "w").close()
    open(os.path.join(root, "mass_table.js"), "w").close(); m, dst = fresh("processes", "MarleyCrossSection-v1.0", {})
    for pr, pt, rn in itertools.product([None] + [[P(n) for n in s] for s in ((), ("NuE",), ("NuEBar",), ("NuE", "NuEBar"), ("NuMu",), ("NuE", "NuTau"))], [None] + subsets(["CC", "CEvNS", "ES"]) + [["NC"]], [None] + list(RE) + ["none.react"]):
        kw = {k: x for k, x in dict(primary_types=pr, process_types=pt, reaction_name=rn).items() if x is not None}; what = "Marley: load_processes(%s)" % kw; vc.note(what); vc.state(what); vc.step(); bad = any(p not in (P("NuE"), P("NuEBar")) for p in pr or []) or pt == ["NC"]
        try: got, extra = m.load_processes(**kw)
        except ValueError: vc.expect(bad, "marley-refused", what + " is refused"); continue
        except (FileNotFoundError, KeyError): vc.expect(bad or rn == "none.react", "marley-refused", what + " is refused"); continue
        if not vc.expect(not bad and rn != "none.react", "marley-accepted", what + " is accepted"): continue
        want = [P("NuE")] if pr is None else pr; files = [rn] if rn else [f for f, k in (("ve40ArCC_Bhattacharya2009.react", "CC"), ("CEvNS40Ar.react", "CEvNS"), ("ES.react", "ES")) if pt is None or k in pt]
        if not vc.expect(sorted(got) == sorted(want if files else []), "marley-primaries", lambda: "%s: %s" % (what, sorted(got))): continue
        for p, xs in got.items():
            vc.expect(sorted(os.path.basename(x.a[0]) for x in xs) == sorted(files), "marley-reactions", lambda: "%s: %s has %s" % (what, p, [x.a[0] for x in xs]))
            for x in xs: vc.expect(all(os.path.exists(q) for q in (x.a[0], x.a[1], x.a[3], x.a[4])) and [os.path.basename(q) for q in (x.a[1], x.a[3], x.a[4])] == ["nuclide_index.txt", "mass_table.js", "gs_spin_parity_table.txt"] and sorted(os.path.basename(q) for q in x.a[2]) == ["Ar40.dat", "K40.dat"], "marley-files", lambda: "%s: %s" % (what, x.a))
        vc.trace()
    done(dst)
if __name__ == "__main__":
    cases = [("bnb", tabulated("BNB-v1.0", BNB_TAGS, bnb_tables, bnb_expected)), ("numi", tabulated("NUMI-v1.0", NUMI_TAGS, numi_tables, numi_expected)), ("he-sn", tabulated("HE_SN-v1.0", [None, "", "numu", "nue", "numubar", "NuMu", "numu_", "numu_numu"], sn_tables, sn_expected)),
             ("t2k", written("T2K_NEAR-v1.0", T2K_TAGS, t2k_tables, t2k_expected, list(itertools.permutations(FL)), False)), ("csms", splines("CSMSDISSplines-v1.0", "DISFromSpline", False)), ("marley", marley)]
    for v in ("1.0", "2.0"): cases += [("hnl-" + v, splines("HNLDISSplines-v" + v, "HNLDISFromSpline", False)), ("dipole-" + v, splines("DipoleHNLDISSplines-v" + v, "HNLDipoleDISFromSpline", True))]
    if np is not None:
        cases += [("atmospheric", written("Atmospheric-v1.0", ATM_TAGS, atm_tables, atm_expected, [tuple(FL)], True))]
        try: import scipy.interpolate; cases += [("kaons", written("T2K_Kaons-v1.0", KAON_TAGS, kaon_tables, kaon_expected, [tuple(FL)], False))]
        except ImportError: pass
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
