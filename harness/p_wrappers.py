"""P33: the Python injector and weighter against the compiled ones. The real python/Injector.py and python/Weighter.py drive
stand-ins with the interface of projects/injection/private/pybindings; all histories of operations up to a depth."""
import copy, itertools, os, pickle, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren
# ---- stand-ins (the interface of the bindings, and nothing else) -----------------------------------------------------------
class ParticleType(int): pass
class CrossSection:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
class Decay(CrossSection): pass
class DetectorModel(CrossSection): pass
class PDist(CrossSection): pass
class SDist(CrossSection): pass
class WDist(CrossSection): pass
class InteractionTree: pass
class Random:
    def __init__(self, seed=None): self.seed = 4711 if seed is None else seed
    def set_seed(self, s): self.seed = s
    def get_seed(self): return self.seed
class Collection:
    def __init__(self, t, xs):
        if not isinstance(t, ParticleType) or not isinstance(xs, list) or not all(isinstance(x, CrossSection) for x in xs): raise TypeError("incompatible constructor arguments")
        self.t = t; self.xs = list(xs)
    def GetCrossSections(self): return [x for x in self.xs if not isinstance(x, Decay)]
    def GetDecays(self): return [x for x in self.xs if isinstance(x, Decay)]
    def GetPrimaryType(self): return self.t
class Process:
    kind = object
    def __init__(self, t=None, c=None): self.__t = t; self.__c = c; self.__d = []
    def __st(self, t): self.__t = t; self.__c and setattr(self.__c, "t", t)
    def __sc(self, c):
        if not isinstance(c, Collection): raise TypeError("incompatible function arguments")
        self.__c = c; self.__t = c.t
    def __sd(self, d):
        if not isinstance(d, list) or not all(isinstance(x, self.kind) for x in d): raise TypeError("incompatible function arguments")
        self.__d = list(d)
    primary_type = property(lambda s: s.__t, __st); interactions = property(lambda s: s.__c, __sc); distributions = property(lambda s: list(s.__d), __sd)
    def show(self): return (self.__t, [x.n for x in self.__c.xs], [d.n for d in self.__d])
class PrimaryInjectionProcess(Process): kind = PDist
class SecondaryInjectionProcess(Process): kind = SDist
class PhysicalProcess(Process): kind = WDist
DISK = {}
class Injector_:
    """the bound Injector"""
    made = []
    def __new__(cls, *a): o = object.__new__(cls); cls.made.append(o); return o
    def __init__(self, n, d, *a):
        self.n = n; self.count = 0; self.stop = "default"
        if isinstance(d, str): self.random = a[0]; self.LoadInjector(d); return
        if not isinstance(n, int) or not isinstance(d, DetectorModel): raise TypeError("incompatible constructor arguments")
        self.d = d; self.random = a[-1]; self.secondaries = list(a[1]) if len(a) > 2 else []; self.SetPrimaryProcess(a[0])
    def SetPrimaryProcess(self, p): "SetPrimaryProcess"; self.primary = p; self.vertex = [x.n for x in p.distributions]
    def GetPrimaryProcess(self): return self.primary
    def GetSecondaryProcesses(self): return list(self.secondaries)
    def GetSecondaryProcessMap(self): return {s.primary_type: s for s in self.secondaries}
    def SetStoppingCondition(self, f): self.stop = f
    def GetStoppingCondition(self): return self.stop
    def NewRecord(self): "NewRecord"; return ("record", self.primary.primary_type)
    def SetRandom(self, r): self.random = r
    def GenerateEvent(self): "GenerateEvent"; self.random.seed; self.count += 1; return ("event", self.count, self.show())
    def DensityVariables(self): return ["x"]
    def Name(self): return "Injector"
    def AddSecondaryProcess(self, p): self.secondaries.append(p)
    def GetPrimaryInjectionDistributions(self): return self.primary.distributions
    def GetInteractions(self): return self.primary.interactions
    def GetDetectorModel(self): return self.d
    def SetDetectorModel(self, d): self.d = d
    def InjectedEvents(self): return self.count
    def InjectionAttempts(self): return self.count
    def EventsToInject(self): return self.n
    def ResetInjectedEvents(self): "ResetInjectedEvents"; self.count = 0
    def __getstate__(self): return (self.n, self.count, copy.deepcopy((self.d, self.primary, self.secondaries)))
    def __setstate__(self, s): self.n, self.count = s[:2]; self.d, self.primary, self.secondaries = copy.deepcopy(s[2]); self.vertex = [x.n for x in self.primary.distributions]; self.random = None; self.stop = "default"
    def SaveInjector(self, f): "SaveInjector"; DISK[f] = self.__getstate__()
    def LoadInjector(self, f):
        "LoadInjector"
        if f not in DISK: raise RuntimeError("no file " + f)
        r = getattr(self, "random", None); st = self.stop; self.__setstate__(DISK[f]); self.random = r; self.stop = st
    def show(self): return dict(n=self.n, d=self.d.n, p=self.primary.show(), s={t: v.show() for t, v in self.GetSecondaryProcessMap().items()}, vertex=list(self.vertex))
class Weighter_:
    """the bound Weighter"""
    def __init__(self, inj, d, *a):
        if not isinstance(inj, list) or not all(isinstance(i, Injector_) for i in inj): raise TypeError("incompatible constructor arguments")
        self.inj = list(inj)
        if isinstance(d, str):
            if d not in DISK: raise RuntimeError("no file")
            self.d, self.p, self.s, i = copy.deepcopy(DISK[d]); self.inj = self.inj or i; return
        if not isinstance(d, DetectorModel): raise TypeError("incompatible constructor arguments")
        self.d, self.p, self.s = d, a[0], list(a[1]) if len(a) > 1 else []
    def EventWeight(self, t): return ("weight", t, self.show())
    def GetInteractionProbabilities(self, t, i_inj=0): return ("ip", t, i_inj)
    def GetSurvivalProbabilities(self, t, i_inj=0): return ("sp", t, i_inj)
    def SaveWeighter(self, f): DISK[f] = copy.deepcopy((self.d, self.p, self.s, self.inj))
    def show(self): return dict(d=self.d.n, p=self.p.show(), s={v.primary_type: v.show() for v in self.s}, inj=len(self.inj))
siren.dataclasses.ParticleType = ParticleType; siren.dataclasses.InteractionTree = InteractionTree; siren.interactions.CrossSection = CrossSection; siren.interactions.Decay = Decay; siren.interactions.InteractionCollection = Collection
siren.detector.DetectorModel = DetectorModel; siren.utilities.SIREN_random = Random; siren.distributions.PrimaryInjectionDistribution = PDist; siren.distributions.SecondaryInjectionDistribution = SDist; siren.distributions.WeightableDistribution = WDist
I = siren.injection; I._Injector = Injector_; I._Weighter = Weighter_; I.PrimaryInjectionProcess = PrimaryInjectionProcess; I.SecondaryInjectionProcess = SecondaryInjectionProcess; I.PhysicalProcess = PhysicalProcess
INJ = pysiren.load("Injector"); WGT = pysiren.load("Weighter")
# ---- the injector ------------------------------------------------------------------------------------------------------------
T1, T2, T3 = ParticleType(14), ParticleType(13), ParticleType(15)
X = {n: CrossSection(n) for n in ("x1", "x2", "x3")}; Dk = {n: Decay(n) for n in ("d1", "d2")}
VAL = dict(seed=[7, 8], number_of_events=[3, 5], detector_model=[DetectorModel("D1"), DetectorModel("D2")], primary_type=[T1, T3], primary_interactions=[[X["x1"]], [X["x2"], Dk["d1"]]],
           primary_injection_distributions=[[PDist("p1")], [PDist("p2"), PDist("p3")]], secondary_interactions=[{}, {T2: [X["x3"]]}, {T2: [Dk["d2"]]}, {T2: [X["x1"]], T3: [X["x2"]]}],
           secondary_injection_distributions=[{}, {T2: [SDist("s1")]}, {T2: [SDist("s2"), SDist("s3")]}, {T2: [SDist("s1")], T3: [SDist("s4")]}], stopping_condition=[len, max])
NAMES = list(VAL)
def names(l): return [x.n for x in l]
class Model:
    def __init__(self): self.c = dict(seed=None, number_of_events=0, detector_model=None, primary_type=None, primary_interactions=[], primary_injection_distributions=[], secondary_interactions={}, secondary_injection_distributions={}, stopping_condition=None); self.live = False; self.count = 0; self.secret = False
    def ready(self):
        c = self.c; return bool(c["number_of_events"] and c["number_of_events"] > 0 and c["detector_model"] and c["primary_type"] is not None and c["primary_interactions"] and c["primary_injection_distributions"] and sorted(c["secondary_interactions"]) == sorted(c["secondary_injection_distributions"]))
    def show(self):
        c = self.c; return dict(n=c["number_of_events"], d=c["detector_model"].n, p=(c["primary_type"], names(c["primary_interactions"]), names(c["primary_injection_distributions"])), s={t: (t, names(c["secondary_interactions"][t]), names(c["secondary_injection_distributions"][t])) for t in c["secondary_interactions"]}, vertex=names(c["primary_injection_distributions"]))
    def key(self): return repr((self.c, self.live, self.count))
    def copy(self): m = Model(); m.c = dict(self.c); m.live = self.live; m.count = self.count; return m
OPS = [("set", n, i) for n in NAMES for i in range(len(VAL[n]))] + [("gen",), ("new",), ("reset",), ("pickle",), ("save", "f"), ("load", "f"), ("load", "other"), ("load", "missing"), ("dens",)]
STARTS = [{}, {n: 0 for n in NAMES if n not in ("seed", "stopping_condition")}, dict({n: 0 for n in NAMES}, secondary_interactions=1, secondary_injection_distributions=1), dict({n: 1 for n in NAMES}, secondary_interactions=3, secondary_injection_distributions=3), dict({n: 0 for n in NAMES}, secondary_interactions=1)]
def norm(m, n):
    v = m.c[n]
    return v
def value(x):
    if isinstance(x, (CrossSection,)): return x.n
    if isinstance(x, list): return [value(y) for y in x]
    if isinstance(x, dict): return {k: value(v) for k, v in x.items()}
    return x
def by_kind(l): return [value(x) for x in l if not isinstance(x, Decay)] + [value(x) for x in l if isinstance(x, Decay)]
def apply(inj, m, op):
    """runs the operation on both; returns the (possibly new) injector; None stops the history"""
    try:
        if op[0] == "set":
            v = VAL[op[1]][op[2]]
            refuse = m.live and (op[1] == "number_of_events" or (op[1] in ("secondary_interactions", "secondary_injection_distributions") and sorted(v) != sorted(m.c[op[1]])))
            try: setattr(inj, op[1], v)
            except ValueError: vc.expect(refuse, "set-refused", lambda: "%s = %s is refused" % (op[1], value(v))); return inj
            vc.expect(not refuse, "set-accepted", lambda: "%s = %s is accepted although the injector exists" % (op[1], value(v)))
            if refuse: return None
            m.c[op[1]] = v
            return inj
        if op[0] == "dens": vc.expect(inj.density_variables == (["x"] if m.live else None), "density-variables", "density variables %r" % (inj.density_variables,)); return inj
        if op[0] == "reset": inj.reset_injected_events(); m.count = 0; return inj
        if op[0] == "load":
            if op[1] not in DISK:
                try: inj.load(op[1]); vc.expect(False, "load-missing", "a missing file is loaded")
                except RuntimeError: pass
                return inj if m.live else None
            inj.load(op[1]); s = SAVED[op[1]]; keep = (m.c["seed"], m.c["stopping_condition"]); m.c = dict(s.c); m.c["seed"], m.c["stopping_condition"] = keep; m.count = s.count
            if not m.live: m.c["seed"] = inj.seed if m.c["seed"] is None else m.c["seed"]; m.live = True
            m.lists(); return inj
        ready = m.live or m.ready()
        try:
            if op[0] == "gen": r = inj.generate_event()
            elif op[0] == "new": r = inj.new_record()
            elif op[0] == "save": r = inj.save(op[1])
            else: r = pickle.loads(pickle.dumps(inj)) if 0 else copy.deepcopy(inj)
        except ValueError: vc.expect(not ready, "init-refused", "%s is refused although everything is given: %s" % (op[0], m.key())); return inj
        vc.expect(ready, "init-accepted", "%s although not everything is given: %s" % (op[0], m.key()))
        if not ready: return None
        if not m.live: m.live = True; m.c["seed"] = inj.seed if m.c["seed"] is None else m.c["seed"]
        if op[0] == "gen": m.count += 1; vc.expect(r[1] == m.count and r[2] == m.show(), "generated", lambda: "the event was generated with %r instead of %r" % (r[1:], (m.count, m.show())))
        elif op[0] == "new": vc.expect(r == ("record", m.c["primary_type"]), "record", lambda: "new record %r" % (r,))
        elif op[0] == "save": SAVED[op[1]] = m.copy()
        else: m.lists(); return r
        return inj
    except Exception as e:
        vc.expect(False, "failed-" + op[0] + ("-" + op[1] if op[0] == "set" else ""), lambda: "%s %s: %s: %s" % ("existing" if m.live else "new", op, type(e).__name__, e)); return None
def lists(self):
    """after loading, interactions are listed cross sections first"""
    self.c["primary_interactions"] = sorted(self.c["primary_interactions"], key=lambda x: isinstance(x, Decay)); self.c["secondary_interactions"] = {t: sorted(v, key=lambda x: isinstance(x, Decay)) for t, v in self.c["secondary_interactions"].items()}
Model.lists = lists
SAVED = {}
def agree(inj, m, what):
    for n in NAMES:
        try: got = getattr(inj, n)
        except Exception as e: got = e
        if n == "seed" and m.c[n] is None: continue
        if n == "stopping_condition" and (m.c[n] is None or m.loaded): continue
        vc.expect(value(got) == value(m.c[n]), "reported-" + n, lambda: "%s: %s is reported as %r instead of %r" % (what, n, value(got), value(m.c[n])))
    vc.expect(inj.injected_events == (m.count if m.live else 0), "reported-count", lambda: "%s: %r events instead of %r" % (what, inj.injected_events, m.count))
    raw = Injector_.made[-1] if Injector_.made else None
    if vc.expect((raw is not None) == m.live, "exists", lambda: "%s: the compiled injector exists: %s" % (what, raw is not None)) and m.live:
        got = raw.show(); want = m.show(); got["s"] = dict(got["s"]); vc.expect(got == want, "configuration", lambda: "%s: the compiled injector has %r instead of %r" % (what, got, want))
        vc.expect(raw.random is not None and raw.random.seed == m.c["seed"], "seed", lambda: "%s: the compiled injector draws from %r instead of seed %r" % (what, raw.random and raw.random.seed, m.c["seed"]))
        if m.c["stopping_condition"] is not None and not m.loaded: vc.expect(raw.stop is m.c["stopping_condition"], "stopping", lambda: "%s: the stopping condition does not reach the injector" % what)
def other():
    """a file written by another injector"""
    m = Model(); m.c.update({n: VAL[n][1] for n in NAMES}); DISK["other"] = OTHER[0] if OTHER else None
    if not OTHER:
        i = INJ.Injector(**m.c); i.generate_event(); i.generate_event(); i.save("other"); OTHER.append(DISK["other"])
    m.count = 2; m.live = True; SAVED["other"] = m
OTHER = []
def injector_histories(start, part, of, first):
    def f():
        depth = 4 if vc.thorough() else 3; k = 0
        for ops in itertools.product(OPS, repeat=depth):
            k += 1
            if k % of != part: continue
            DISK.clear(); SAVED.clear(); Injector_.made.clear(); other(); Injector_.made.clear(); m = Model(); m.loaded = m.pickled = False
            for n, i in STARTS[start].items(): m.c[n] = VAL[n][i]
            inj = INJ.Injector(**{n: VAL[n][i] for n, i in STARTS[start].items()})
            if first:
                inj = apply(inj, m, ("gen",))
                if inj is None: return
            hist = []
            for op in ops:
                hist.append(op); what = "start %d%s, %r" % (start, " with an event" if first else "", hist); vc.note(what); vc.step()
                inj = apply(inj, m, op)
                if inj is None: break
                if op[0] == "load" and m.live: m.loaded = True
                if op[0] == "pickle" and m.live: m.pickled = True
                vc.state((start, m.key())); agree(inj, m, what)
            vc.trace()
    return f
def incomplete():
    """every set of missing settings: every use is refused, and works once they are given"""
    REQ = ["number_of_events", "detector_model", "primary_type", "primary_interactions", "primary_injection_distributions"]
    for mask, bad, op in itertools.product(range(32), (None, 0, -1), [("gen",), ("new",), ("pickle",), ("save", "f")]):
        if mask & 1 == 0 and bad is not None: continue
        DISK.clear(); SAVED.clear(); Injector_.made.clear(); m = Model(); m.loaded = False; give = {n: VAL[n][0] for i, n in enumerate(REQ) if not mask >> i & 1}
        if bad is not None: give["number_of_events"] = bad
        m.c.update(give); what = "missing %s%s, %s" % ([n for i, n in enumerate(REQ) if mask >> i & 1], "" if bad is None else ", %d events" % bad, op[0]); vc.note(what); vc.state(what); inj = INJ.Injector(**give)
        for i in range(2):
            vc.step(); inj = apply(inj, m, op)
            if inj is None: break
            agree(inj, m, what)
            if i == 0 and not m.live:
                for n in REQ:
                    if n not in give or n == "number_of_events": setattr(inj, n, VAL[n][1]); m.c[n] = VAL[n][1]
        vc.trace()
# ---- the weighter --------------------------------------------------------------------------------------------------------------
WV = dict(injectors=None, detector_model=[DetectorModel("D1"), "bad"], primary_type=[T1, 5], primary_interactions=[[X["x1"]], [X["x2"], Dk["d1"]], ["bad"], (X["x1"],)], primary_physical_distributions=[[WDist("w1")], [PDist("no")], []],
          secondary_interactions=[{}, {T2: [X["x3"]]}, {13: [X["x3"]]}, {T2: X["x3"]}, {T2: ["bad"]}, {T2: [X["x3"]], T3: [X["x2"], Dk["d2"]]}, {T3: [X["x1"]], T2: [X["x2"]]}], secondary_physical_distributions=[{}, {T2: [WDist("w2")]}, {T3: [WDist("w3")]}, {T2: ["bad"]}, {T2: [WDist("w2")], T3: [WDist("w3"), WDist("w4")]}])
BAD = {("detector_model", 1), ("primary_type", 1), ("primary_interactions", 2), ("primary_interactions", 3), ("primary_physical_distributions", 1), ("secondary_interactions", 2), ("secondary_interactions", 3), ("secondary_interactions", 4), ("secondary_physical_distributions", 3), ("injectors", 2), ("injectors", 3), ("injectors", 4)}
def make_injectors():
    full = {n: VAL[n][0] for n in NAMES if n not in ("seed", "stopping_condition")}
    a = INJ.Injector(**full); a.generate_event(); raw = Injector_.made[-1]; b = INJ.Injector(**full)
    return [[a], [raw, a], [b], "bad", ["bad"]]
WOPS = [("set", n, i) for n in WV for i in range(5 if n == "injectors" else len(WV[n]))] + [("call",), ("weight",), ("int",), ("surv",), ("save", "g"), ("load", "g"), ("load", "missing")]
REQUIRED = ["injectors", "detector_model", "primary_type", "primary_interactions", "primary_physical_distributions"]
def weighter_histories(full, part, of):
    def f():
        inj = make_injectors(); k = 0
        for ops in itertools.product(WOPS, repeat=4 if vc.thorough() else 3):
            k += 1
            if k % of != part: continue
            DISK.clear(); c = dict(injectors=None, detector_model=None, primary_type=None, primary_interactions=[], primary_physical_distributions=[], secondary_interactions={}, secondary_physical_distributions={}); live = False; saved = None; loaded = None
            if full: c.update(injectors=inj[0], detector_model=WV["detector_model"][0], primary_type=T1, primary_interactions=WV["primary_interactions"][0], primary_physical_distributions=WV["primary_physical_distributions"][0])
            if full == 3: c.update(secondary_interactions=WV["secondary_interactions"][5], secondary_physical_distributions=WV["secondary_physical_distributions"][1])
            if full == 2: c.update(secondary_interactions=WV["secondary_interactions"][1], secondary_physical_distributions=WV["secondary_physical_distributions"][2])
            w = WGT.Weighter(**{a: b for a, b in c.items() if b is not None}); hist = []
            def show(): return loaded or dict(d=c["detector_model"].n, p=(c["primary_type"], names(c["primary_interactions"]), names(c["primary_physical_distributions"])), s={t: (t, names(v), names(c["secondary_physical_distributions"].get(t, []))) for t, v in c["secondary_interactions"].items()}, inj=len(c["injectors"]))
            for op in ops:
                hist.append(op); what = "start %d, %r" % (full, hist); vc.note(what); vc.step()
                try:
                    if op[0] == "set":
                        v = inj[op[2]] if op[1] == "injectors" else WV[op[1]][op[2]]; refuse = live or (op[1], op[2]) in BAD
                        try: setattr(w, op[1], v)
                        except (ValueError, TypeError): vc.expect(refuse, "weighter-set-refused", lambda: "%s: refused" % what); 
                        else:
                            vc.expect(not refuse, "weighter-set-accepted", lambda: "%s: accepted" % what)
                            if refuse: break
                            c[op[1]] = v
                    elif op[0] == "load":
                        if saved is None or op[1] not in DISK:
                            try: w.load(op[1]); vc.expect(False, "weighter-load", lambda: "%s: a missing file is loaded" % what); break
                            except RuntimeError: pass
                        else: w.load(op[1]); loaded = dict(saved, inj=len(c["injectors"]) if c["injectors"] else saved["inj"]); live = True
                    else:
                        ready = live or all(c[n] for n in REQUIRED)
                        try: r = w("t") if op[0] == "call" else w.event_weight("t") if op[0] == "weight" else w.interaction_probabilities("t", 2) if op[0] == "int" else w.survival_probabilities("t") if op[0] == "surv" else w.save(op[1])
                        except ValueError: vc.expect(not ready, "weighter-refused", lambda: "%s: refused although everything is given" % what)
                        else:
                            vc.expect(ready, "weighter-accepted", lambda: "%s: answered although not everything is given" % what)
                            if not ready: break
                            live = True
                            if op[0] in ("call", "weight"): vc.expect(r == ("weight", "t", show()), "weighter-configuration", lambda: "%s: weighed with %r instead of %r" % (what, r, show()))
                            elif op[0] == "int": vc.expect(r == ["ip", "t", 2], "weighter-answer", lambda: "%s: %r" % (what, r))
                            elif op[0] == "surv": vc.expect(r == ["sp", "t", 0], "weighter-answer", lambda: "%s: %r" % (what, r))
                            else: saved = show()
                    for n in c: vc.expect(getattr(w, n) is c[n] or getattr(w, n) == c[n] or loaded, "weighter-reported", lambda: "%s: %s is reported as %r" % (what, n, getattr(w, n)))
                except Exception as e: vc.expect(False, "weighter-failed-" + op[0], lambda: "%s: %s: %s" % (what, type(e).__name__, e)); break
                vc.state((full, repr(c), live, repr(loaded)))
            vc.trace()
    return f
if __name__ == "__main__":
    cases = [("injector-%d-%d-%d" % (s, p, g), injector_histories(s, p, 2, g)) for s in range(len(STARTS)) for p in range(2) for g in (0, 1) if not (g and s in (0, 4))] + [("weighter-%d-%d" % (s, p), weighter_histories(s, p, 2)) for s in range(4) for p in range(2)]
    cases.append(("incomplete", incomplete))
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
