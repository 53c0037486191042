"""P32: the weights that reach the files. The real python/_util.py decides which central values are written where; the compiled
modules are stand-ins that record what they are given. Every combination of trees, policies, weighters and outputs, and every
sequence of sets to be pooled, up to a bound."""
import copy, itertools, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren, ak, h5py
U = pysiren.load("_util")
class Error(Exception): pass
# ---- stand-ins -----------------------------------------------------------------------------------------------------------
class Header:
    """lists and maps are handed out as copies, as the bindings do"""
    def __init__(self, w, prov): self.__w = list(w); self.__p = dict(prov)
    weights = property(lambda s: list(s.__w), lambda s, v: setattr(s, "_Header__w", [float(x) for x in v]))
    provenance = property(lambda s: dict(s.__p), lambda s, v: setattr(s, "_Header__p", dict(v)))
class Sig:
    def __init__(self, p, t, s): self.primary_type, self.target_type, self.secondary_types = p, t, list(s)
class Rec:
    def __init__(self, k, ns): self.interaction_vertex = [k, k + .5, -k]; self.primary_momentum = [9 + k, 0, 3, k]; self.signature = Sig(14 + k, 1000 + k, [20 + i for i in range(ns)]); self.secondary_momenta = [[i, k, i, 1] for i in range(ns)]
class Datum:
    def __init__(self, k, parent, ns): self.record = Rec(k, ns); self.parent_index = parent
    def is_root(self): return self.parent_index is None
class Tree:
    def __init__(self, name, w=(), prov=None, data=((None, 1),)): self.name = name; self.header = Header(w, {} if prov is None else {"siren.weights_state": prov}); self.tree = [Datum(k, p, ns) for k, (p, ns) in enumerate(data)]
class Obj:                                          # the compiled Weighter: not callable
    def __init__(self, f): self.f = f; self.asked = []
    def EventWeight(self, t): self.asked.append(t.name); return self.f(t)
class Both(Obj):
    def __call__(self, t): return self.EventWeight(t)
class Options:
    made = []
    def __init__(self): self.weights_state = "unset"; self.gzip = False; self.attempted_events = self.accepted_events = self.events_to_inject = -1; Options.made.append(self)
LOG = []
H3 = siren.hepmc3; H3.HepMC3WriterOptions = Options
def snap(ts): return [(t.name, t.header.weights) for t in ts]
FAIL = [None]
def write_h3(ts, out, o):
    LOG.append(("hepmc3", out, snap(ts), o.weights_state, bool(o.gzip), (o.attempted_events, o.accepted_events, o.events_to_inject)))
    if FAIL[0]: raise FAIL[0]
H3.SaveInteractionTreesAsHepMC3 = write_h3
siren.dataclasses.SaveInteractionTrees = lambda ts, out: LOG.append(("native", out, snap(ts)))
ak.Array = lambda d: copy.deepcopy(d)
ak.to_parquet = lambda a, f: LOG.append(("parquet", f, a))
ak.to_packed = lambda a: a
class Form:
    def to_json(self): return "{}"
def to_buffers(a, container=None): LOG.append(("buffers", container.file.name, a)); return Form(), 0, container
ak.to_buffers = to_buffers
class Group:
    def __init__(self, f): self.file = f; self.attrs = {}
class File:
    def __init__(self, name, mode): self.name = name
    def create_group(self, n): return Group(self)
    def close(self): LOG.append(("closed", self.name))
h5py.File = File
class Vec:
    def __init__(self, v): self.v = list(v)
    def normalize(self): n = sum(x * x for x in self.v) ** .5; self.v = [x / n for x in self.v] if n else self.v
siren.math.Vector3D = Vec
class Fid:
    def IsInside(self, p, d): return p.v[0] > .5
# ---- the policy ------------------------------------------------------------------------------------------------------------
HEADS = [((), None), ((), "unweighted"), ((2.5,), None), ((2.5,), "unweighted"), ((1.0, 7.0), "Unweighted"), ((3.0, 7.0, 8.0), "header"), ((0.0,), "computed"), ((4.0,), "HEADER")]
def W(t): return 10.0 + int(t.name[1:]) * 1.5
def policies(n):
    yield "auto"; yield "none"; yield None; yield "header"; yield "bogus"; yield 5; yield ("seq", [0.5 + i for i in range(n)]); yield ("seq", [0.5] * (n + 1)); yield ("tup", [0.25 * (i + 1) for i in range(n)]); yield ("gen", [3 * i for i in range(n)]); yield ("obj",); yield ("fun",); yield ("both",)
    if n: yield ("seq", [0.5] * (n - 1))
def realise(p):
    if not isinstance(p, tuple): return p
    return {"seq": lambda: list(p[1]), "tup": lambda: tuple(p[1]), "gen": lambda: (x for x in p[1]), "obj": lambda: Obj(W), "fun": lambda: W, "both": lambda: Both(W)}[p[0]]()
def weighters(): return [("none", lambda: None), ("fun", lambda: (lambda t: W(t) + 100)), ("obj", lambda: Obj(lambda t: W(t) + 100)), ("both", lambda: Both(lambda t: W(t) + 100))]
def trusted(h): return len(h[0]) > 0 and (h[1] is None or h[1].lower() != "unweighted")
def expect_policy(heads, p, w):
    """(state, cv, headers after) or Error"""
    n = len(heads); keep = [list(h[0]) for h in heads]
    def put(cv): return [[float(c)] + k[1:] for c, k in zip(cv, keep)]
    if isinstance(p, tuple) and p[0] in ("seq", "tup", "gen"): return Error if len(p[1]) != n else ("header", [float(x) for x in p[1]], put(p[1]))
    if isinstance(p, tuple): cv = [W(Tree("t%d" % i)) for i in range(n)]; return "computed", cv, put(cv)
    if p in ("none", None): return "unweighted", None, keep
    hdr = [float(k[0]) if k else 1.0 for k in keep]
    if p == "header": return "header", hdr, keep
    if p != "auto": return Error
    if w != "none": cv = [W(Tree("t%d" % i)) + 100 for i in range(n)]; return "computed", cv, put(cv)
    return ("header", hdr, keep) if any(map(trusted, heads)) else ("unweighted", None, keep)
def policy(part, of):
    def f():
        k = 0
        for n in range(0, 4 if vc.thorough() else 3):
            for heads in itertools.product(HEADS, repeat=n):
                for p in policies(n):
                    for wn, wf in weighters():
                        k += 1
                        if k % of != part: continue
                        ts = [Tree("t%d" % i, *h) for i, h in enumerate(heads)]; what = "headers %r, policy %r, weighter %s" % (heads, p, wn); vc.note(what); vc.state(what); vc.step()
                        want = expect_policy(heads, p, wn)
                        try: cv, st = U.resolve_hepmc3_weight_policy(ts, realise(p), wf())
                        except ValueError: cv, st = None, Error
                        except Exception as e: cv, st = None, e
                        if want is Error:
                            vc.expect(st is Error, "policy-refused", lambda: "%s: state %r" % (what, st)); vc.expect([t.header.weights for t in ts] == [list(h[0]) for h in heads], "policy-untouched", lambda: "%s: headers changed" % what); continue
                        vc.expect(st == want[0], "policy-state", lambda: "%s: state %r instead of %r" % (what, st, want[0]))
                        vc.expect(cv == want[1], "policy-values", lambda: "%s: values %r instead of %r" % (what, cv, want[1]))
                        got = [t.header.weights for t in ts]; vc.expect(got == want[2], "policy-headers", lambda: "%s: headers %r instead of %r" % (what, got, want[2]))
                        vc.trace()
    return f
# ---- one save, many outputs ----------------------------------------------------------------------------------------------------
DATA = [((None, 1),), ((None, 0),), (), ((None, 2), (0, 0)), ((None, 1), (0, 3), (1, 1)), ((None, 2), (0, 1), (0, 2))]
class Inj:
    def InjectionAttempts(self): return 70
    def InjectedEvents(self): return 60
    def EventsToInject(self): return 65
def saving(part, of):
    def f():
        k = 0; hs = [HEADS[0], HEADS[3], HEADS[5]]
        pols = ["auto", "none", "header", ("seq",), ("obj",), ("fun",)]
        for n in range(0, 3):
            for data in itertools.product(DATA, repeat=n):
                for heads in (itertools.product(hs, repeat=n) if n < 2 or vc.thorough() else [tuple(hs[(i + len(data[0])) % 3] for i in range(n)), tuple(hs[2] for _ in range(n))]):
                    for p in pols:
                        for wn, wf in weighters():
                            for bits in range(16) if n < 2 or vc.thorough() else (0, 3, 7, 12, 15):
                                for extra in range(4):
                                    k += 1
                                    if k % of != part: continue
                                    one(n, data, heads, ("seq", [0.5 + i for i in range(n)]) if p == ("seq",) else p, wn, wf, bits, extra)
    return f
def one(n, data, heads, p, wn, wf, bits, extra):
    native, h3, hdf, parq = [bool(bits >> i & 1) for i in range(4)]; gz = extra & 1; inj = Inj() if extra & 2 else None; times = [i * .5 for i in range(n)] if extra & 2 else None; fid = Fid() if extra & 1 else None
    ts = [Tree("t%d" % i, h[0], h[1], d) for i, (h, d) in enumerate(zip(heads, data))]
    what = "interactions %r, headers %r, policy %r, weighter %s, outputs %s" % (data, heads, p, wn, [x for x, b in (("native", native), ("hepmc3", h3), ("hdf5", hdf), ("parquet", parq), ("gzip", gz)) if b])
    vc.note(what); vc.state(what); vc.step(); LOG.clear(); out = "/nowhere/x"
    try: U.SaveEvents(ts, weighter=wf(), gen_times=times, save_hdf5=hdf, save_parquet=parq, save_siren_events=native, save_hepmc3=h3, hepmc3_weights=realise(p), hepmc3_gzip=bool(gz), fid_vol=fid, injector=inj, output_filename=out)
    except Exception as e: vc.expect(False, "save-refused", lambda: "%s: %s: %s" % (what, type(e).__name__, e)); return
    st, cv, hd = expect_policy(heads, p, wn) if native or h3 else ("unweighted", None, [list(h[0]) for h in heads])
    got = {}
    for l in LOG: vc.expect(l[0] not in got, "save-twice", lambda: "%s: %s written twice" % (what, l[0])); got[l[0]] = l
    vc.expect(set(got) == {x for x, b in (("native", native), ("hepmc3", h3), ("buffers", hdf), ("closed", hdf), ("parquet", parq)) if b}, "save-outputs", lambda: "%s: wrote %r" % (what, sorted(got)))
    wanth = [("t%d" % i, h) for i, h in enumerate(hd)]
    if "native" in got: vc.expect(got["native"][1:] == (out, wanth), "save-native", lambda: "%s: native file %r instead of %r" % (what, got["native"][1:], wanth))
    if "hepmc3" in got:
        w = (out + ".hepmc3" + (".gz" if gz else ""), wanth, st, bool(gz), (70, 60, 65) if inj else (-1, -1, -1)); vc.expect(got["hepmc3"][1:] == w, "save-hepmc3", lambda: "%s: HepMC3 file %r instead of %r" % (what, got["hepmc3"][1:], w))
    tabs = [got[x][2] for x in ("buffers", "parquet") if x in got]
    if "buffers" in got: vc.expect(got["buffers"][1] == out + ".hdf5", "save-name", lambda: what + ": " + got["buffers"][1])
    if "parquet" in got: vc.expect(got["parquet"][1] == out + ".parquet", "save-name", lambda: what + ": " + got["parquet"][1])
    tw = cv if cv is not None else [0] * n if wn == "none" else [W(t) + 100 for t in ts]
    for d in tabs:
        vc.expect(list(d["event_weight"]) == tw, "save-weights", lambda: "%s: weights in the table %r instead of %r" % (what, d["event_weight"], tw))
        vc.expect(list(d["event_gen_time"]) == (times or [0.0] * n), "save-times", lambda: "%s: times %r" % (what, d["event_gen_time"]))
        vc.expect(list(d["num_interactions"]) == [len(x) for x in data], "save-interactions", lambda: "%s: numbers of interactions %r" % (what, d["num_interactions"]))
        vc.expect(all(len(v) == n for v in d.values()), "save-shape", lambda: "%s: columns of different lengths %r" % (what, {k: len(v) for k, v in d.items()}))
        for i, x in enumerate(data):
            w = dict(num_secondaries=[s for _, s in x], parent_idx=[-1 if p is None else p for p, _ in x], primary_type=[14 + k for k in range(len(x))], target_type=[1000 + k for k in range(len(x))],
                     secondary_types=[[20 + j for j in range(s)] for _, s in x], vertex=[[k, k + .5, -k] for k in range(len(x))], primary_momentum=[[9 + k, 0, 3, k] for k in range(len(x))], secondary_momenta=[[[j, k, j, 1] for j in range(s)] for k, (_, s) in enumerate(x)], in_fiducial=[bool(fid) and k > .5 for k in range(len(x))])
            for c, v in w.items(): vc.expect(list(d[c][i]) == v, "save-column", lambda: "%s: %s of event %d is %r instead of %r" % (what, c, i, d[c][i], v))
    vc.trace()
# ---- conversion of a native file -------------------------------------------------------------------------------------------------
def converting():
    for n in range(0, 3):
        for heads in itertools.product(HEADS, repeat=n):
            for wn, wf in weighters():
                for inp in ("/nowhere/x", "/nowhere/x.siren_events", "/nowhere/x.siren_events.siren_events"):
                    for out in (None, "/nowhere/y.hepmc3", "/nowhere/z.gz"):
                        for opt in (None, False, True):
                            for fail in (None, RuntimeError("disk")):
                                asked = []; siren.dataclasses.LoadInteractionTrees = lambda b: (asked.append(b), [Tree("t%d" % i, *h) for i, h in enumerate(heads)])[1]
                                o = None
                                if opt is not None: o = Options(); o.weights_state = "mine"; o.gzip = opt; o.attempted_events = 5
                                what = "headers %r, weighter %s, %s -> %s, gzip %s%s" % (heads, wn, inp, out, opt, ", failing" if fail else ""); vc.note(what); vc.state(what); vc.step(); LOG.clear(); FAIL[0] = fail
                                try: r = U.convert_siren_events_to_hepmc3(inp, out, weighter=wf(), options=o)
                                except RuntimeError as e: r = e
                                finally: FAIL[0] = None
                                base = inp[:-13] if inp.endswith(".siren_events") else inp; name = out or base + ".hepmc3"; name += ".gz" if opt and not name.endswith(".gz") else ""
                                if wn == "none": st = "header" if any(map(trusted, heads)) else "unweighted"; hd = [list(h[0]) for h in heads]
                                else: st = "computed"; hd = [[W(Tree("t%d" % i)) + 100] + list(h[0])[1:] for i, h in enumerate(heads)]
                                vc.expect(asked == [base], "convert-input", lambda: "%s: read %r" % (what, asked))
                                w = ("hepmc3", name, [("t%d" % i, h) for i, h in enumerate(hd)], st, bool(opt), (5 if o else -1, -1, -1)); vc.expect(LOG == [w], "convert-output", lambda: "%s: wrote %r instead of %r" % (what, LOG, w))
                                vc.expect(isinstance(r, RuntimeError) if fail else r == name, "convert-result", lambda: "%s: returned %r" % (what, r))
                                if o: vc.expect((o.weights_state, o.gzip, o.attempted_events) == ("mine", opt, 5), "convert-options", lambda: "%s: the caller's options are now %r" % (what, o.weights_state))
                                vc.trace()
# ---- pooling -----------------------------------------------------------------------------------------------------------------------
POOL = os.path.join(BASE, "pool")
class Inter:
    def __init__(self, sigs): self.s = sigs
    def GetPossibleSignatures(self): return self.s
class Coll:
    def __init__(self, p, sigs, dec=()): self.p = p; self.x = [Inter(sigs)]; self.d = [Inter(list(dec))] if dec else []
    def GetCrossSections(self): return self.x
    def GetDecays(self): return self.d
    def GetPrimaryType(self): return self.p
class Proc:
    def __init__(self, c): self.interactions = c
PHYS = {"A": (Proc(Coll(14, [Sig(14, 1, [13, 2])])), []), "B": (Proc(Coll(14, [Sig(14, 1, [13, 3])])), []), "C": (Proc(Coll(14, [Sig(14, 1, [13, 2])])), [Proc(Coll(13, [Sig(13, 1, [5])]))]), "?": (None, [])}
class Injector_:
    def __init__(self, name, rate): self.name, self.rate = name, rate
    def GetPrimaryProcess(self): raise RuntimeError("no")
# weighter file stem -> (injectors with rates, physics); events file stem -> names
WFILES = {"a": ([("i1", 1.0)], "A"), "b": ([("i2", 2.0), ("i3", 4.0)], "A"), "c": ([("i4", 8.0)], "B"), "e": ([("i5", 16.0)], "C"), "u": ([("i6", 32.0)], "?")}
EFILES = {"a": ["a0", "a1"], "b": ["b0"], "c": ["c0"], "a2": ["a2"], "e": ["e0"], "u": ["u0", "u1"]}
class FWeighter:
    log = []
    def __init__(self, injectors, stem):
        key = os.path.basename(os.path.realpath(stem + ".siren_weighter"))[:-len(".siren_weighter")]; self.phys = PHYS[WFILES[key][1]]
        self.inj = list(injectors) or [Injector_(*x) for x in WFILES[key][0]]; FWeighter.log.append((tuple(sorted(i.name for i in self.inj)), key, bool(injectors)))
    def GetInjectors(self): return list(self.inj)
    def GetPrimaryPhysicalProcess(self): return self.phys[0]
    def GetSecondaryPhysicalProcesses(self): return list(self.phys[1])
    def EventWeight(self, t): return 1000.0 * (ord(t.name[0]) - 90 + int(t.name[1:])) / sum(i.rate for i in self.inj)
def ladder(b):
    key = os.path.basename(os.path.realpath(b + ".siren_events"))[:-len(".siren_events")]; return [Tree(n, (5.0, 6.0)) for n in EFILES[key]]
def setup_pool():
    os.makedirs(POOL + "/sub", exist_ok=True)
    for n in WFILES: open("%s/%s.siren_weighter" % (POOL, n), "w").close()
    for n in EFILES: open("%s/%s.siren_events" % (POOL, n), "w").close()
    for n, t in (("la.siren_weighter", "a.siren_weighter"), ("la.siren_events", "a.siren_events")): os.symlink(t, os.path.join(POOL, n))
    open(POOL + "/lonely.siren_events", "w").close(); open(POOL + "/noevents.siren_weighter", "w").close(); EFILES["lonely"] = []
P = POOL + "/"
def entries():
    # (entry, events key, weighter key, counts, state) ; None keys: refused
    full = dict(attempted=10, accepted=8, events_to_inject=9)
    return [(P + "a", "a", "a", {}, None), (P + "a.siren_events", None, None, {}, None) if False else (dict(events=P + "a.siren_events", weighter=P + "a.siren_weighter", **full), "a", "a", full, None),
            ((P + "b", P + "b"), "b", "b", {}, None), (dict(events_path=P + "b.siren_events", weighter_path=P + "b", attempted=100, accepted=None), "b", "b", dict(attempted=100), None),
            (dict(events=P + "a2", weighter=P + "a.siren_weighter", **full), "a2", "a", full, None), (P + "sub/../b", "b", "b", {}, None), ([P + "la", P + "la.siren_weighter"], "a", "a", {}, None), ((P + "a2", P + "la"), "a2", "a", {}, None),
            (P + "c", "c", "c", {}, None), (P + "e", "e", "e", {}, None), (P + "u", "u", "u", {}, None), (dict(events=P + "b.siren_events", **full), "b", "b", full, None),
            (dict(events=P + "b", weights_state="Unweighted"), Error, None, {}, None), (dict(events=P + "b", weights_state="computed", **full), "b", "b", full, None), (P + "lonely", Error, None, {}, None), (P + "noevents", Error, None, {}, None), (dict(weighter=P + "a"), Error, None, {}, None), ((P + "a",), Error, None, {}, None), (7, Error, None, {}, None)]
def pooling(part, of):
    def f():
        if not os.path.isdir(POOL): setup_pool()
        siren.injection._Weighter = FWeighter; siren.dataclasses.LoadInteractionTrees = ladder
        E = entries(); k = 0
        for n in range(0, 4):
            for sel in itertools.product(range(len(E)), repeat=n):
                for opt in ((None, True) if n == 3 and not vc.thorough() else (None, False, True)):
                    for fail in (None, OSError("disk full")):
                        k += 1
                        if k % of != part: continue
                        pool_one([E[i] for i in sel], opt, fail)
    return f
def pool_one(es, opt, fail):
    what = "sets %r, options %s%s" % ([e[0] for e in es], opt, ", failing" if fail else ""); vc.note(what); vc.state(what); vc.step(); LOG.clear(); FWeighter.log = []; FAIL[0] = fail
    o = None
    if opt is not None: o = Options(); o.weights_state = "mine"; o.gzip = opt; o.attempted_events, o.accepted_events, o.events_to_inject = 1, 2, 3
    try: r = U.combine_and_export_hepmc3([e[0] for e in es], POOL + "/out", o)
    except ValueError as e: r = Error
    except Exception as e: r = e
    finally: FAIL[0] = None
    bad = not es or any(e[1] is Error for e in es)
    used, seen, ph = [], set(), None
    for e in es:
        if bad or e[1] in seen: continue
        seen.add(e[1]); used.append(e); p = WFILES[e[2]][1]
        if p != "?":
            if ph is None: ph = p
            elif ph != p: bad = True
    if o: vc.expect((o.weights_state, o.gzip, o.attempted_events, o.accepted_events, o.events_to_inject) == ("mine", opt, 1, 2, 3), "pool-options", lambda: "%s: the caller's options were changed" % what)
    if bad: vc.expect(r is Error and not LOG, "pool-refused", lambda: "%s: not refused (%r), wrote %d files" % (what, r, len(LOG))); return
    inj = {i: x for e in used for i, x in WFILES[e[2]][0]}; tot = sum(inj.values())
    cv = [(n, 1000.0 * (ord(n[0]) - 90 + int(n[1:])) / tot) for e in used for n in EFILES[e[1]]]
    counts = []
    for f, d in (("attempted", 1), ("accepted", 2), ("events_to_inject", 3)): counts.append(sum(e[3][f] for e in used) if all(f in e[3] for e in used) else d if o else -1)
    w = ("hepmc3", POOL + "/out.hepmc3" + (".gz" if opt else ""), [(n, [x, 6.0]) for n, x in cv], "computed", bool(opt), tuple(counts))
    def close(a, b): return len(a) == len(b) and all(x[0] == y[0] and len(x[1]) == len(y[1]) and all(abs(p - q) <= 1e-9 * abs(q) for p, q in zip(x[1], y[1])) for x, y in zip(a, b))
    ok = len(LOG) == 1 and LOG[0][1] == w[1] and LOG[0][3:] == w[3:] and close(LOG[0][2], w[2])
    vc.expect(ok, "pool-output", lambda: "%s: wrote %r instead of %r" % (what, LOG, w))
    if fail: vc.expect(isinstance(r, OSError), "pool-result", lambda: "%s: %r" % (what, r))
    else: vc.expect(isinstance(r, tuple) and r[0] == w[1] and len(r[1]) == len(cv) and all(abs(a - b[1]) <= 1e-9 * abs(b[1]) for a, b in zip(r[1], cv)), "pool-result", lambda: "%s: returned %r" % (what, r))
    vc.trace()
# ---- the controller: histories of generating, loading and saving ---------------------------------------------------------------------
siren.darknews_version = lambda: None
CTRL = pysiren.load("SIREN_Controller")
class GenInj(Inj):
    def __init__(self, limit): self.n = self.att = 0; self.limit = limit; self.saved = []
    def GenerateEvent(self):
        self.att += 1; self.n += 1; return Tree("t%d" % (100 + self.att), (), None, DATA[self.att % len(DATA)])
    def InjectedEvents(self): return self.n
    def InjectionAttempts(self): return self.att
    def EventsToInject(self): return self.limit
    def SaveInjector(self, f): LOG.append(("injector", f))
class SaveW(Obj):
    def SaveWeighter(self, f): LOG.append(("weighter", f))
    def GetInteractionProbabilities(self, t): return [.5] * len(t.tree)
    def GetSurvivalProbabilities(self, t): return [.25] * len(t.tree)
for c, name in ((Rec, "x"),):
    Rec.interaction_time = property(lambda s: s.interaction_vertex[0] * 2.0); Rec.primary_initial_position = property(lambda s: [v - 1 for v in s.interaction_vertex]); Rec.primary_initial_time = property(lambda s: s.interaction_vertex[0] - 3.0)
    Rec.secondary_times = property(lambda s: [s.interaction_vertex[0] * 2.0 + i for i in range(len(s.secondary_momenta))] if s.signature.primary_type % 2 == 0 else []); Rec.interaction_parameters = property(lambda s: {"energy": s.primary_momentum[0]})
Datum.daughter_indices = property(lambda s: [0] * len(s.record.secondary_momenta))
OPS = [("gen", None), ("gen", 1), ("gen", 0), ("load", 2), ("load", 0), ("h3", 1), ("save", "auto"), ("save", "header"), ("save", "none")]
def controller(part, of):
    def f():
        k = 0
        for depth in range(0, 5 if vc.thorough() else 4):
            for ops in itertools.product(OPS, repeat=depth):
                for wt in (0, 1):
                    for limit in (1, 3):
                        for last in (("auto", 15), ("none", 15), ("auto", 12), ("header", 2)):
                            k += 1
                            if k % of != part: continue
                            history(list(ops), wt, limit, last)
    return f
def history(ops, wt, limit, last):
    what = "history %r, weighter %s, %d events, then saved with %r" % (ops, wt, limit, last); vc.note(what); vc.state(what); LOG.clear()
    c = object.__new__(CTRL.SIREN_Controller); c.events = []; c.events_to_inject = limit; c.global_start = 0.0; c.fid_vol = Fid() if limit == 3 else None; c.injector = GenInj(limit)
    if wt: c.weighter = SaveW(lambda t: W(t) + 100)
    siren.dataclasses.LoadInteractionTrees = lambda f: [Tree("t%d" % i, (2.0,), None, DATA[(i + 1) % len(DATA)]) for i in range(n)]; H3.LoadInteractionTreesFromHepMC3 = lambda f, s: [Tree("t%d" % (50 + i), (1.0,), "unweighted", DATA[i]) for i in range(n)]
    events, done = [], 0                                    # the model: [name, header, provenance, data, weight kept in the header]
    for op, n in ops + [("save",) + last[:1]]:
        vc.step()
        final = op == "save" and (op, n) == ("save", last[0]) and ops is not None
        try:
            if op == "gen":
                c.GenerateEvents(N=n, verbose=False)
                m = max(0, min(limit if n is None else n, limit - done))
                for _ in range(m): done += 1; events.append(["t%d" % (100 + done), [], None, DATA[done % len(DATA)]])
            elif op == "load": c.LoadEvents("f"); events = [["t%d" % i, [2.0], None, DATA[(i + 1) % len(DATA)]] for i in range(n)]
            elif op == "h3": c.LoadEventsFromHepMC3("f"); events = [["t%d" % (50 + i), [1.0], "unweighted", DATA[i]] for i in range(n)]
            else:
                bits = last[1] if n == last[0] else 15
                LOG.clear(); save_controller(c, what, events, n, bits, wt, done, limit)
        except Exception as e: vc.expect(False, "controller-failed", lambda: "%s: %s %r: %s: %s" % (what, op, n, type(e).__name__, e)); return
        vc.expect([t.name for t in c.events] == [e[0] for e in events], "controller-events", lambda: "%s: after %s %r the events are %r instead of %r" % (what, op, n, [t.name for t in c.events], [e[0] for e in events]))
    vc.trace()
def save_controller(c, what, events, p, bits, wt, done, limit):
    native, h3, hdf, parq = [bool(bits >> i & 1) for i in range(4)]
    c.SaveEvents("/nowhere/x", hdf5=hdf, parquet=parq, siren_events=native, hepmc3=h3, hepmc3_weights=p, verbose=False, save_int_probs=bool(wt), save_survival_probs=bool(wt), save_int_params=limit == 3)
    cv, st = None, "unweighted"
    if native or h3:
        hdr = [e[1][0] if e[1] else 1.0 for e in events]
        if p == "auto" and wt: st = "computed"; cv = [10.0 + int(e[0][1:]) * 1.5 + 100 for e in events]
        elif p == "header" or (p == "auto" and any(trusted((e[1], e[2])) for e in events)): st, cv = "header", hdr
        if st == "computed":
            for e, w in zip(events, cv): e[1] = [w] + e[1][1:]
    got = {l[0]: l for l in LOG}; heads = [(e[0], list(e[1])) for e in events]
    vc.expect(len(got) == len(LOG) and set(got) == {x for x, b in (("native", native), ("hepmc3", h3), ("buffers", hdf), ("closed", hdf), ("parquet", parq), ("injector", 1), ("weighter", wt)) if b}, "controller-outputs", lambda: "%s: wrote %r" % (what, [l[0] for l in LOG]))
    vc.expect(got.get("injector", (0, 0))[1] == "/nowhere/x.siren_injector" and (not wt or got["weighter"][1] == "/nowhere/x"), "controller-outputs", lambda: "%s: names %r" % (what, LOG))
    if "native" in got: vc.expect(got["native"][2] == heads, "controller-native", lambda: "%s: native file %r instead of %r" % (what, got["native"][2], heads))
    if "hepmc3" in got: w = ("/nowhere/x.hepmc3", heads, st, False, (done, done, limit)); vc.expect(got["hepmc3"][1:] == w, "controller-hepmc3", lambda: "%s: HepMC3 file %r instead of %r" % (what, got["hepmc3"][1:], w))
    tw = cv if cv is not None else [10.0 + int(e[0][1:]) * 1.5 + 100 if wt else 0 for e in events]
    for d in [got[x][2] for x in ("buffers", "parquet") if x in got]:
        vc.expect(list(d["event_weight"]) == tw, "controller-weights", lambda: "%s: weights %r instead of %r" % (what, d["event_weight"], tw))
        vc.expect(list(d["num_interactions"]) == [len(e[3]) for e in events], "controller-interactions", lambda: "%s: numbers of interactions %r instead of %r" % (what, d["num_interactions"], [len(e[3]) for e in events]))
        vc.expect(all(len(v) == len(events) for k, v in d.items()), "controller-shape", lambda: "%s: columns %r" % (what, {k: len(v) for k, v in d.items()}))
        for i, e in enumerate(events):
            x = e[3]; r = range(len(x)); tm = [[2.0 * k + j if k % 2 == 0 else 2.0 * k for j in range(s)] for k, (_, s) in enumerate(x)]
            w = dict(num_secondaries=[s for _, s in x], parent_idx=[-1 if q is None else q for q, _ in x], primary_type=[14 + k for k in r], target_type=[1000 + k for k in r], secondary_types=[[20 + j for j in range(s)] for _, s in x], vertex=[[k, k + .5, -k] for k in r], vertex_time=[2.0 * k for k in r],
                     primary_initial_position=[[k - 1, k - .5, -k - 1] for k in r], primary_initial_time=[k - 3.0 for k in r], primary_momentum=[[9 + k, 0, 3, k] for k in r], secondary_momenta=[[[j, k, j, 1] for j in range(s)] for k, (_, s) in enumerate(x)], secondary_times=tm, num_daughters=[s for _, s in x], in_fiducial=[limit == 3 and k > .5 for k in r])
            if wt: w.update(int_probs=[.5 for _ in r], survival_probs=[.25 for _ in r])
            for col, v in w.items(): vc.expect(list(d[col][i]) == v, "controller-column", lambda: "%s: %s of event %d is %r instead of %r" % (what, col, i, d[col][i], v))
# ---- the helper that generates --------------------------------------------------------------------------------------------------------
def generating():
    class I:
        def __init__(self, n): self.number_of_events = n; self.injected_events = 0
        def generate_event(self): self.injected_events += 1; return self.injected_events
    for total in range(0, 5):
        for calls in itertools.product([None, 0, 1, 2, 3, 7], repeat=3):
            i = I(total); done = 0; vc.state((total, calls))
            for n in calls:
                vc.step(); m = min(total if n is None else n, total - done); ev, tm = U.GenerateEvents(i, n)
                vc.expect(ev == list(range(done + 1, done + m + 1)) and len(tm) == m, "generate", lambda: "%d events, calls %r: %r" % (total, calls, ev)); done += m
            vc.trace()
if __name__ == "__main__":
    cases = [("policy-%d" % p, policy(p, 3)) for p in range(3)] + [("saving-%d" % p, saving(p, 8)) for p in range(8)] + [("converting", converting), ("generating", generating)] + [("controller-%d" % p, controller(p, 6)) for p in range(6)] + [("pooling-%d" % p, pooling(p, 6)) for p in range(6)]
    setup_pool()
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
