"""P34: the Earth around a site. The real python/earth package (and the SBN Earth model that uses it) fills stand-ins for the
detector model; what matter a point then lies in is compared with the layers that were asked for."""
import copy, importlib, itertools, math, os, shutil, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcpy as vc, pysiren
from pysiren import BASE, siren
# ---- stand-ins (the bound interface) -------------------------------------------------------------------------------------------
class V:
    def __init__(self, x=0.0, y=0.0, z=0.0): self.v = (float(x), float(y), float(z))
    def __mul__(self, k): return V(*(a * k for a in self.v)) if not isinstance(k, V) else sum(a * b for a, b in zip(self.v, k.v))
    __rmul__ = __mul__
    def __add__(self, o): return V(*(a + b for a, b in zip(self.v, o.v)))
    def __sub__(self, o): return V(*(a - b for a, b in zip(self.v, o.v)))
    def __neg__(self): return V(*(-a for a in self.v))
    def GetX(self): return self.v[0]
    def GetY(self): return self.v[1]
    def GetZ(self): return self.v[2]
def dist(p, q): return math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))
class Q:
    def __init__(self, to): self.to = to
    @staticmethod
    def rotation_between(a, b): assert a.v == (0.0, 0.0, 1.0); return Q(b.v)
class Placement:
    def __init__(self, p=None, q=None): self.p = (p or V()).v; self.axis = q.to if q else (0.0, 0.0, 1.0)
class Sphere:
    def __init__(self, pl, outer, inner, phi0=0.0, dphi=2 * math.pi, th0=0.0, dth=math.pi): self.pl, self.outer, self.inner, self.th = pl, outer, inner, (th0, dth); assert dphi == 2 * math.pi
    def inside(self, x):
        r = dist(x, self.pl.p)
        if not (self.inner <= r <= self.outer): return False
        c = sum((a - b) * u for a, b, u in zip(x, self.pl.p, self.pl.axis)) / r if r else 1.0
        return self.th[0] <= math.acos(max(-1.0, min(1.0, c))) <= self.th[0] + self.th[1]
class Everywhere:
    def inside(self, x): return True
class Slab:
    """a stand-in for a volume of the detector: all points within w of height h along the up axis"""
    def __init__(self, up, h, w): self.up, self.h, self.w = up, h, w
    def inside(self, x): return abs(sum(a * b for a, b in zip(x, self.up)) - self.h) <= self.w
class Const:
    def __init__(self, c): self.c = c; assert isinstance(c, float)
    def at(self, x): return self.c
class Poly:
    def __init__(self, p): self.p = list(p)
    def f(self, r): return sum(c * r ** k for k, c in enumerate(self.p))
class Expo:
    def __init__(self, sigma, amplitude=1.0, x0=0.0): self.s, self.a, self.x0 = sigma, amplitude, x0
    def f(self, r): return self.a * math.exp(self.s * (r - self.x0))
class Axis:
    def __init__(self, c): self.c = c.v
class RadialPoly:
    def __init__(self, ax, d): self.ax, self.d = ax, d; assert isinstance(d, Poly)
    def at(self, x): return self.d.f(dist(x, self.ax.c))
class RadialExpo(RadialPoly):
    def __init__(self, ax, d): self.ax, self.d = ax, d; assert isinstance(d, Expo)
class Sector:
    def __init__(self): self.name = ""; self.material_id = 0; self.level = 0; self.geo = None; self.density = None
    def key(self): return (self.name, self.material_id, self.level, id(self.geo), id(self.density))
MAT = ["VACUUM", "INNERCORE", "OUTERCORE", "MANTLE", "ROCK", "AIR", "ICE"]
class Materials:
    def GetMaterialId(self, n):
        if n not in MAT: raise IndexError("no material " + n)
        return MAT.index(n)
class Model:
    """alias: whether the list elements refer to the model's own sectors (as the bindings may do) or are copies"""
    def __init__(self, alias): self.alias = alias; self.s = []
    def GetMaterials(self): return Materials()
    def __get(self): return list(self.s) if self.alias else [copy.copy(x) for x in self.s]
    def __set(self, v): self.s = [copy.copy(x) for x in v]
    Sectors = property(__get, __set)
    def GetSectors(self): return self.Sectors
    def SetSectors(self, v): self.Sectors = v
    def AddSector(self, x): self.s.append(copy.copy(x))
    def ClearSectors(self): self.s = []
    def order(self): return [x.name for x in sorted(self.s, key=lambda x: x.level)]
    def at(self, x):
        hit = [s for s in self.s if s.geo.inside(x)]; m = max(s.level for s in hit); top = [s for s in hit if s.level == m]
        return top
siren.math.Vector3D = V; siren.math.Quaternion = Q; siren.geometry.Sphere = Sphere; siren.geometry.Placement = Placement
D = siren.detector; D.DetectorSector = Sector; D.RadialAxis1D = Axis; D.PolynomialDistribution1D = Poly; D.RadialAxisPolynomialDensityDistribution = RadialPoly; D.ConstantDensityDistribution = Const; D.ExponentialDistribution1D = Expo; D.RadialAxisExponentialDensityDistribution = RadialExpo
shutil.copytree(os.path.join(pysiren.SRC, "earth"), os.path.join(pysiren.PKG, "earth"))
E = importlib.import_module("siren.earth")
INT_MIN = -2 ** 31
def close(a, b, t=1e-9): return a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= t * max(abs(a), abs(b), 1e-300)
# ---- the canonical table -----------------------------------------------------------------------------------------------------------
# Dziewonski & Anderson 1981, table I; densities in g/cm^3 as polynomials of r / 6371 km
REF = [(1221500.0, "INNERCORE", [13.0885, 0, -8.8381]), (3480000.0, "OUTERCORE", [12.5815, -1.2638, -3.6426, -5.5281]), (5701000.0, "MANTLE", [7.9565, -6.4761, 5.5283, -3.0807]), (5771000.0, "MANTLE", [5.3197, -1.4836]), (5971000.0, "MANTLE", [11.2494, -8.0298]), (6151000.0, "MANTLE", [7.1089, -3.8045]), (6346600.0, "MANTLE", [2.6910, 0.6924]), (6356000.0, "ROCK", [2.9]), (6371000.0, "ROCK", [2.6])]
def table():
    vc.expect(E.R_PREM == 6371000.0, "radius", "R_PREM is %r" % E.R_PREM)
    for what, layers in (("CANONICAL_PREM_LAYERS", [(n, r, m, k, p) for n, r, m, k, p in E.CANONICAL_PREM_LAYERS]), ("canonical_prem()", [(l.name, l.outer_radius_m, l.material, l.density.kind, l.density.params) for l in E.canonical_prem()])):
        if not vc.expect(len(layers) == len(REF), "table", "%s has %d layers" % (what, len(layers))): continue
        vc.expect(len({l[0] for l in layers}) == len(layers), "table-names", "%s: layers share a name" % what)
        lo = 0.0
        for (n, r, m, k, p), (rr, mm, pp) in zip(layers, REF):
            vc.state((what, n)); vc.expect(r == rr and m == mm and m in E.PREM_MATERIALS, "table", "%s: layer %s ends at %r in %s instead of %r in %s" % (what, n, r, m, rr, mm))
            for i in range(int((rr - lo) // 1000) + 1):
                x = min(lo + 1000.0 * i, rr); got = float(p) if k == "constant" else sum(c * x ** j for j, c in enumerate(p)); want = sum(c * (x / 6371000.0) ** j for j, c in enumerate(pp)); vc.step()
                vc.expect(close(got, want, 1e-7), "table-density", lambda: "%s: %s at %g m: density %g instead of %g" % (what, n, x, got, want))
            lo = rr
        vc.trace()
# ---- constant views of it --------------------------------------------------------------------------------------------------------------
def exact_mass(kind, params, lo, hi):
    lo, hi = Fraction(lo), Fraction(hi)
    return sum(Fraction(float(c)) * (hi ** (k + 3) - lo ** (k + 3)) / (k + 3) for k, c in enumerate([params] if kind == "constant" else params))
LAY = [("a", 1000.0, "INNERCORE", "constant", 5.0), ("b", 2500.0, "MANTLE", "polynomial", [4.0, 1e-4]), ("c", 4000, "MANTLE", "polynomial", [1.0, -1e-4, 2e-7]), ("d", 5000.0, "ROCK", "constant", 2.5)]
def collapse():
    for layers in [None] + [list(s) for k in (1, 2, 3, 4) for s in itertools.combinations(LAY, k)]:
        real = layers if layers is not None else E.CANONICAL_PREM_LAYERS; radii = [float(l[1]) for l in real]
        wanted = [None] + [list(b) for k in range(1, len(radii) + 1) for b in itertools.combinations(radii, k)] + [[radii[0] * 0.5], [radii[-1] * 2], radii[:-1] + [radii[-1] - 1.0]]
        for bounds in wanted:
            vc.note("%s %s" % (layers, bounds)); vc.step(); args = ([layers] if layers is not None or bounds is not None else []) + ([bounds] if bounds is not None else [])
            ok = bounds is None or all(b in radii for b in bounds)
            if ok and bounds is not None and bounds[-1] != radii[-1]: continue      # what lies beyond the last boundary is not described
            before = copy.deepcopy(real)
            try: out = E.collapse_to_constant(*args)
            except ValueError: vc.expect(not ok, "collapse-refused", lambda: "boundaries %s are refused" % bounds); continue
            if not vc.expect(ok, "collapse-accepted", lambda: "boundaries %s are accepted although the layers end at %s" % (bounds, radii)): continue
            vc.expect(real == before, "collapse-argument", "the given layers are changed")
            want = radii if bounds is None else bounds
            if not vc.expect([o[1] for o in out] == want, "collapse-radii", lambda: "layers %s, boundaries %s: shells end at %s" % (radii, bounds, [o[1] for o in out])): continue
            lo = 0.0
            for o in out:
                mass = Fraction(0); l0 = 0.0
                for l in real:
                    if lo <= l0 and float(l[1]) <= o[1]: mass += exact_mass(l[3], l[4], l0, float(l[1]))
                    l0 = float(l[1])
                rho = float(mass / ((Fraction(o[1]) ** 3 - Fraction(lo) ** 3) / 3)); lo = o[1]
                vc.state((str(layers), str(bounds), o[0])); vc.expect(o[3] == "constant" and close(o[4], rho), "collapse-density", lambda: "layers %s, boundaries %s: %s has density %r instead of %r" % (radii, bounds, o[0], o[4], rho))
                src = [l for l in real if float(l[1]) == o[1]][0]; vc.expect(o[0] == src[0] and o[2] == src[2], "collapse-name", lambda: "the shell ending at %r is %s of %s" % (o[1], o[0], o[2]))
            vc.trace()
# ---- the atmosphere ---------------------------------------------------------------------------------------------------------------------------
MODELS = [("default", None, 1.225e-3, 8500.0), ("us", lambda: E.USStandard1976(), 1.225e-3, 8500.0), ("plain", lambda: E.Atmosphere(), 1.225e-3, 8500.0), ("own", lambda: E.Atmosphere(2e-3, 4000.0), 2e-3, 4000.0)]
TOPS = [0.0, 1000.0, 4000.0, 4001.0, 10000.0, 15000.0, 40000.0, 80000.0, 100000.0, 180000.0, 500000.0]
ALTS = [(0, 4000), (4000, 10000), (10000, 20000), (20000, 40000), (40000, 80000), (80000, 180000)]
BANDS = [None, [(0, 2000), (2000, 5000)], [(0.0, 500.0)], [(1000, 9000)], []]
def want_bands(top): return [(a, min(b, top)) for a, b in ALTS if a < top]
def mean(rho0, H, a, b):      # of the column, by Gauss-Legendre on small pieces
    n = 400; g = math.sqrt(0.6); h = (b - a) / n; s = 0.0
    for i in range(n):
        m = a + (i + 0.5) * h
        s += (5 * math.exp(-(m - g * h / 2) / H) + 8 * math.exp(-m / H) + 5 * math.exp(-(m + g * h / 2) / H)) / 18
    return rho0 * s / n
def atmosphere():
    for t in TOPS: vc.expect([tuple(b) for b in E.default_boundaries(t)] == want_bands(t), "bands", lambda: "bands up to %g: %s" % (t, E.default_boundaries(t))); vc.step()
    vc.expect([tuple(b) for b in E.default_boundaries()] == ALTS, "bands", "default bands")
    for name, mk, rho0, H in MODELS:
        for t, bands, mode, surface in itertools.product(TOPS, BANDS, ("exponential", "shells"), (6371000.0, 100.0, 0.0)):
            kw = dict(mode=mode, top_m=t); kw.update(dict(bands=bands) if bands is not None else {}); kw.update(dict(model=mk()) if mk else {})
            vc.note("%s %s %s" % (name, kw, surface)); vc.step(); form = E.AtmosphereForm(**kw); got = form.resolve(surface); want = bands if bands is not None else want_bands(t)
            if not vc.expect([(g.r_base, g.r_top) for g in got] == [(surface + a, surface + b) for a, b in want], "band-radii", lambda: "%s: %s" % (kw, got)): continue
            vc.expect(len({g.name for g in got}) == len(got), "band-names", lambda: "%s: bands share a name: %s" % (kw, got))
            for g, (a, b) in zip(got, want):
                vc.state((name, t, mode, a, b, surface)); vc.expect(g.material == "AIR", "band-material", "material " + g.material)
                if mode == "exponential": vc.expect(g.mode == "exponential" and close(g.rho_base, rho0 * math.exp(-a / H)) and close(g.scale_height, H), "band-density", lambda: "%s: %s" % (kw, g))
                else: vc.expect(g.mode == "constant" and close(g.rho_base, mean(rho0, H, a, b), 1e-8), "band-density", lambda: "%s: %s instead of %g" % (kw, g, mean(rho0, H, a, b)))
            vc.trace()
        for surface, bands in itertools.product((6371000.0, 100.0), BANDS):
            kw = {}; kw.update(dict(model=mk()) if mk else {}); kw.update(dict(bands=bands) if bands is not None else {}); kw.update(dict(surface_radius=surface)); got = E.constant_shell_layers(**kw); want = bands if bands is not None else ALTS; vc.step()
            vc.expect([tuple(g[1:4]) for g in got] == [(surface + b, "AIR", "constant") for a, b in want] and all(close(g[4], mean(rho0, H, a, b), 1e-8) for g, (a, b) in zip(got, want)), "shell-layers", lambda: "%s: %s" % (kw, got)); vc.trace()
# ---- sectors --------------------------------------------------------------------------------------------------------------------------------------
UPS = [(0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.6, 0.0, 0.8)]
R0 = 5000.0
PREMS = [[LAY[3]], [LAY[0], LAY[3]], LAY, None]
ATM = [None, lambda: E.AtmosphereForm(mode="exponential", bands=[(0, 1000), (1000, 4000)], model=E.Atmosphere(1e-3, 2000.0)), lambda: E.AtmosphereForm(mode="shells", bands=[(0, 1000), (1000, 4000)], model=E.Atmosphere(1e-3, 2000.0))]
def gdml(up, levels, alias):
    m = Model(alias); s = Sector(); s.name = "UNIVERSE"; s.level = INT_MIN; s.geo = Everywhere(); s.density = Const(0.0); m.s.append(s)
    for i, l in enumerate(levels): s = Sector(); s.name = "g%d" % i; s.level = l; s.geo = Slab(up, 10.0 * i, 25.0); s.density = Const(10.0 + i); s.material_id = 6; m.s.append(s)
    return m
def probe(m, up, r_prem, surface, layers, atm, extras, levels, what):
    """extras: (name, before, radius window, density); walks the radii up to beyond the atmosphere"""
    centre = tuple(-(r_prem - surface) * u for u in up); scale = r_prem / 5000.0
    radii = sorted({x for l in layers for x in (float(l[1]) - 0.25, float(l[1]) + 0.25, float(l[1]) * 0.7)} | {r_prem + h for h in (-1, 0.25, 500, 999, 1001, 3999, 4001, 9000)} | {r_prem - surface + h for h in (-40, -20, 0, 20, 40)})
    for r in radii:
        x = tuple(c + r * u for c, u in zip(centre, up)); top = m.at(x); vc.step()
        if not vc.expect(len(top) == 1, "level-shared", lambda: "%s: %s share a level" % (what, [t.name for t in top])): return
        t = top[0]; h = sum(a * b for a, b in zip(x, up))
        inside = [i for i in range(len(levels)) if abs(h - 10.0 * i) <= 25.0]
        if inside: i = max(inside, key=lambda i: levels[i]); want = ("g%d" % i, 6, 10.0 + i)
        else:
            want = None; seq = []
            for l in layers: seq += [("x",) + e for e in extras if e[1] == l[0]] + [("l", l)]
            seq += [("x",) + e for e in extras if e[1] not in [l[0] for l in layers]]
            for q in seq:
                if q[0] == "x" and q[3][0] <= r <= q[3][1]: want = (q[1], 4, q[4]); break
                if q[0] == "l" and r <= q[1][1]: l = q[1]; want = (l[0], MAT.index(l[2]), l[4] if l[3] == "constant" else sum(c * r ** k for k, c in enumerate(l[4]))); break
            if want is None and atm:
                for a, b in ((0, 1000), (1000, 4000)):
                    if r <= r_prem + b: want = (None, 5, 1e-3 * math.exp(-(r - r_prem) / 2000.0) if atm == 1 else mean(1e-3, 2000.0, a, b)); break
            if want is None: want = ("UNIVERSE", 0, 0.0)
        got = (t.name, t.material_id, t.density.at(x)); vc.expect((want[0] is None or got[0] == want[0]) and got[1] == want[1] and close(got[2], want[2], 1e-6), "matter", lambda: "%s: at radius %r there is %r instead of %r" % (what, r, got, want))
LEVELS = [ls for n in (0, 1, 2, 3) for ls in itertools.permutations((-5, 0, 1, 7), n)]
QUICK = [(), (0,), (-5,), (7, -5), (0, 1), (1, 0, 7), (-5, 7, 1), (7, 1, 0)]
def build(pi, part, of):
    def f():
        layers = PREMS[pi]; real = layers if layers is not None else E.CANONICAL_PREM_LAYERS; r_prem = float(real[-1][1]); names = [l[0] for l in real]
        places = names[:2] + names[-1:] + [None, "nowhere"] if layers is None else names + [None, "nowhere"]
        ex1 = [[]] + [[("e", b, (r_prem * 0.3, r_prem * 1.05), 3.25)] for b in places] + [[("e", b, (r_prem * 0.3, r_prem * 1.05), 3.25), ("f", c, (r_prem * 0.1, r_prem * 0.9), 7.5)] for b in places for c in places]
        k = 0
        for up, surface, ai, exs, levels, alias in itertools.product(UPS, (0.0, 30.0, -100.0), range(3), ex1, LEVELS if vc.thorough() else QUICK, (False, True)):
            k += 1
            if k % of != part: continue
            if (up != UPS[0]) + (surface != 0.0) + (len(exs) > 1) + (len(levels) > 1) > (4 if vc.thorough() else 2): continue
            m = gdml(up, levels, alias); what = "up %s, surface %g, layers %s, atmosphere %d, extras %s, levels %s, %s" % (up, surface, names, ai, exs, levels, "aliased" if alias else "copied"); vc.note(what); vc.state(what)
            centre = tuple(-(r_prem - surface) * u for u in up)
            kw = dict(surface_offset=surface, up_axis=up, r_prem=r_prem)
            if layers is not None: kw["prem_layers"] = layers
            if ai: kw["atmosphere"] = ATM[ai]()
            if exs: kw["extra_sectors"] = [E.PositionedSector(name=n, material="ROCK", geo=Sphere(Placement(V(*centre)), w[1], w[0]), density_const=d if i == 0 else None, density=None if i == 0 else Const(d), insert_before=b) for i, (n, b, w, d) in enumerate(exs)]
            before = [s.name for s in sorted(m.s, key=lambda s: s.level)][1:]
            E.build_earth_sectors(m, **kw); vc.step()
            after = m.order(); vc.expect(sorted(after) == sorted(before + ["UNIVERSE"] + names + [e[0] for e in exs] + [n for n in after if n.startswith("atmo")]) and len(after) == 1 + len(before) + len(names) + len(exs) + (2 if ai else 0), "sectors", lambda: "%s: sectors %s" % (what, after))
            vc.expect([n for n in after if n in before] == before, "order", lambda: "%s: the detector's volumes are now in the order %s" % (what, after))
            probe(m, up, r_prem, surface, real, ai, exs, levels, what)
            # a second Earth is refused and changes nothing
            snap = [s.key() for s in m.s]
            try: E.build_earth_sectors(m, **kw); vc.expect(False, "twice", lambda: "%s: a second Earth is accepted" % what)
            except RuntimeError: vc.expect([s.key() for s in m.s] == snap, "twice-changed", lambda: "%s: a refused second Earth changes the model" % what)
            vc.trace()
    return f
# ---- histories of insertions --------------------------------------------------------------------------------------------------------------------
def histories(part, of):
    def f():
        depth = 4 if vc.thorough() else 3; k = 0
        for levels, alias in itertools.product(LEVELS, (False, True)):
            if not levels: continue
            ops = [("build", 1), ("build", 2)] + [("above", a, n) for a in ("UNIVERSE", "g0", "g%d" % (len(levels) - 1), "n0", "d", "missing") for n in (0, 1, 2)]
            for hist in itertools.product(ops, repeat=depth):
                k += 1
                if k % of != part: continue
                if not vc.thorough() and len(levels) == 3 and alias: continue
                m = gdml(UPS[0], levels, alias); order = m.order(); fresh = 0; what = "levels %s, %s, %s" % (levels, "aliased" if alias else "copied", hist); vc.note(what)
                for op in hist:
                    vc.step(); snap = [s.key() for s in m.s]; ok = True
                    if op[0] == "build":
                        names = ["d"] if op[1] == 1 else ["a", "d"]; refuse = any(n in order for n in names)
                        try: E.build_earth_sectors(m, surface_offset=0.0, prem_layers=PREMS[op[1] - 1], r_prem=R0)
                        except RuntimeError: ok = False
                        if not refuse: order = [order[0]] + list(reversed(names)) + order[1:]
                    else:
                        refuse = op[1] not in order; new = []
                        for i in range(op[2]): s = Sector(); s.name = "n%d" % fresh; fresh += 1; s.geo = Everywhere(); new.append(s)
                        try: E.insert_sectors_above(m, op[1], new)
                        except RuntimeError: ok = False
                        if not refuse: i = order.index(op[1]) + 1; order = order[:i] + [s.name for s in new] + order[i:]
                    if not vc.expect(ok == (not refuse), "insert-accepted", lambda: "%s: %s is %s" % (what, op, "accepted" if ok else "refused")): break
                    if refuse: vc.expect([s.key() for s in m.s] == snap, "refused-changed", lambda: "%s: a refused %s changes the model" % (what, op))
                    lv = [s.level for s in m.s]; vc.expect(len(set(lv)) == len(lv), "level-shared", lambda: "%s: after %s the levels are %s" % (what, op, lv))
                    u = [s for s in m.s if s.name == "UNIVERSE"]; vc.expect(len(u) == 1 and u[0].level == INT_MIN, "universe", lambda: "%s: after %s the universe has level %s" % (what, op, [s.level for s in u]))
                    vc.state((levels, tuple(order)))
                    if not vc.expect(m.order() == order, "insert-order", lambda: "%s: after %s the order is %s instead of %s" % (what, op, m.order(), order)): break
                vc.trace()
    return f
def defaults():
    """arguments left out: up is +y, the Earth has radius 6371 km and the canonical layers"""
    for surface, levels in itertools.product((0.0, 30.0), LEVELS):
        m = gdml(UPS[0], levels, False); E.build_earth_sectors(m, surface_offset=surface); vc.step(); vc.state((surface, levels)); probe(m, UPS[0], 6371000.0, surface, E.CANONICAL_PREM_LAYERS, 0, [], levels, "defaults, surface %g, levels %s" % (surface, levels)); vc.trace()
    for levels, count, exempt in itertools.product(LEVELS, (0, 1, 4), (None, ("UNIVERSE", "g1"), ())):
        if exempt == (): continue
        m = gdml(UPS[0], levels, True); kw = {} if exempt is None else dict(exempt=exempt); out = exempt or ("UNIVERSE",); before = {s.name: s.level for s in m.s}; got = E.shift_levels_up(m.s, count, **kw); vc.step(); low = min([l for n, l in before.items() if n not in out] or [0])
        vc.expect({s.name: s.level for s in m.s} == {n: l if n in out else l - low + count for n, l in before.items()} and (got == low or not [n for n in before if n not in out]), "shift", lambda: "shift_levels_up by %d from %s: %s, returns %r" % (count, before, {s.name: s.level for s in m.s}, got)); vc.trace()
# ---- the site that uses it ------------------------------------------------------------------------------------------------------------------------
def sbn():
    import importlib.util
    p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "resources", "detectors", "SBN", "SBN-v1", "earth_model.py"); s = importlib.util.spec_from_file_location("sbn_earth", p); mod = importlib.util.module_from_spec(s); sys.modules["sbn_earth"] = mod; s.loader.exec_module(mod)
    for ground, levels, alias in itertools.product((0.0, 12.5, -30.0, 100.0), LEVELS, (False, True)):
        m = gdml(UPS[0], levels, alias); mod.add_earth_model(m, ground); what = "SBN, ground at %g, levels %s" % (ground, levels); vc.note(what); vc.step(); R = 6371000.0; cy = -(R - ground)
        for th in (0.0, 0.29, 0.31, 1.5, 3.1):
            for r in [x + d for x in [l[0] for l in REF] + [R - 45000.0] for d in (-50.0, 50.0)] + [R + h for h in (100, 3900, 4100, 39000, 79000, 81000, 179000, 181000)]:
                x = (r * math.sin(th), cy + r * math.cos(th), 0.0); t = m.at(x); h = r - R; vc.step()
                inside = [i for i in range(len(levels)) if abs(x[1] - 10.0 * i) <= 25.0]
                if inside: i = max(inside, key=lambda i: levels[i]); want = (6, 10.0 + i)
                elif R - 45000.0 <= r <= R - 24400.0 and th < 0.3: want = (4, 2.9)
                elif r <= R: l = [l for l in REF if r <= l[0]][0]; want = (MAT.index(l[1]), sum(c * (r / R) ** j for j, c in enumerate(l[2])))
                elif h <= 180000: want = (5, 1.225e-3 * math.exp(-h / 8500.0))
                else: want = (0, 0.0)
                vc.state((ground, levels, th, r)); vc.expect(len(t) == 1 and t[0].material_id == want[0] and close(t[0].density.at(x), want[1], 1e-6), "sbn-matter", lambda: "%s: at angle %g, radius %r: %r instead of %r" % (what, th, r, [(s.name, s.material_id, s.density.at(x)) for s in t], want))
        snap = [s.key() for s in m.s]
        try: mod.add_earth_model(m, ground); vc.expect(False, "twice", "a second Earth is accepted")
        except RuntimeError: vc.expect([s.key() for s in m.s] == snap, "twice-changed", "a refused second Earth changes the model")
        vc.trace()
if __name__ == "__main__":
    cases = [("table", table), ("collapse", collapse), ("atmosphere", atmosphere), ("sbn", sbn), ("defaults", defaults)] + [("build-%d-%d" % (i, p), build(i, p, 2)) for i in range(len(PREMS)) for p in range(2)] + [("histories-%d" % p, histories(p, 8)) for p in range(8)]
    try: vc.run(cases)
    finally: shutil.rmtree(BASE, ignore_errors=True)
