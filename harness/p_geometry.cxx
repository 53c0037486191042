// P21: shapes.  Every shape of the catalogue is crossed with all rays of two grids (generic, and through its own special
// coordinates); the list of crossings must describe exactly the shape's membership function along the whole line.
#include "vc.h"
#include "shapes.h"
using namespace shapes;
typedef std::vector<Geometry::Intersection> Hits;
static std::string kind(std::string const &n) { return n.substr(0, n.find('(')); }
static std::string sv(Vector3D const &v) { return vc::cat("(", v.GetX(), ",", v.GetY(), ",", v.GetZ(), ")"); }
static std::string sh(Hits const &h) { std::string s; for (auto &x : h) s += vc::cat(x.entering ? "+" : "-", x.distance, " "); return s; }
static std::vector<Vector3D> dirs(bool special) {
    std::vector<Vector3D> o;
    if (special) {
        for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) { if (!a && !b && !c) continue; if (std::max({std::abs(a), std::abs(b), std::abs(c)}) == 2 && (a % 2 == 0 && b % 2 == 0 && c % 2 == 0)) continue; if (!vc::thorough() && std::abs(a) + std::abs(b) + std::abs(c) > 3) continue; Vector3D v(a, b, c); o.push_back(v / v.magnitude()); }
    } else {
        int n = vc::thorough() ? 9 : 5;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double ct = -0.93 + 1.87 * i / (n - 1), ph = 0.137 + 2 * M_PI * j / n + 0.31 * i, st = std::sqrt(1 - ct * ct); o.push_back(Vector3D(st * std::cos(ph), st * std::sin(ph), ct)); }
    }
    return o;
}
static std::vector<double> axis(std::vector<double> sp, double size, bool special) {
    if (!special) { std::vector<double> v = {-1.31, -0.73, -0.19, 0.27, 0.61, 1.17}; if (vc::thorough()) { v.push_back(-0.42); v.push_back(0.88); v.push_back(0.0431); } for (auto &x : v) x *= size * 0.97; return v; }
    sp.push_back(0); sp.push_back(0.37 * size); sp.push_back(-1.7 * size); sp.push_back(1.7 * size); std::sort(sp.begin(), sp.end()); sp.erase(std::unique(sp.begin(), sp.end()), sp.end()); return sp;
}
static const double TOL = 1e-6;
// A line that merely touches a surface, edge or vertex, or runs along one, has no well-defined crossings: an arbitrarily
// small shift changes their number.  Lines are judged only when they are stable in this sense.
static bool stable(Margin const &m, Vector3D const &o, Vector3D const &d, Hits const &h, double L, double size) {
    Vector3D a = std::fabs(d.GetX()) < 0.8 ? Vector3D(1, 0, 0) : Vector3D(0, 1, 0); Vector3D e1 = siren::math::cross_product(d, a); e1 = e1 / e1.magnitude(); Vector3D e2 = siren::math::cross_product(d, e1);
    const double del = 1e-3 * size;
    std::vector<double> ts; for (int i = 0; i <= 1500; ++i) ts.push_back(-L + 2 * L * i / 1500);
    for (auto &x : h) for (int i = -80; i <= 80; ++i) ts.push_back(x.distance + i * 0.25 * del);
    std::sort(ts.begin(), ts.end());
    auto changes = [&](Vector3D const &p) { int c = 0; int last = 0; for (double t : ts) { double v = m(p.GetX() + t * d.GetX(), p.GetY() + t * d.GetY(), p.GetZ() + t * d.GetZ()); if (std::fabs(v) < 1e-9) continue; int s = v > 0 ? 1 : -1; if (last && s != last) ++c; last = s; } return c; };
    // (the same holds for a line that touches the solid an azimuthal cut is taken from)
    struct Reset { ~Reset() { shapes::uncut() = false; } } reset;
    for (bool u : {false, true}) { shapes::uncut() = u; int c0 = changes(o);
    for (double f : {1.0, 0.03}) for (int k = 0; k < 12; ++k) { double w = 0.1 + 2 * M_PI * k / 12; if (changes(o + e1 * (f * del * std::cos(w)) + e2 * (f * del * std::sin(w))) != c0) return false; } }
    return true;
}
// Rims and vertices of the stacked shapes: the code assigns a crossing at an exact rim to one of the faces that meet there
// by comparing rounded coordinates.  A line through such a point is judged by its immediate parallel neighbours.
static bool neighbours_right(Geometry const &g, Margin const &m, Vector3D const &o, Vector3D const &d, double L, double size) {
    Vector3D a = std::fabs(d.GetX()) < 0.8 ? Vector3D(1, 0, 0) : Vector3D(0, 1, 0); Vector3D e1 = siren::math::cross_product(d, a); e1 = e1 / e1.magnitude(); Vector3D e2 = siren::math::cross_product(d, e1);
    for (int k = 0; k < 8; ++k) {
        double w = 0.1 + 2 * M_PI * k / 8, del = (k % 2 ? 1e-5 : 1e-4) * size; Vector3D p = o + e1 * (del * std::cos(w)) + e2 * (del * std::sin(w));
        Hits h = g.Intersections(p, d);
        for (int i = 0; i <= 200; ++i) {
            double t = -L + 2 * L * (i + 0.37) / 200, v = m(p.GetX() + t * d.GetX(), p.GetY() + t * d.GetY(), p.GetZ() + t * d.GetZ()); if (std::fabs(v) < 1e-3) continue;
            bool in = false; for (auto &x : h) if (x.distance <= t) in = x.entering;
            if (in != (v > 0)) return false;
        }
    }
    return true;
}
static bool rims(std::string const &n) { for (char const *k : {"Cone(", "Polycone(", "GenericPolycone(", "Polyhedra("}) if (n.rfind(k, 0) == 0) return true; return false; }
static void line(Shape const &s, Geometry const &g, Margin const &m, Vector3D const &o, Vector3D const &d, std::string const &tag, double L) {
    std::string k = kind(s.name) + tag; vc::step();
    Hits h = g.Intersections(o, d);
    auto where = [&] { return vc::cat(s.name, tag, " from ", sv(o), " along ", sv(d), " crossings ", sh(h)); };
    int reg = -1; auto ok = [&] { if (reg < 0) { reg = stable(m, o, d, h, L, s.size) && !(rims(s.name) && neighbours_right(g, m, o, d, L, s.size)); if (!reg) vc::count("touching lines not judged"); } return reg == 1; };
    bool in = false, order = true, alt = true, fin = true;
    for (size_t i = 0; i < h.size(); ++i) { if (!std::isfinite(h[i].distance)) fin = false; if (i && h[i].distance < h[i - 1].distance) order = false; if (h[i].entering == in) alt = false; in = h[i].entering; }
    if (in) alt = false;
    if (!fin || !order) { VC_EXPECT(fin, "not-finite " + k, where()); VC_EXPECT(order, "not-sorted " + k, where()); return; }
    // parity may only be irregular where the line runs along the surface
    auto M = [&](double t) { return m(o.GetX() + t * d.GetX(), o.GetY() + t * d.GetY(), o.GetZ() + t * d.GetZ()); };
    auto inside = [&](double t) { bool r = false; for (auto &x : h) if (x.distance <= t) r = x.entering; return r; };
    auto probe = [&](double t, char const *what) { for (auto &x : h) if (std::fabs(x.distance - t) < TOL) return; double v = M(t); if (std::fabs(v) < TOL) return; ++vc::R.evaluations; if (inside(t) != (v > 0) && ok()) vc::fail(vc::cat(what, " ", k), vc::cat(where(), " at t=", t, " the point is ", v > 0 ? "inside" : "outside", " (margin ", v, ")")); };
    const int N = vc::thorough() ? 120 : 48;
    for (int i = 0; i <= N; ++i) probe(-L + 2 * L * (i + 0.31) / N, "misclassified");
    bool clear = true;
    for (size_t i = 0; i < h.size(); ++i) {
        VC_EXPECT(std::fabs(M(h[i].distance)) < 1e-5 * (1 + s.size) || !ok(), "crossing-off-surface " + k, where(), " margin at ", h[i].distance, " is ", M(h[i].distance));
        Vector3D p = o + d * h[i].distance; double e = (p - h[i].position).magnitude();
        VC_EXPECT(e < 1e-6 * (1 + std::fabs(h[i].distance)), "crossing-position " + k, where(), " position ", sv(h[i].position));
        if (i + 1 < h.size()) { double mid = 0.5 * (h[i].distance + h[i + 1].distance); probe(mid, "misclassified"); if (std::fabs(M(mid)) < TOL) clear = false; }
    }
    if (clear) VC_EXPECT(alt || !ok(), "not-alternating " + k, where());
    // containment
    double v = M(0); if (std::fabs(v) > TOL) VC_EXPECT(g.IsInside(o, d) == (v > 0) || !ok(), "is-inside-along " + k, where(), " margin ", v);
    auto w = g.GetWorldBoundingBox();
    for (auto &x : h) { auto &p = x.position; double e = 1e-6; VC_EXPECT(p.GetX() > w.min_corner.GetX() - e && p.GetY() > w.min_corner.GetY() - e && p.GetZ() > w.min_corner.GetZ() - e && p.GetX() < w.max_corner.GetX() + e && p.GetY() < w.max_corner.GetY() + e && p.GetZ() < w.max_corner.GetZ() + e || !ok(), "outside-bounding-box " + k, where(), " box ", sv(w.min_corner), sv(w.max_corner)); }
}
static void points(Shape const &s, Geometry const &g, Margin const &m, Vector3D const &o, std::string const &tag) {
    double v = m(o.GetX(), o.GetY(), o.GetZ()); if (std::fabs(v) < TOL) return; vc::step();
    VC_EXPECT(g.IsInside(o) == (v > 0) || !stable(m, o, Vector3D(0, 0, 1), g.Intersections(o, Vector3D(0, 0, 1)), 4.3 * s.size, s.size), "is-inside " + kind(s.name) + tag, s.name, tag, " point ", sv(o), " margin ", v);
}
static void shape(Shape const &s) {
    vc::note(s.name);
    double L = 4.3 * s.size;
    for (int sp = 0; sp < 2; ++sp) {
        auto D = dirs(sp); std::string tag = sp ? " special" : "";
        for (double x : axis(s.xs, s.size, sp)) for (double y : axis(s.ys, s.size, sp)) for (double z : axis(s.zs, s.size, sp)) {
            Vector3D o(x, y, z); points(s, *s.g, s.m, o, tag);
            for (auto &d : D) { ++vc::R.states; line(s, *s.g, s.m, o, d, tag, L); vc::trace(); }
        }
    }
    // far away origins: the same crossings
    for (double F : {1e3, 1e5, 6.4e6}) for (double x : axis({}, s.size, false)) for (double y : axis({}, s.size, false)) for (auto &d : dirs(false)) {
        Vector3D o(x, y, 0.13 * s.size); Hits a = s.g->Intersections(o, d), b = s.g->Intersections(o - d * F, d); vc::step(2); ++vc::R.states;
        bool clear = true; auto M = [&](double t) { return s.m(o.GetX() + t * d.GetX(), o.GetY() + t * d.GetY(), o.GetZ() + t * d.GetZ()); };
        for (size_t i = 0; i + 1 < a.size(); ++i) if (std::fabs(M(0.5 * (a[i].distance + a[i + 1].distance))) < 0.02 * s.size) clear = false;
        // near misses may turn into hits by rounding
        double best = -1e300; for (int i = 0; i <= 60; ++i) best = std::max(best, M(-L + 2 * L * i / 60)); if (a.empty() && best > -0.05 * s.size) clear = false;
        if (!clear) continue;
        bool same = a.size() == b.size(); for (size_t i = 0; same && i < a.size(); ++i) same = a[i].entering == b[i].entering && std::fabs(b[i].distance - F - a[i].distance) < 1e-6 + 1e-7 * F / 1e3;
        VC_EXPECT(same, "far-origin " + kind(s.name), s.name, " from ", sv(o), " along ", sv(d), " crossings ", sh(a), " but from ", F, " back ", sh(b));
    }
    // moved copies
    Quaternion q; q.SetAxisAngle(Vector3D(-1, 2, 1) / std::sqrt(6.0), 1.1);
    for (auto pl : {Placement(Vector3D(3, -2, 5)), Placement(Vector3D(-1, 0.5, 2), q)}) {
        auto c = s.g->create(); c->SetPlacement(pl);
        Margin m = [&](double x, double y, double z) { Vector3D l = pl.GlobalToLocalPosition(Vector3D(x, y, z)); return s.m(l.GetX(), l.GetY(), l.GetZ()); };
        for (double x : axis({}, s.size, false)) for (double y : axis({}, s.size, false)) for (auto &d : dirs(false)) { ++vc::R.states; Vector3D o = pl.LocalToGlobalPosition(Vector3D(x, y, 0.3 * s.size)); line(s, *c, m, o, d, " moved", L); points(s, *c, m, o, " moved"); vc::trace();
            auto lo = c->ToLocal(o, d); Hits a = c->Intersections(o, d), b = c->Intersections(lo.first, lo.second); bool same = a.size() == b.size(); for (size_t i = 0; same && i < a.size(); ++i) same = std::fabs(a[i].distance - b[i].distance) < 1e-9 && a[i].entering == b[i].entering && (a[i].position - b[i].position).magnitude() < 1e-9;
            VC_EXPECT(same, "local-query " + kind(s.name), s.name, " global ", sh(a), " local ", sh(b)); }
    }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c; auto S = std::make_shared<std::vector<Shape>>(catalogue());
    size_t per = 6; // several shapes of one kind per case
    for (size_t i = 0; i < S->size();) { size_t j = i; while (j < S->size() && j - i < per && kind((*S)[j].name) == kind((*S)[i].name)) ++j; c.push_back({vc::cat(kind((*S)[i].name), "_", i), [=] { for (size_t k = i; k < j; ++k) { shape((*S)[k]); if (vc::R.samples.size() < 3) vc::R.samples.push_back((*S)[k].name); } }, 0}); i = j; }
    return vc::run(argc, argv, c);
}
