// P24: a path is a stretch of a straight line through a detector. Every operation moves the end it names by the distance or
// depth it names, nothing else, and every answer (points in both frames, direction, length, depths, distances for depths) is
// that of the stretch as it is now, whatever happened before.
#include "vc.h"
#include "world3.h"
using namespace w3;
static const double QT = 1e-4;
struct Mode { std::vector<ParticleType> t; std::vector<double> x; double dl; };
struct World2 { Det D; std::vector<Seg> seg; };          // one line seen in one detector
struct Ctx {
    Vector3D o, d; double R;                              // the line: o + t d, matter only for t in [0, R]
    std::vector<World2> w; Mode md;
    Line line(int k) const { return Line{w[k].D.M, o, d, w[k].seg}; }
    double col(int k, double a, double b) const { Line l = line(k); auto one = [](int) { return 1.0; }; return std::fabs(100 * (l.depth(b, one) - l.depth(a, one))); }
    double weight(int k, int v) const { auto pf = per_target(w[k].D, v, md.t); double s = 0; for (size_t i = 0; i < pf.size(); ++i) s += pf[i] * md.x[i]; return s; }
    double inter(int k, double a, double b) const { Line l = line(k); auto f = [&](int v) { return weight(k, v); }; return std::fabs(100 * (l.depth(b, f) - l.depth(a, f))) + std::fabs(b - a) / md.dl; }
};
struct St { int k = 0; double a = 0, b = 0; int s = 1; bool first_inf = false, last_inf = false; };   // from a to b, looking along s*d
static double proj(Ctx const &c, Vector3D const &p) { return (p - c.o) * c.d; }
static bool inworld(Ctx const &c, double t) { return t > 0.02 && t < c.R - 0.02; }
static bool clear(Ctx const &c, St const &s) { for (double t : {s.a, s.b}) { bool ok; c.w[s.k].D.M.at(c.o + c.d * t, ok); if (!ok) return false; } return true; }
static double closeness(Vector3D const &a, Vector3D const &b) { return norm(a - b); }
// compare every answer with the stretch
static void verify(Path &p, Ctx const &c, St const &s, std::string const &h) {
    ++vc::R.evaluations; Det const &D = c.w[s.k].D; double len = std::fabs(s.b - s.a); const double tol = 1e-5;
    Vector3D dir = c.d * double(s.s);
    VC_EXPECT(closeness(p.GetGeoDirection().get(), dir) < 1e-6, "direction", h); VC_EXPECT(closeness(p.GetDirection().get(), D.D(dir).get()) < 1e-6, "direction-detector-frame", h);
    if (!s.first_inf) { Vector3D A = c.o + c.d * s.a; VC_EXPECT(closeness(p.GetGeoFirstPoint().get(), A) < tol, "first-point", h); VC_EXPECT(closeness(p.GetFirstPoint().get(), D.P(A).get()) < tol, "first-point-detector-frame", h); }
    if (!s.last_inf) { Vector3D B = c.o + c.d * s.b; VC_EXPECT(closeness(p.GetGeoLastPoint().get(), B) < tol, "last-point", h, " is at ", proj(c, p.GetGeoLastPoint().get()), " expected ", s.b); VC_EXPECT(closeness(p.GetLastPoint().get(), D.P(B).get()) < tol, "last-point-detector-frame", h); }
    VC_EXPECT(p.HasPoints() && p.HasDetectorModel() && p.GetDetectorModel() == D.d, "has", h);
    if (s.first_inf || s.last_inf) { VC_EXPECT(std::isinf(p.GetDistance()), "distance", h); return; }
    VC_EXPECT(std::fabs(p.GetDistance() - len) < tol, "distance", h, " is ", p.GetDistance(), " expected ", len);
    if (!clear(c, s) || !inworld(c, s.a) || !inworld(c, s.b)) { vc::count("end outside the world or on a face: points only"); return; }
    vc::step(6); double cd = c.col(s.k, s.a, s.b), id = c.inter(s.k, s.a, s.b); double eps = 1e-2;   // an end within tol of its place
    auto N = [&](double got, double want, double scale) { return std::fabs(got - want) <= QT * scale + 1e-3 * eps; };
    double ct = c.col(s.k, 0, c.R), it = c.inter(s.k, 0, c.R);
    VC_EXPECT(N(p.GetColumnDepthInBounds(), cd, ct), "column-depth", h, " is ", p.GetColumnDepthInBounds(), " expected ", cd);
    VC_EXPECT(N(p.GetInteractionDepthInBounds(c.md.t, c.md.x, c.md.dl), id, it), "interaction-depth", h);
    for (double f : {-0.2, 0.35, 1.3}) {
        double x = f * len; double ia = std::max(0.0, std::min(x, len)); int g = s.s; auto sgn = [&](double v) { return x < 0 ? -v : v; };
        if (!inworld(c, s.a + g * x) || !inworld(c, s.a - g * x) || !inworld(c, s.b + g * x) || !inworld(c, s.b - g * x)) continue; vc::step(12);
        auto &T = c.md.t; auto &X = c.md.x; double L = c.md.dl; int k = s.k;
        auto J = [&](char const *n, double cg, double ce, double ig, double ie) { VC_EXPECT(N(cg, ce, ct) && N(ig, ie, it), vc::cat("depth-", n), h, " at ", x, ": ", cg, " expected ", ce, "; ", ig, " expected ", ie); };
        J("from-start-in-bounds", p.GetColumnDepthFromStartInBounds(x), c.col(k, s.a, s.a + g * ia), p.GetInteractionDepthFromStartInBounds(x, T, X, L), c.inter(k, s.a, s.a + g * ia));
        J("from-end-in-bounds", p.GetColumnDepthFromEndInBounds(x), c.col(k, s.b, s.b - g * ia), p.GetInteractionDepthFromEndInBounds(x, T, X, L), c.inter(k, s.b, s.b - g * ia));
        J("from-start-along", p.GetColumnDepthFromStartAlongPath(x), sgn(c.col(k, s.a, s.a + g * x)), p.GetInteractionDepthFromStartAlongPath(x, T, X, L), sgn(c.inter(k, s.a, s.a + g * x)));
        J("from-end-along", p.GetColumnDepthFromEndAlongPath(x), sgn(c.col(k, s.b, s.b + g * x)), p.GetInteractionDepthFromEndAlongPath(x, T, X, L), sgn(c.inter(k, s.b, s.b + g * x)));
        J("from-start-reverse", p.GetColumnDepthFromStartInReverse(x), sgn(c.col(k, s.a, s.a - g * x)), p.GetInteractionDepthFromStartInReverse(x, T, X, L), sgn(c.inter(k, s.a, s.a - g * x)));
        J("from-end-reverse", p.GetColumnDepthFromEndInReverse(x), sgn(c.col(k, s.b, s.b - g * x)), p.GetInteractionDepthFromEndInReverse(x, T, X, L), sgn(c.inter(k, s.b, s.b - g * x)));
        // and back: the depth up to the reported distance is the requested one
        auto B = [&](char const *n, double cg, double idst, double from, int dr, double lim) {
            auto ok = [&](double dd, std::function<double(double, double)> const &dep, double want, double tot) { if (dd * (x < 0 ? -1 : 1) < -1e-9) return false; double e = from + dr * dd; if (e <= 0 || e >= c.R) return std::fabs(dep(from, e <= 0 ? 0.001 : c.R - 0.001) - want) <= 3 * QT * tot + 1e-3; if (lim >= 0 && dd > lim + tol) return false; return std::fabs(dep(from, e) - want) <= 3 * QT * tot + 1e-3 * eps; };
            double e0 = from + dr * (lim >= 0 ? ia : x);
            bool a1 = ok(cg, [&](double u, double v) { return c.col(k, u, v); }, c.col(k, from, e0), ct), a2 = ok(idst, [&](double u, double v) { return c.inter(k, u, v); }, c.inter(k, from, e0), it);
            VC_EXPECT(a1 && a2, vc::cat("distance-", n), h, " at ", x, ": ", cg, " ", idst); };
        auto C = [&](double from, int dr, bool bnd) { double v = c.col(k, from, from + dr * (bnd ? ia : x)); return bnd ? v : sgn(v); };
        auto I = [&](double from, int dr, bool bnd) { double v = c.inter(k, from, from + dr * (bnd ? ia : x)); return bnd ? v : sgn(v); };
        B("from-start-in-bounds", p.GetDistanceFromStartInBounds(C(s.a, g, true)), p.GetDistanceFromStartInBounds(I(s.a, g, true), T, X, L), s.a, g, len);
        B("from-end-in-bounds", p.GetDistanceFromEndInBounds(C(s.b, -g, true)), p.GetDistanceFromEndInBounds(I(s.b, -g, true), T, X, L), s.b, -g, len);
        B("from-start-along", p.GetDistanceFromStartAlongPath(C(s.a, g, false)), p.GetDistanceFromStartAlongPath(I(s.a, g, false), T, X, L), s.a, g, -1);
        B("from-end-along", p.GetDistanceFromEndAlongPath(C(s.b, g, false)), p.GetDistanceFromEndAlongPath(I(s.b, g, false), T, X, L), s.b, g, -1);
        B("from-start-reverse", p.GetDistanceFromStartInReverse(C(s.a, -g, false)), p.GetDistanceFromStartInReverse(I(s.a, -g, false), T, X, L), s.a, -g, -1);
        B("from-end-reverse", p.GetDistanceFromEndInReverse(C(s.b, -g, false)), p.GetDistanceFromEndInReverse(I(s.b, -g, false), T, X, L), s.b, -g, -1);
        Vector3D q = c.o + c.d * (s.a + g * x); if (len > 0.1) { bool in = x >= 0 && x <= len; VC_EXPECT(p.IsWithinBounds(GeometryPosition(q)) == in && p.IsWithinBounds(D.P(q)) == in, "within-bounds", h, " at ", x); if (in || x < 0) VC_EXPECT(std::fabs(p.GetDistanceFromStartInBounds(GeometryPosition(q)) - ia) < tol && std::fabs(p.GetDistanceFromStartInBounds(D.P(q)) - ia) < tol, "distance-of-point", h, " at ", x); }
    }
}
enum { FLIP, CLIP, EEBD, ESBD, SEBD, SSBD, EETD, ESTD, SETD, SSTD, EEBC, ESBC, SEBC, SSBC, EETC, ESTC, SETC, SSTC, EEBI, ESBI, SEBI, SSBI, EETI, ESTI, SETI, SSTI, COMPUTE, RAYREV, RAYDET, POINTS, POINTSDET, COPY, OPS };
static const char *names[] = {"flip", "clip", "extend end by distance", "extend start by distance", "shrink end by distance", "shrink start by distance", "extend end to distance", "extend start to distance", "shrink end to distance", "shrink start to distance", "extend end by column", "extend start by column", "shrink end by column", "shrink start by column", "extend end to column", "extend start to column", "shrink end to column", "shrink start to column", "extend end by depth", "extend start by depth", "shrink end by depth", "shrink start by depth", "extend end to depth", "extend start to depth", "shrink end to depth", "shrink start to depth", "compute crossings", "same line reversed", "same line from the middle", "other points", "other points in the detector frame", "copy"};
// false: the operation does not apply in this state
static bool apply(Path &p, Ctx const &c, St &s, int op, std::string const &h) {
    double len = std::fabs(s.b - s.a); bool inf = s.first_inf || s.last_inf; const double R = c.R; int g = s.s;
    auto &T = c.md.t; auto &X = c.md.x; double L = c.md.dl; Vector3D dir = c.d * double(g);
    bool dist = op >= EEBD && op <= SSTD, col = op >= EEBC && op <= SSTC, dep = op >= EEBI && op <= SSTI;
    if (dist || col || dep) {
        int base = dist ? EEBD : col ? EEBC : EEBI, k = op - base; bool to = k >= 4, shrink = (k & 3) >= 2, start = k & 1;
        if (to ? inf : (start ? s.first_inf : s.last_inf)) {   // refused, and nothing changes
            if (to) return false;
            bool threw = false; try { switch (op) { case EEBD: p.ExtendFromEndByDistance(1); break; case ESBD: p.ExtendFromStartByDistance(1); break; case SEBD: p.ShrinkFromEndByDistance(1); break; case SSBD: p.ShrinkFromStartByDistance(1); break; case EEBC: p.ExtendFromEndByColumnDepth(1); break; case ESBC: p.ExtendFromStartByColumnDepth(1); break; case SEBC: p.ShrinkFromEndByColumnDepth(1); break; case SSBC: p.ShrinkFromStartByColumnDepth(1); break; default: return false; } } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw, "infinite-end-moved", h); return true; }
        if (col || dep) { if (inf && !shrink) return false; if (!clear(c, s)) return false; if (!inf && (!inworld(c, s.a) || !inworld(c, s.b))) return false; if (inf) return false; }
        double end = start ? s.a : s.b, out = start ? -g : g;                 // extending moves the end along out
        auto D = [&](double u, double v) { return col ? c.col(s.k, u, v) : c.inter(s.k, u, v); };
        double amount, want;                                                   // argument; wanted change of the moved end (distance or depth, outwards positive)
        double beyond = out > 0 ? (R - 0.1) - end : end - 0.1;
        if (dist) { amount = to ? (shrink ? 0.6 * len : len + 0.8) : (shrink ? (op & 1 ? 0.3 * len + 0.1 : 0.45 * len) : 0.9); if (inf && to) return false; if (inf && shrink && !to) amount = 1.1;
            want = to ? (shrink ? -std::max(0.0, len - amount) : std::max(0.0, amount - len)) : shrink ? -amount : amount; if (!inf && want < -len) want = -len; }
        else { if (!shrink && beyond < 0.3) return false; double in = D(s.a, s.b), more = shrink ? 0 : D(end, end + out * beyond * 0.7); if (shrink ? in < 1e-9 : more < 1e-6) return false;
            amount = to ? (shrink ? 0.55 * in : in + 0.5 * more) : (shrink ? 0.4 * in : 0.5 * more); want = to ? (shrink ? -(in - amount) : amount - in) : shrink ? -amount : amount; }
        switch (op) { case EEBD: p.ExtendFromEndByDistance(amount); break; case ESBD: p.ExtendFromStartByDistance(amount); break; case SEBD: p.ShrinkFromEndByDistance(amount); break; case SSBD: p.ShrinkFromStartByDistance(amount); break; case EETD: p.ExtendFromEndToDistance(amount); break; case ESTD: p.ExtendFromStartToDistance(amount); break; case SETD: p.ShrinkFromEndToDistance(amount); break; case SSTD: p.ShrinkFromStartToDistance(amount); break;
            case EEBC: p.ExtendFromEndByColumnDepth(amount); break; case ESBC: p.ExtendFromStartByColumnDepth(amount); break; case SEBC: p.ShrinkFromEndByColumnDepth(amount); break; case SSBC: p.ShrinkFromStartByColumnDepth(amount); break; case EETC: p.ExtendFromEndToColumnDepth(amount); break; case ESTC: p.ExtendFromStartToColumnDepth(amount); break; case SETC: p.ShrinkFromEndToColumnDepth(amount); break; case SSTC: p.ShrinkFromStartToColumnDepth(amount); break;
            case EEBI: p.ExtendFromEndByInteractionDepth(amount, T, X, L); break; case ESBI: p.ExtendFromStartByInteractionDepth(amount, T, X, L); break; case SEBI: p.ShrinkFromEndByInteractionDepth(amount, T, X, L); break; case SSBI: p.ShrinkFromStartByInteractionDepth(amount, T, X, L); break; case EETI: p.ExtendFromEndToInteractionDepth(amount, T, X, L); break; case ESTI: p.ExtendFromStartToInteractionDepth(amount, T, X, L); break; case SETI: p.ShrinkFromEndToInteractionDepth(amount, T, X, L); break; case SSTI: p.ShrinkFromStartToInteractionDepth(amount, T, X, L); break; }
        if (dist) { (start ? s.a : s.b) += out * want; }
        else { double e = proj(c, start ? p.GetGeoFirstPoint().get() : p.GetGeoLastPoint().get()); double moved = (e - end) * out; bool ok = e > 0 && e < R && (want > 0 ? moved >= -1e-9 : moved <= 1e-9 && -moved <= len + 1e-6) && std::fabs(D(end, e) - std::fabs(want)) <= 3 * QT * D(0, R) + 1e-5;
            VC_EXPECT(ok, vc::cat("moved-by-", col ? "column-depth" : "interaction-depth"), h, ": end moved from ", end, " to ", e, " over ", e > 0 && e < R ? D(end, e) : -1, " expected ", want); if (!ok) return false; (start ? s.a : s.b) = e; }
        return true;
    }
    switch (op) {
        case FLIP: p.Flip(); std::swap(s.a, s.b); std::swap(s.first_inf, s.last_inf); s.s = -s.s; return true;
        case CLIP: { double lo = 1e300, hi = -1e300; for (auto &v : c.w[s.k].D.M.v) { (void)v; } for (auto &q : c.w[s.k].seg) if (q.v >= 0) lo = std::min(lo, q.a), hi = std::max(hi, q.b);
            p.ClipToOuterBounds(); if (lo > hi) return true; double u = g > 0 ? lo : hi, v = g > 0 ? hi : lo;   // outer bounds in the direction of the path
            bool cf = s.first_inf || (u - s.a) * g > 0, cl = s.last_inf || (v - s.b) * g < 0; double a = cf ? u : s.a, b = cl ? v : s.b;
            if ((b - a) * g < 0) { double e1 = proj(c, p.GetGeoFirstPoint().get()), e2 = proj(c, p.GetGeoLastPoint().get()); VC_EXPECT(std::fabs(e1 - e2) < 1e-6 && std::fabs(p.GetDistance()) < 1e-6, "clip-outside", h, ": a path that misses the detector becomes ", e1, " to ", e2, " length ", p.GetDistance()); if (!(std::fabs(e1 - e2) <= 1e-6)) return false; s.a = s.b = e1; s.first_inf = s.last_inf = false; return true; }
            s.a = a; s.b = b; s.first_inf = s.last_inf = false; return true; }
        case COMPUTE: p.ComputeIntersections(); return true;
        case RAYREV: p.SetPointsWithRay(GeometryPosition(c.o + c.d * (0.62 * R)), GeometryDirection(-dir), 0.37 * R); s.s = -g; s.a = 0.62 * R; s.b = s.a + s.s * 0.37 * R; s.first_inf = s.last_inf = false; return true;
        case RAYDET: p.SetPointsWithRay(c.w[s.k].D.P(c.o + c.d * (0.43 * R)), c.w[s.k].D.D(dir * 2.0), 0.21 * R); s.a = 0.43 * R; s.b = s.a + g * 0.21 * R; s.first_inf = s.last_inf = false; return true;
        case POINTS: p.SetPoints(GeometryPosition(c.o + c.d * (0.31 * R)), GeometryPosition(c.o + c.d * (0.77 * R))); s.s = 1; s.a = 0.31 * R; s.b = 0.77 * R; s.first_inf = s.last_inf = false; return true;
        case POINTSDET: p.SetPoints(c.w[s.k].D.P(c.o + c.d * (0.81 * R)), c.w[s.k].D.P(c.o + c.d * (0.36 * R))); s.s = -1; s.a = 0.81 * R; s.b = 0.36 * R; s.first_inf = s.last_inf = false; return true;
        case COPY: { Path q(p); if (!s.last_inf) p.ExtendFromEndByDistance(1); p = Path(); p = q; return true; }
    }
    return false;
}
static void explore(Ctx const &c, int start, int first, int depth, bool peek) {
    std::vector<int> seq = {first};
    auto init = [&](Path &p, St &s) { double R = c.R; Det const &D = c.w[0].D; s = St();
        switch (start) {
            case 0: s.a = 0.3 * R; s.b = 0.7 * R; p = Path(D.d, GeometryPosition(c.o + c.d * s.a), GeometryPosition(c.o + c.d * s.b)); break;
            case 1: s.a = 0.64 * R; s.b = 0.24 * R; s.s = -1; p = Path(D.d, D.P(c.o + c.d * s.a), D.D(c.d * -3.0), 0.4 * R); break;
            case 2: s.a = 0.05 * R; s.b = 0.2 * R; p = Path(D.d, D.P(c.o + c.d * s.a), D.P(c.o + c.d * s.b)); break;
            case 3: s.a = 0.11 * R; s.last_inf = true; p = Path(D.d, GeometryPosition(c.o + c.d * s.a), GeometryDirection(c.d), std::numeric_limits<double>::infinity()); break;
            case 4: s.a = 0.5 * R; s.b = 0.5 * R; s.s = -1; p = Path(D.d, GeometryPosition(c.o + c.d * s.a), GeometryDirection(-c.d), 0); break;
        } };
    std::function<void()> rec = [&] {
        Path p; St s; init(p, s); std::string h = vc::cat(c.w[0].D.name, " line from ", sv(c.o), " along ", sv(c.d), " start ", start, peek ? " (queried throughout):" : ":"); bool ok = true;
        if (peek) verify(p, c, s, h);
        for (size_t i = 0; i < seq.size(); ++i) { h += std::string(" ") + names[seq[i]] + ";"; vc::note(h); vc::step(); if (!apply(p, c, s, seq[i], h)) { ok = false; break; } if (peek && i + 1 < seq.size()) verify(p, c, s, h); }
        if (!ok) return; ++vc::R.states; vc::trace(); verify(p, c, s, h);
        if ((int)seq.size() < depth) for (int o = 0; o < OPS; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
    };
    rec();
}
// changing the detector model under a path keeps what it was told: the points in the frame they were given in
static void models(World const &w, Vector3D const &o, Vector3D const &d, double R) {
    std::vector<int> p1 = {0, 1, 2}, p2 = {2, 0, 1}; if (w.v.size() != 3) { p1.clear(); p2.clear(); for (size_t i = 0; i < w.v.size(); ++i) p1.push_back(i), p2.push_back(w.v.size() - 1 - i); }
    for (int f1 = 0; f1 < 3; ++f1) for (int q = 0; q < 2; ++q) {
        Det A = build(w, p1, frames()[f1]), B = build(w, p2, frames()[f1]); Line LA{A.M, o, d, {}}, LB{B.M, o, d, {}}; if (!segments(A.M, o, d, R, LA.s) || !segments(B.M, o, d, R, LB.s)) continue;
        auto one = [](int) { return 1.0; };
        for (double a : {0.2, 0.45}) for (double b : {0.55, 0.9}) for (int frame = 0; frame < 2; ++frame) {
            ++vc::R.states; vc::trace(); vc::step(4); Path p(A.d); if (frame) p.SetPoints(A.P(o + d * (a * R)), A.P(o + d * (b * R))); else p.SetPoints(GeometryPosition(o + d * (a * R)), GeometryPosition(o + d * (b * R)));
            bool c1, c2; A.M.at(o + d * (a * R), c1); A.M.at(o + d * (b * R), c2); if (!c1 || !c2) continue; std::string h = vc::cat(A.name, " from ", sv(o), " along ", sv(d), " ", a, " to ", b);
            double wa = 100 * (LA.depth(b * R, one) - LA.depth(a * R, one)), wb = 100 * (LB.depth(b * R, one) - LB.depth(a * R, one));
            if (q) VC_EXPECT(near(p.GetColumnDepthInBounds(), wa, QT, 1e-6), "depth-before-change", h);
            p.SetDetectorModel(B.d); double g = p.GetColumnDepthInBounds(); VC_EXPECT(near(g, wb, QT, 1e-6), "depth-after-change", h, q ? " after a query" : "", " gives ", g, " expected ", wb, " (before the change ", wa, ")");
            p.SetDetectorModel(A.d); VC_EXPECT(near(p.GetColumnDepthInBounds(), wa, QT, 1e-6), "depth-after-change-back", h);
        }
    }
}
// a path that is moved to another line answers for the line it is on now, however it is moved and whatever it was asked before
static void moves(World const &w, std::vector<std::pair<Vector3D, Vector3D>> const &lines, double R, int fr) {
    std::vector<int> pr; for (size_t i = 0; i < w.v.size(); ++i) pr.push_back(i); Det D = build(w, pr, frames()[fr]); auto one = [](int) { return 1.0; }; std::vector<Line> L; for (auto &l : lines) { Line q{D.M, l.first, l.second, {}}; if (segments(D.M, l.first, l.second, R, q.s)) L.push_back(q); }
    VC_EXPECT(L.size() > 2, "lines", w.name); auto put = [&](Path &p, Line const &l, int how, double a, double b) { Vector3D A = l.o + l.d * (a * R), B = l.o + l.d * (b * R); if (how == 0) p.SetPoints(GeometryPosition(A), GeometryPosition(B)); if (how == 1) p.SetPoints(D.P(A), D.P(B)); if (how == 2) p.SetPointsWithRay(GeometryPosition(A), GeometryDirection(l.d), (b - a) * R); if (how == 3) p.SetPointsWithRay(D.P(A), D.D(l.d), (b - a) * R); };
    auto ask = [&](Path &p, Line const &l, double a, double b, std::string const &h) { bool c1, c2; D.M.at(l.o + l.d * (a * R), c1); D.M.at(l.o + l.d * (b * R), c2); if (!c1 || !c2) return; double want = 100 * (l.depth(b * R, one) - l.depth(a * R, one)), got = p.GetColumnDepthInBounds(); VC_EXPECT(near(got, want, QT, 1e-6), "depth-after-move", h, ": ", got, " expected ", want); double m = 0.5 * (b - a) * R, wh = 100 * (l.depth(a * R + m, one) - l.depth(a * R, one)), gh = p.GetColumnDepthFromStartInBounds(m); VC_EXPECT(near(gh, wh, QT, 1e-4), "depth-after-move", h, ": half way ", gh, " expected ", wh); };
    for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) for (int h1 = 0; h1 < 4; ++h1) for (int h2 = 0; h2 < 4; ++h2) for (int q = 0; q < 4; ++q) for (double a : {0.12, 0.4}) { ++vc::R.states; vc::trace(); vc::step(3); ++vc::R.evaluations; double b = a + 0.45; std::string h = vc::cat(D.name, " line ", i, " set by ", h1, " then line ", j, " set by ", h2, " from ", a, q & 1 ? " queried" : ""); vc::note(h);
        Path p(D.d); put(p, L[i], h1, 0.2, 0.8); if (q & 1) ask(p, L[i], 0.2, 0.8, h + " (before)"); if (q & 2) p.Flip(); put(p, L[j], h2, a, b); ask(p, L[j], a, b, h); Vector3D A = L[j].o + L[j].d * (a * R), B = L[j].o + L[j].d * (b * R); VC_EXPECT(closeness(p.GetGeoFirstPoint().get(), A) < 1e-6 && closeness(p.GetGeoLastPoint().get(), B) < 1e-6 && closeness(p.GetFirstPoint().get(), D.P(A).get()) < 1e-6 && closeness(p.GetLastPoint().get(), D.P(B).get()) < 1e-6, "points-after-move", h); p.ClipToOuterBounds(); double len = p.GetDistance(); double lo = 1e300, hi = -1e300; for (auto &sg : L[j].s) if (sg.v >= 0) lo = std::min(lo, sg.a), hi = std::max(hi, sg.b); double wl = std::max(0.0, std::min(b * R, hi) - std::max(a * R, lo)); if (lo < hi) VC_EXPECT(std::fabs(len - wl) < 1e-5, "clip-after-move", h, ": ", len, " expected ", wl); } }
// shrinking and extending to a length or depth reaches exactly it, however little that changes
static void fine(Ctx const &c) {
    for (int rev = 0; rev < 2; ++rev) for (double a : {0.22, 0.37}) for (double b : {0.6, 0.71}) for (int what = 0; what < 3; ++what) for (int op = 0; op < 4; ++op) for (double f : {0.0, 0.5, 0.9, 0.99, 0.999, 0.9999, 1.0, 1.0001, 1.001, 1.01, 1.1}) { double s0 = (rev ? b : a) * c.R, s1 = (rev ? a : b) * c.R; St s; s.a = s0; s.b = s1; s.s = rev ? -1 : 1; if (!clear(c, s)) continue; Vector3D A = c.o + c.d * s0, B = c.o + c.d * s1; Path p(c.w[0].D.d, GeometryPosition(A), GeometryPosition(B)); auto &T = c.md.t; auto &X = c.md.x; double dl = c.md.dl;
        auto now = [&](Path &q) { double u = proj(c, q.GetGeoFirstPoint().get()), v = proj(c, q.GetGeoLastPoint().get()); return what == 0 ? std::fabs(v - u) : what == 1 ? c.col(0, u, v) : c.inter(0, u, v); }; double have = now(p), to = f * have, want = op < 2 ? std::max(have, to) : std::min(have, to); ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; std::string h = vc::cat(c.w[0].D.name, rev ? " backwards " : " ", a, "..", b, " quantity ", what, " operation ", op, " to ", f, " of what it has"); vc::note(h);
        if (what == 0) { if (op == 0) p.ExtendFromEndToDistance(to); if (op == 1) p.ExtendFromStartToDistance(to); if (op == 2) p.ShrinkFromEndToDistance(to); if (op == 3) p.ShrinkFromStartToDistance(to); }
        if (what == 1) { if (op == 0) p.ExtendFromEndToColumnDepth(to); if (op == 1) p.ExtendFromStartToColumnDepth(to); if (op == 2) p.ShrinkFromEndToColumnDepth(to); if (op == 3) p.ShrinkFromStartToColumnDepth(to); }
        if (what == 2) { if (op == 0) p.ExtendFromEndToInteractionDepth(to, T, X, dl); if (op == 1) p.ExtendFromStartToInteractionDepth(to, T, X, dl); if (op == 2) p.ShrinkFromEndToInteractionDepth(to, T, X, dl); if (op == 3) p.ShrinkFromStartToInteractionDepth(to, T, X, dl); }
        double u = proj(c, p.GetGeoFirstPoint().get()), v = proj(c, p.GetGeoLastPoint().get()); if (u < 0.01 || u > c.R - 0.01 || v < 0.01 || v > c.R - 0.01) { vc::count("left_the_world"); continue; } double got = now(p); VC_EXPECT(std::fabs(got - want) <= 2e-5 * have, "to", h, ": ", got, " expected ", want); VC_EXPECT(closeness(op == 0 || op == 2 ? p.GetGeoFirstPoint().get() : p.GetGeoLastPoint().get(), op == 0 || op == 2 ? A : B) < 1e-7, "other-end", h); } }
// points given in the detector's frame stay there when the detector they belong to is exchanged for one placed differently
static void frames_change(World const &w, Vector3D const &o, Vector3D const &d, double R) {
    std::vector<int> pr; for (size_t i = 0; i < w.v.size(); ++i) pr.push_back(i); for (int f1 = 0; f1 < 3; ++f1) for (int f2 = 0; f2 < 3; ++f2) for (int ray = 0; ray < 2; ++ray) for (int q = 0; q < 2; ++q) { Det A = build(w, pr, frames()[f1]), B = build(w, pr, frames()[f2]); Vector3D P = o + d * (0.2 * R), Q = o + d * (0.75 * R); DetectorPosition a = A.P(P), b = A.P(Q); Path p(A.d); if (ray) p.SetPointsWithRay(a, A.D(d), 0.55 * R); else p.SetPoints(a, b); ++vc::R.states; vc::trace(); vc::step(2); ++vc::R.evaluations; if (q) p.GetColumnDepthInBounds(); p.SetDetectorModel(B.d); std::string h = vc::cat(w.name, " frame ", f1, " to ", f2, ray ? " ray" : " points", q ? " queried" : "");
        VC_EXPECT(closeness(p.GetFirstPoint().get(), a.get()) < 1e-6 && closeness(p.GetLastPoint().get(), b.get()) < 1e-6, "detector-frame-points-moved", h); Vector3D GA = B.d->ToGeo(a).get(), GB = B.d->ToGeo(b).get(); VC_EXPECT(closeness(p.GetGeoFirstPoint().get(), GA) < 1e-6 && closeness(p.GetGeoLastPoint().get(), GB) < 1e-6, "geometry-points-stale", h); Path fresh(B.d, GeometryPosition(GA), GeometryPosition(GB)); double g = p.GetColumnDepthInBounds(), want = fresh.GetColumnDepthInBounds(); VC_EXPECT(near(g, want, QT, 1e-6), "depth-after-frame-change", h, ": ", g, " expected ", want); } }
int main(int argc, char **argv) {
    std::vector<vc::Case> cases; static auto W = worlds();
    struct L { size_t w; Vector3D o, d; int fr; };
    std::vector<L> lines = {{0, Vector3D(-13, 1.3, -0.7), Vector3D(1, 0.05, 0.1), 2}, {1, Vector3D(9, -6.3, 2.2), Vector3D(-1, 0.8, -0.2), 1}, {3, Vector3D(-14, 0.2, -1.4), Vector3D(1, 0.02, 0.12), 2}, {7, Vector3D(-7, -6.4, 0.3), Vector3D(0.8, 0.83, -0.03), 1}};
    for (auto l : lines) for (int st = 0; st < 5; ++st) for (int pk = 0; pk < 2; ++pk) for (int part = 0; part < 4; ++part) {
        cases.push_back({vc::cat(W[l.w].name, "_start", st, pk ? "_peek" : "", "_", part), [=] {
            Ctx c; c.d = l.d; c.d.normalize(); c.o = l.o; c.R = 2.4 * W[l.w].size; std::vector<int> p; for (size_t i = 0; i < W[l.w].v.size(); ++i) p.push_back(i);
            c.md = {{targets()[0], targets()[2]}, {XS[0], XS[2]}, 30.0}; for (auto &x : c.md.x) x *= 1e-20;
            World2 w2; w2.D = build(W[l.w], p, frames()[l.fr]); bool fine = segments(w2.D.M, c.o, c.d, c.R, w2.seg); VC_EXPECT(fine && w2.seg.size() > 3, "line", c.w.size()); if (!fine) return; c.w.push_back(w2);
            for (int f = part; f < OPS; f += 4) explore(c, st, f, vc::thorough() ? 3 : 2, pk); }});
    }
    for (auto l : lines) cases.push_back({W[l.w].name + "_models", [=] { Vector3D d = l.d; d.normalize(); models(W[l.w], l.o, d, 2.4 * W[l.w].size); }});
    for (auto l : lines) { cases.push_back({W[l.w].name + "_moves", [=] { double R = 2.4 * W[l.w].size; Vector3D d = l.d; d.normalize(); Vector3D mid = l.o + d * (0.5 * R); std::vector<std::pair<Vector3D, Vector3D>> v = {{l.o, d}}; for (Vector3D e : {Vector3D(d.GetX(), d.GetY() + 0.2, d.GetZ() - 0.1), Vector3D(0.3, 0.9, 0.15), Vector3D(-0.2, 0.25, 1)}) { e.normalize(); v.push_back({mid - e * (0.5 * R), e}); } v.push_back({l.o + Vector3D(0.1, 0.35, 0.42), d}); for (double t : {0.01, 0.15}) { Vector3D e(d.GetX() - t, d.GetY() + t, d.GetZ() + 0.5 * t); e.normalize(); v.push_back({l.o + d * (0.4 * R) - e * (0.4 * R), e}); } moves(W[l.w], v, R, l.fr); }});
        cases.push_back({W[l.w].name + "_frames", [=] { Vector3D d = l.d; d.normalize(); frames_change(W[l.w], l.o, d, 2.4 * W[l.w].size); }});
        cases.push_back({W[l.w].name + "_fine", [=] { Ctx c; c.d = l.d; c.d.normalize(); c.o = l.o; c.R = 2.4 * W[l.w].size; std::vector<int> p; for (size_t i = 0; i < W[l.w].v.size(); ++i) p.push_back(i); c.md = {{targets()[0], targets()[2]}, {XS[0], XS[2]}, 30.0}; for (auto &x : c.md.x) x *= 1e-20; World2 w2; w2.D = build(W[l.w], p, frames()[l.fr]); if (!segments(w2.D.M, c.o, c.d, c.R, w2.seg)) return; c.w.push_back(w2); fine(c); }}); }
    return vc::run(argc, argv, cases);
}
