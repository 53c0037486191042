// A catalogue of shapes, each with an independent membership function: positive inside, negative outside, with a
// magnitude that goes to zero at the surface.
#pragma once
#include <array>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/geometry/Placement.h"
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/geometry/Cone.h"
#include "SIREN/geometry/Torus.h"
#include "SIREN/geometry/Trd.h"
#include "SIREN/geometry/Trap.h"
#include "SIREN/geometry/Para.h"
#include "SIREN/geometry/Ellipsoid.h"
#include "SIREN/geometry/EllipticalTube.h"
#include "SIREN/geometry/CutTube.h"
#include "SIREN/geometry/Polycone.h"
#include "SIREN/geometry/GenericPolycone.h"
#include "SIREN/geometry/Polyhedra.h"
#include "SIREN/geometry/ExtrPoly.h"
#include "SIREN/geometry/BooleanGeometry.h"
#include "SIREN/geometry/GeometryMesh.h"
namespace shapes {
using namespace siren::geometry;
using siren::math::Vector3D;
using siren::math::Quaternion;
typedef std::function<double(double, double, double)> Margin;
struct Shape { std::string name; std::shared_ptr<const Geometry> g; Margin m; double size; std::vector<double> xs, ys, zs; };  // special coordinates
const double INF = 1e300, PI = M_PI;
inline double norm2pi(double a) { a = std::fmod(a, 2 * PI); return a < 0 ? a + 2 * PI : a; }
inline bool &uncut() { static bool u = false; return u; }   // evaluate the solid as if it had no azimuthal cut
inline double phim(double x, double y, double sp, double dp) {
    if (uncut() || dp >= 2 * PI - 1e-9) return INF;
    double rho = std::hypot(x, y), rel = norm2pi(std::atan2(y, x) - sp);
    double a = rel <= dp ? std::min(rel, dp - rel) : -std::min(rel - dp, 2 * PI - rel);
    return rho * std::sin(std::max(-PI / 2, std::min(PI / 2, a)));
}
inline double thetam(double x, double y, double z, double st, double dt) {
    double r = std::sqrt(x * x + y * y + z * z); if (r == 0) return 0;
    double th = std::acos(std::max(-1.0, std::min(1.0, z / r)));
    double a = INF; if (st > 1e-9) a = std::min(a, th - st); if (st + dt < PI - 1e-9) a = std::min(a, st + dt - th);
    if (a == INF) return INF;
    return r * std::sin(std::max(-PI / 2, std::min(PI / 2, a)));
}
inline double segdist(double px, double py, double ax, double ay, double bx, double by) {
    double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? std::max(0.0, std::min(1.0, ((px - ax) * dx + (py - ay) * dy) / l)) : 0;
    return std::hypot(px - ax - t * dx, py - ay - t * dy);
}
inline double polym(double x, double y, std::vector<std::array<double, 2>> const &p) {   // any simple polygon
    bool in = false; double d = INF;
    for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
        if ((p[i][1] > y) != (p[j][1] > y) && x < (p[j][0] - p[i][0]) * (y - p[i][1]) / (p[j][1] - p[i][1]) + p[i][0]) in = !in;
        d = std::min(d, segdist(x, y, p[i][0], p[i][1], p[j][0], p[j][1]));
    }
    return in ? d : -d;
}
// stacked sections with linearly interpolated radii; fo(rho-like, z-section interpolation)
inline double stackm(double q, double z, std::vector<double> const &zp, std::vector<double> const &rmin, std::vector<double> const &rmax) {
    double lo = zp.front(), hi = zp.back();
    if (z <= lo || z >= hi) return -std::max(lo - z, z - hi);
    double best = -INF, edge = INF;
    for (double v : zp) edge = std::min(edge, std::fabs(z - v));
    for (size_t k = 0; k + 1 < zp.size(); ++k) {
        if (!(z >= zp[k] && z <= zp[k + 1]) || zp[k] == zp[k + 1]) continue;
        double f = (z - zp[k]) / (zp[k + 1] - zp[k]), a = rmin[k] + f * (rmin[k + 1] - rmin[k]), b = rmax[k] + f * (rmax[k + 1] - rmax[k]);
        double m = b - q; if (rmin[k] > 0 || rmin[k + 1] > 0) m = std::min(m, q - a);
        best = std::max(best, m);
    }
    double s = best > 0 ? 1 : -1;
    return s * std::min(std::fabs(best), edge);
}
inline std::vector<std::array<Vector3D, 3>> tri(std::vector<Vector3D> const &v, std::vector<std::array<int, 3>> const &f) { std::vector<std::array<Vector3D, 3>> o; for (auto &t : f) o.push_back({v[t[0]], v[t[1]], v[t[2]]}); return o; }
inline std::vector<std::array<Vector3D, 3>> boxmesh(double hx, double hy, double hz, int n, double cx = 0, double cy = 0, double cz = 0) {
    std::vector<std::array<Vector3D, 3>> o; double h[3] = {hx, hy, hz}, c[3] = {cx, cy, cz};
    for (int ax = 0; ax < 3; ++ax) for (int s = -1; s <= 1; s += 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        int u = (ax + 1) % 3, v = (ax + 2) % 3;
        auto P = [&](int a, int b) { double q[3]; q[ax] = c[ax] + s * h[ax]; q[u] = c[u] + h[u] * (2.0 * a / n - 1); q[v] = c[v] + h[v] * (2.0 * b / n - 1); return Vector3D(q[0], q[1], q[2]); };
        Vector3D A = P(i, j), B = P(i + 1, j), C = P(i + 1, j + 1), D = P(i, j + 1);
        if (s > 0) { o.push_back({A, B, C}); o.push_back({A, C, D}); } else { o.push_back({A, C, B}); o.push_back({A, D, C}); }
    }
    return o;
}
inline double boxm(double x, double y, double z, double hx, double hy, double hz) { return std::min({hx - std::fabs(x), hy - std::fabs(y), hz - std::fabs(z)}); }
inline std::vector<Shape> catalogue() {
    std::vector<Shape> S;
    auto add = [&](std::string n, std::shared_ptr<const Geometry> g, Margin m, double size, std::vector<double> xs, std::vector<double> ys, std::vector<double> zs) { S.push_back({n, g, m, size, xs, ys, zs}); };
    struct PC { double s, d; };
    std::vector<PC> pcs = {{0, PI / 2}, {-PI / 4, PI / 2}, {PI / 3, PI}, {3 * PI / 2, PI}, {0.3, 1.6 * PI}, {-2.5, 0.4}, {0, 2 * PI}};
    // boxes
    for (auto b : std::vector<std::array<double, 3>>{{2, 2, 2}, {1, 2, 4}, {0.01, 3, 3}})
        add(vc::cat("Box(", b[0], ",", b[1], ",", b[2], ")"), std::make_shared<Box>(b[0], b[1], b[2]), [b](double x, double y, double z) { return boxm(x, y, z, b[0] / 2, b[1] / 2, b[2] / 2); }, 2, {-b[0] / 2, b[0] / 2}, {-b[1] / 2, b[1] / 2}, {-b[2] / 2, b[2] / 2});
    // spheres
    for (double ri : {0.0, 0.8}) {
        add(vc::cat("Sphere(2,", ri, ")"), std::make_shared<Sphere>(2, ri), [ri](double x, double y, double z) { double r = std::sqrt(x * x + y * y + z * z); return ri > 0 ? std::min(2 - r, r - ri) : 2 - r; }, 2, {-2, 2, -ri, ri}, {-2, 2}, {-2, 2, ri});
        for (auto p : pcs) for (auto t : std::vector<PC>{{0, PI}, {0, PI / 2}, {PI / 4, PI / 2}, {PI / 2, PI / 2}, {0, PI / 3}, {2.2, PI - 2.2}, {PI / 6, PI / 12}}) {
            if (p.d == 2 * PI && t.d == PI) continue;
            if (ri > 0 && p.s == PI / 3) continue;
            add(vc::cat("Sphere(2,", ri, ",", p.s, ",", p.d, ",", t.s, ",", t.d, ")"), std::make_shared<Sphere>(2, ri, p.s, p.d, t.s, t.d),
                [=](double x, double y, double z) { double r = std::sqrt(x * x + y * y + z * z); double m = std::min({2 - r, phim(x, y, p.s, p.d), thetam(x, y, z, t.s, t.d)}); return ri > 0 ? std::min(m, r - ri) : m; }, 2, {-2, 0, ri}, {0, 2}, {0, 1});
        }
    }
    // cylinders
    for (double ri : {0.0, 0.7}) for (auto p : pcs)
        add(vc::cat("Cylinder(1.5,", ri, ",3,", p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<Cylinder>(1.5, ri, 3) : std::make_shared<Cylinder>(1.5, ri, 3, p.s, p.d),
            [=](double x, double y, double z) { double r = std::hypot(x, y), m = std::min({1.5 - r, 1.5 - std::fabs(z), phim(x, y, p.s, p.d)}); return ri > 0 ? std::min(m, r - ri) : m; }, 2, {-1.5, 1.5, 0, ri}, {-1.5, 0, ri}, {-1.5, 1.5, 0});
    // cones
    for (auto c : std::vector<std::array<double, 4>>{{0, 1.5, 0, 0.5}, {0, 0, 0, 1.5}, {0.5, 1.5, 0.2, 0.8}, {0, 1.5, 0.5, 1}, {0.5, 1, 0, 2}, {0.3, 1, 0.3, 1}, {0, 1.2, 0, 0}, {0.5, 1.0, 1.5, 2.0}}) for (auto p : pcs) {
        if (p.d != 2 * PI && p.s != 0 && p.s != 0.3 && p.s != PI / 3) continue;
        add(vc::cat("Cone(", c[0], ",", c[1], ",", c[2], ",", c[3], ",3,", p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<Cone>(c[0], c[1], c[2], c[3], 3) : std::make_shared<Cone>(c[0], c[1], c[2], c[3], 3, p.s, p.d),
            [=](double x, double y, double z) { double r = std::hypot(x, y), f = (z + 1.5) / 3, m = std::min({c[1] + f * (c[3] - c[1]) - r, 1.5 - std::fabs(z), phim(x, y, p.s, p.d)}); return c[0] > 0 || c[2] > 0 ? std::min(m, r - c[0] - f * (c[2] - c[0])) : m; }, 2, {-1.5, 0, 0.5}, {0, 1}, {-1.5, 1.5, 0});
    }
    // tori
    for (auto c : std::vector<std::array<double, 3>>{{2, 0.5, 0}, {1.5, 0.7, 0.3}}) for (auto p : pcs)
        add(vc::cat("Torus(", c[0], ",", c[1], ",", c[2], ",", p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<Torus>(c[0], c[1], c[2]) : std::make_shared<Torus>(c[0], c[1], c[2], p.s, p.d),
            [=](double x, double y, double z) { double q = std::hypot(std::hypot(x, y) - c[0], z), m = std::min(c[1] - q, phim(x, y, p.s, p.d)); return c[2] > 0 ? std::min(m, q - c[2]) : m; }, 2.5, {c[0], 0, c[0] + c[1]}, {0, c[0]}, {0, c[1]});
    // trapezoids
    for (auto t : std::vector<std::array<double, 5>>{{1, 1, 1, 1, 1}, {1.5, 0.5, 1, 1, 1}, {1.5, 0.5, 0.3, 1.2, 1}, {1.5, 0, 1, 0, 1}, {0, 1.5, 1, 1, 2}})
        add(vc::cat("Trd(", t[0], ",", t[1], ",", t[2], ",", t[3], ",", t[4], ")"), std::make_shared<Trd>(t[0], t[1], t[2], t[3], t[4]),
            [t](double x, double y, double z) { double f = (z + t[4]) / (2 * t[4]); return std::min({t[0] + f * (t[1] - t[0]) - std::fabs(x), t[2] + f * (t[3] - t[2]) - std::fabs(y), t[4] - std::fabs(z)}); }, 1.5, {-t[0], t[1], 0}, {t[2], -t[3], 0}, {-t[4], t[4], 0});
    struct T { double dz, th, ph, dy1, dx1, dx2, al1, dy2, dx3, dx4, al2; };
    for (auto t : std::vector<T>{{1, 0, 0, 1, 1, 1, 0, 1, 1, 1, 0}, {1, 0.3, 0.5, 1, 0.8, 1.2, 0.2, 1, 0.8, 1.2, 0.2}, {1.5, 0.2, -1, 1, 0.5, 1.5, 0.1, 0.5, 0.25, 0.75, 0.1}, {1, 0, 0, 1, 0.5, 1.5, 0, 1, 0.5, 1.5, 0}})
        add(vc::cat("Trap(", t.dz, ",", t.th, ",", t.ph, ",", t.dy1, ",", t.dx1, ",", t.dx2, ",", t.al1, ",", t.dy2, ",", t.dx3, ",", t.dx4, ",", t.al2, ")"), std::make_shared<Trap>(t.dz, t.th, t.ph, t.dy1, t.dx1, t.dx2, t.al1, t.dy2, t.dx3, t.dx4, t.al2),
            [t](double x, double y, double z) { double f = (z + t.dz) / (2 * t.dz), dy = t.dy1 + f * (t.dy2 - t.dy1), xc = z * std::tan(t.th) * std::cos(t.ph), yc = z * std::tan(t.th) * std::sin(t.ph), yy = y - yc;
                double w1 = t.dx1 + f * (t.dx3 - t.dx1), w2 = t.dx2 + f * (t.dx4 - t.dx2), w = w1 + (yy + dy) / (2 * dy) * (w2 - w1), xx = x - xc - yy * std::tan(t.al1);
                return std::min({t.dz - std::fabs(z), dy - std::fabs(yy), (w - std::fabs(xx)) * 0.7}); }, 1.5, {-t.dx1, t.dx2, 0}, {t.dy1, 0}, {-t.dz, t.dz, 0});
    for (auto t : std::vector<std::array<double, 6>>{{1, 1, 1, 0, 0, 0}, {1, 1.5, 0.7, 0.4, 0.3, 1.1}, {0.5, 1, 1, -0.5, 0.6, -2}})
        add(vc::cat("Para(", t[0], ",", t[1], ",", t[2], ",", t[3], ",", t[4], ",", t[5], ")"), std::make_shared<Para>(t[0], t[1], t[2], t[3], t[4], t[5]),
            [t](double x, double y, double z) { double e3z = t[2], w = z / e3z; double xx = x - z * std::tan(t[4]) * std::cos(t[5]), yy = y - z * std::tan(t[4]) * std::sin(t[5]); double v = yy / t[1], u = (xx - v * t[1] * std::tan(t[3])) / t[0];
                return 0.5 * std::min({(1 - std::fabs(u)) * t[0], (1 - std::fabs(v)) * t[1], (1 - std::fabs(w)) * e3z}); }, 1.5, {-t[0], t[0], 0}, {t[1], 0}, {t[2], 0});
    for (auto t : std::vector<std::array<double, 5>>{{1, 1, 1, -1, 1}, {1, 2, 1.5, -1.5, 1.5}, {2, 1, 1.5, -0.5, 1}, {1, 1, 2, 0.5, 1.5}, {1.5, 1.2, 1, -1, -0.2}})
        add(vc::cat("Ellipsoid(", t[0], ",", t[1], ",", t[2], ",", t[3], ",", t[4], ")"), t[3] == -t[2] && t[4] == t[2] ? std::make_shared<Ellipsoid>(t[0], t[1], t[2]) : std::make_shared<Ellipsoid>(t[0], t[1], t[2], t[3], t[4]),
            [t](double x, double y, double z) { double F = std::sqrt(x * x / t[0] / t[0] + y * y / t[1] / t[1] + z * z / t[2] / t[2]); return std::min({(1 - F) * std::min({t[0], t[1], t[2]}), z - t[3], t[4] - z}); }, 2, {-t[0], t[0], 0}, {t[1], 0}, {t[3], t[4], 0});
    for (auto t : std::vector<std::array<double, 3>>{{1, 1, 1}, {1, 2, 1.5}, {2, 0.5, 1}})
        add(vc::cat("EllipticalTube(", t[0], ",", t[1], ",", t[2], ")"), std::make_shared<EllipticalTube>(t[0], t[1], t[2]),
            [t](double x, double y, double z) { double F = std::sqrt(x * x / t[0] / t[0] + y * y / t[1] / t[1]); return std::min((1 - F) * std::min(t[0], t[1]), t[2] - std::fabs(z)); }, 2, {-t[0], t[0], 0}, {t[1], 0}, {-t[2], t[2], 0});
    for (auto n : std::vector<std::array<Vector3D, 2>>{{Vector3D(0, 0, -1), Vector3D(0, 0, 1)}, {Vector3D(0.3, 0.1, -1), Vector3D(-0.2, 0.4, 1)}, {Vector3D(0.5, 0, -1), Vector3D(0.5, 0, 1)}}) for (double ri : {0.0, 0.6}) for (auto p : pcs) {
        if (p.d != 2 * PI && p.s != 0 && p.s != 0.3 && p.s != PI / 3) continue;
        Vector3D l = n[0] / n[0].magnitude(), h = n[1] / n[1].magnitude(); double lx = l.GetX(), ly = l.GetY(), lz = l.GetZ(), hx = h.GetX(), hy = h.GetY(), hz = h.GetZ();
        add(vc::cat("CutTube(", ri, ",1.2,1.5,low ", n[0].GetX(), ",", n[0].GetY(), " high ", n[1].GetX(), ",", n[1].GetY(), ",", p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<CutTube>(ri, 1.2, 1.5, n[0], n[1]) : std::make_shared<CutTube>(ri, 1.2, 1.5, n[0], n[1], p.s, p.d),
            [=](double x, double y, double z) { double r = std::hypot(x, y), m = std::min({1.2 - r, -(x * hx + y * hy + (z - 1.5) * hz), -(x * lx + y * ly + (z + 1.5) * lz), phim(x, y, p.s, p.d)}); return ri > 0 ? std::min(m, r - ri) : m; }, 2, {-1.2, 1.2, 0, ri}, {0, ri}, {-1.5, 1.5, 0});
    }
    struct PCn { std::vector<double> z, a, b; };
    std::vector<PCn> stacks = {{{-1, 1}, {0, 0}, {1, 1}}, {{-1, 0, 1.5}, {0, 0, 0}, {1, 1.5, 0.5}}, {{-1, 0, 1}, {0.3, 0.5, 0.2}, {1, 1.5, 0.8}}, {{-1, 0, 0, 1}, {0, 0, 0, 0}, {1, 1, 0.5, 0.5}}, {{-1, 0, 0, 1}, {0.2, 0.2, 0.6, 0.6}, {1.5, 1.5, 1, 1}}, {{-1, 0.5, 1.5}, {0, 0, 0}, {0, 1.5, 0}}, {{-1, -0.5, 0.5, 1}, {0, 0.4, 0.4, 0}, {1.5, 0.8, 0.8, 1.5}}};
    for (auto &s : stacks) for (auto p : pcs) {
        if (p.d != 2 * PI && p.s != 0 && p.s != 0.3 && p.s != PI / 3) continue;
        std::string n; for (size_t i = 0; i < s.z.size(); ++i) n += vc::cat(s.z[i], ":", s.a[i], ":", s.b[i], " ");
        add(vc::cat("Polycone(", n, p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<Polycone>(s.z, s.a, s.b) : std::make_shared<Polycone>(s.z, s.a, s.b, p.s, p.d),
            [=](double x, double y, double z) { return std::min(stackm(std::hypot(x, y), z, s.z, s.a, s.b), phim(x, y, p.s, p.d)); }, 1.7, {-s.b[0], 0, s.b[1]}, {0, s.b[1], s.a[1]}, {s.z[0], s.z[1], s.z.back()});
        for (int ns : {3, 4, 6}) {
            if (ns == 6 && (&s - &stacks[0]) % 2) continue;
            double dphi = p.d / ns;
            if (dphi >= PI) continue;
            auto pg = p.d == 2 * PI ? std::make_shared<Polyhedra>(ns, p.s + 0.2, s.z, s.a, s.b) : std::make_shared<Polyhedra>(ns, p.s + 0.2, s.z, s.a, s.b, p.d);
            double sp = p.s + 0.2;
            add(vc::cat("Polyhedra(", ns, ",", sp, ",", n, p.d, ")"), pg, [=](double x, double y, double z) {
                double rho = std::hypot(x, y), rel = norm2pi(std::atan2(y, x) - sp);
                if (rel > p.d && !uncut()) { double pm = phim(x, y, sp, p.d); return pm; }
                int k = std::min(ns - 1, int(rel / dphi)); double q = rho * std::cos(rel - (k + 0.5) * dphi);
                return std::min(stackm(q, z, s.z, s.a, s.b) * 0.5, phim(x, y, sp, p.d)); }, 2, {-s.b[0], 0, s.b[1]}, {0, s.b[1]}, {s.z[0], s.z[1], s.z.back()});
        }
    }
    std::vector<std::vector<std::array<double, 2>>> gp = {{{0, -1}, {1, -1}, {1, 1}, {0, 1}}, {{0.5, -1}, {1.5, -1}, {1, 0}, {1.5, 1}, {0.5, 1}}, {{0, -1}, {1.5, 0}, {0, 1}}, {{0.4, -1}, {1.5, -0.5}, {0.9, 0}, {1.4, 0.8}, {0.6, 1}, {0.3, 0.2}}, {{0, 1}, {1, 1}, {1, -1}, {0, -1}}};
    for (auto &s : gp) for (auto p : pcs) {
        if (p.d != 2 * PI && p.s != 0 && p.s != 0.3 && p.s != PI / 3) continue;
        std::string n; std::vector<double> r, z; for (auto &v : s) { n += vc::cat(v[0], ":", v[1], " "); r.push_back(v[0]); z.push_back(v[1]); }
        auto poly = s; // mirror polygons that touch the axis so that the axis is not a boundary
        bool axis = false; for (auto &v : s) axis = axis || v[0] == 0;
        std::vector<std::array<double, 2>> mir; for (auto &v : s) mir.push_back({-v[0], v[1]});
        add(vc::cat("GenericPolycone(", n, p.s, ",", p.d, ")"), p.d == 2 * PI ? std::make_shared<GenericPolycone>(r, z) : std::make_shared<GenericPolycone>(r, z, p.s, p.d),
            [=](double x, double y, double zz) { double rho = std::hypot(x, y); double m = polym(rho, zz, poly);
                if (axis && std::fabs(m) <= rho * 1.0000001 + 1e-12) { // distance to the axis edge is no distance to a surface
                    double d = INF; for (size_t i = 0, j = poly.size() - 1; i < poly.size(); j = i++) if (!(poly[i][0] == 0 && poly[j][0] == 0)) d = std::min(d, segdist(rho, zz, poly[i][0], poly[i][1], poly[j][0], poly[j][1]));
                    double mm = polym(rho + 1e-9, zz, poly); m = mm > 0 ? d : -d; }
                return std::min(m, phim(x, y, p.s, p.d)); }, 1.7, {-s[0][0], 0, s[1][0]}, {0, 1}, {-1, 0, 1});
    }
    // extruded polygons
    struct ZS { double z, ox, oy, s; };
    std::vector<std::vector<std::array<double, 2>>> pl = {{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, {{-1, -1}, {1, -1}, {0, 1.2}}, {{-1, -1}, {-1, 1}, {1, 1}, {1, -1}}, {{1, 0}, {0.5, 0.9}, {-0.5, 0.9}, {-1, 0}, {-0.5, -0.9}, {0.5, -0.9}}};
    std::vector<std::vector<ZS>> zs = {{{-1, 0, 0, 1}, {1, 0, 0, 1}}, {{-1, 0, 0, 1.5}, {1, 0.3, -0.2, 0.5}}, {{-1, 0, 0, 1}, {0, 0.4, 0, 1.3}, {1.5, 0, 0.3, 0.6}}, {{-1, 0, 0, 1}, {0, 0, 0, 1}, {0, 0, 0, 0.5}, {1, 0, 0, 0.5}}};
    for (size_t a = 0; a < pl.size(); ++a) for (size_t b = 0; b < zs.size(); ++b) {
        std::vector<std::vector<double>> P; for (auto &v : pl[a]) P.push_back({v[0], v[1]});
        std::vector<ExtrPoly::ZSection> Z; for (auto &v : zs[b]) { double o[2] = {v.ox, v.oy}; Z.push_back(ExtrPoly::ZSection(v.z, o, v.s)); }
        auto pp = pl[a]; auto zz = zs[b];
        add(vc::cat("ExtrPoly(poly ", a, ", sections ", b, ")"), std::make_shared<ExtrPoly>(P, Z), [pp, zz](double x, double y, double z) {
            if (z <= zz.front().z || z >= zz.back().z) return -std::max(zz.front().z - z, z - zz.back().z);
            double best = -INF, edge = INF; for (auto &v : zz) edge = std::min(edge, std::fabs(z - v.z));
            for (size_t k = 0; k + 1 < zz.size(); ++k) { if (!(z >= zz[k].z && z <= zz[k + 1].z) || zz[k].z == zz[k + 1].z) continue; double f = (z - zz[k].z) / (zz[k + 1].z - zz[k].z), s = zz[k].s + f * (zz[k + 1].s - zz[k].s), ox = zz[k].ox + f * (zz[k + 1].ox - zz[k].ox), oy = zz[k].oy + f * (zz[k + 1].oy - zz[k].oy);
                best = std::max(best, s * polym((x - ox) / s, (y - oy) / s, pp)); }
            return (best > 0 ? 1 : -1) * std::min(std::fabs(best) * 0.7, edge); }, 1.7, {-1, 0, 1}, {-1, 0, 1}, {zz[0].z, zz[1].z, zz.back().z});
    }
    // meshes
    for (int n : {1, 3}) add(vc::cat("Mesh(box ", n, ")"), std::make_shared<TriangularMesh>(boxmesh(1, 0.7, 1.3, n)), [](double x, double y, double z) { return boxm(x, y, z, 1, 0.7, 1.3); }, 1.5, {-1, 0, 1}, {-0.7, 0.7, 0}, {-1.3, 1.3, 0});
    { auto m = boxmesh(0.7, 0.7, 0.7, 2, -1, 0, 0), k = boxmesh(0.3, 0.3, 0.7, 1, 1, 0.1, 0); m.insert(m.end(), k.begin(), k.end());
      add("Mesh(two boxes)", std::make_shared<TriangularMesh>(m), [](double x, double y, double z) { return std::max(boxm(x + 1, y, z, 0.7, 0.7, 0.7), boxm(x - 1, y - 0.1, z, 0.3, 0.3, 0.7)); }, 2, {-1.7, -0.3, 0.7, 1.3}, {-0.7, 0, 0.4}, {-0.7, 0.7}); }
    { std::vector<Vector3D> v = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
      add("Mesh(octahedron)", std::make_shared<TriangularMesh>(tri(v, {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}})), [](double x, double y, double z) { return (1 - std::fabs(x) - std::fabs(y) - std::fabs(z)) / std::sqrt(3.0); }, 1.2, {-1, 0, 1}, {0, 0.5}, {-1, 0, 0.5}); }
    // combinations
    Quaternion q; q.SetAxisAngle(Vector3D(1, 2, 3) / std::sqrt(14.0), 0.7);
    Placement pr(Vector3D(0.5, -0.3, 0.2), q), pt(Vector3D(1, 0, 0));
    auto inPl = [](Placement pl, Margin m) { return [pl, m](double x, double y, double z) { Vector3D l = pl.GlobalToLocalPosition(Vector3D(x, y, z)); return m(l.GetX(), l.GetY(), l.GetZ()); }; };
    struct Pr { std::string n; std::shared_ptr<Geometry> a, b; Margin ma, mb; };
    Margin mb2 = [](double x, double y, double z) { return boxm(x, y, z, 1, 1, 1); }, ms = [](double x, double y, double z) { return 1 - std::sqrt(x * x + y * y + z * z); }, msh = [](double x, double y, double z) { double r = std::sqrt(x * x + y * y + z * z); return std::min(1 - r, r - 0.5); }, mc = [](double x, double y, double z) { return std::min(0.6 - std::hypot(x, y), 2 - std::fabs(z)); };
    std::vector<Pr> prs = {{"box,sphere@r", std::make_shared<Box>(2, 2, 2), std::make_shared<Sphere>(pr, 1, 0), mb2, inPl(pr, ms)}, {"box,box@x1", std::make_shared<Box>(2, 2, 2), std::make_shared<Box>(pt, 2, 2, 2), mb2, inPl(pt, mb2)}, {"box,box", std::make_shared<Box>(2, 2, 2), std::make_shared<Box>(2, 2, 2), mb2, mb2},
        {"shell,cylinder@r", std::make_shared<Sphere>(1, 0.5), std::make_shared<Cylinder>(pr, 0.6, 0, 4), msh, inPl(pr, mc)}, {"box@x1,cylinder", std::make_shared<Box>(pt, 2, 2, 2), std::make_shared<Cylinder>(0.6, 0, 4), inPl(pt, mb2), mc}, {"box,box far", std::make_shared<Box>(1, 1, 1), std::make_shared<Box>(Placement(Vector3D(2, 0, 0)), 1, 1, 1), [](double x, double y, double z) { return boxm(x, y, z, .5, .5, .5); }, [](double x, double y, double z) { return boxm(x - 2, y, z, .5, .5, .5); }},
        {"box,box touching", std::make_shared<Box>(2, 2, 2), std::make_shared<Box>(Placement(Vector3D(2, 0, 0)), 2, 2, 2), mb2, [](double x, double y, double z) { return boxm(x - 2, y, z, 1, 1, 1); }}};
    for (auto &p : prs) for (auto op : {BooleanOperation::UNION, BooleanOperation::SUBTRACTION, BooleanOperation::INTERSECTION}) {
        Margin a = p.ma, b = p.mb; Margin m; if (op == BooleanOperation::UNION) m = [a, b](double x, double y, double z) { return std::max(a(x, y, z), b(x, y, z)); }; else if (op == BooleanOperation::SUBTRACTION) m = [a, b](double x, double y, double z) { return std::min(a(x, y, z), -b(x, y, z)); }; else m = [a, b](double x, double y, double z) { return std::min(a(x, y, z), b(x, y, z)); };
        add(vc::cat("Boolean(", int(op), ",", p.n, ")"), std::make_shared<BooleanGeometry>(op, p.a, p.b), m, 2, {-1, 0, 1, 2}, {-1, 0, 1}, {-1, 0, 1});
    }
    { auto sub = std::make_shared<BooleanGeometry>(BooleanOperation::SUBTRACTION, std::make_shared<Box>(2, 2, 2), std::make_shared<Sphere>(1, 0)); sub->SetPlacement(pr); Margin m = inPl(pr, [=](double x, double y, double z) { return std::min(mb2(x, y, z), -ms(x, y, z)); });
      add("Boolean(nested)", std::make_shared<BooleanGeometry>(BooleanOperation::UNION, sub, std::make_shared<Cylinder>(0.6, 0, 4)), [=](double x, double y, double z) { return std::max(m(x, y, z), mc(x, y, z)); }, 2, {-1, 0, 1}, {0, 0.6}, {-1, 0, 2}); }
    return S;
}
}
