// Detector worlds with independent membership and density functions.
#pragma once
#include "shapes.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/Path.h"
#include "SIREN/detector/Coordinates.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/RadialAxisExponentialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/PolynomialDistribution1D.h"
#include "SIREN/detector/ExponentialDistribution1D.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/dataclasses/ParticleType.h"
namespace w3 {
using namespace shapes;
using namespace siren::detector;
using siren::dataclasses::ParticleType;
typedef std::function<double(Vector3D const &)> Field;
struct Vol { std::string name; std::shared_ptr<const Geometry> geo; Margin m; std::shared_ptr<const DensityDistribution> rho; Field f; int mat; };
struct World { std::string name; std::vector<Vol> v; double size; };
inline Margin moved(Margin m, Placement p) { return [m, p](double x, double y, double z) { Vector3D l = p.GlobalToLocalPosition(Vector3D(x, y, z)); return m(l.GetX(), l.GetY(), l.GetZ()); }; }
inline double norm(Vector3D const &a) { return std::sqrt(a.GetX() * a.GetX() + a.GetY() * a.GetY() + a.GetZ() * a.GetZ()); }
inline std::pair<std::shared_ptr<const DensityDistribution>, Field> density(int k) {
    switch (k % 6) {
        case 0: return {std::make_shared<ConstantDensityDistribution>(2.5), [](Vector3D const &) { return 2.5; }};
        case 1: return {std::make_shared<RadialAxisPolynomialDensityDistribution>(RadialAxis1D(Vector3D(0.3, -0.2, 0.1)), PolynomialDistribution1D(std::vector<double>{1.5, 0.2, 0.01})), [](Vector3D const &p) { double r = norm(p - Vector3D(0.3, -0.2, 0.1)); return 1.5 + 0.2 * r + 0.01 * r * r; }};
        case 2: return {std::make_shared<CartesianAxisExponentialDensityDistribution>(CartesianAxis1D(Vector3D(0, 0, 1), Vector3D(0, 0, 1)), ExponentialDistribution1D(0.2, 1, 0)), [](Vector3D const &p) { return std::exp(0.2 * (p.GetZ() - 1)); }};
        case 3: return {std::make_shared<ConstantDensityDistribution>(0.75), [](Vector3D const &) { return 0.75; }};
        case 4: return {std::make_shared<CartesianAxisPolynomialDensityDistribution>(CartesianAxis1D(Vector3D(0.6, 0.8, 0), Vector3D(-12, 0, 0)), PolynomialDistribution1D(std::vector<double>{3, 0.1})), [](Vector3D const &p) { return 3 + 0.1 * (0.6 * (p.GetX() + 12) + 0.8 * p.GetY()); }};
        default: return {std::make_shared<RadialAxisExponentialDensityDistribution>(RadialAxis1D(Vector3D(0, 0, 0)), ExponentialDistribution1D(-0.15, 1, 0)), [](Vector3D const &p) { return std::exp(-0.15 * norm(p)); }};
    }
}
inline Quaternion quat(Vector3D a, double w) { Quaternion q; q.SetAxisAngle(a / a.magnitude(), w); return q; }
inline std::vector<World> worlds() {
    std::vector<World> W; int dk = 0;
    auto sph = [](double r) { return Margin([r](double x, double y, double z) { return r - std::sqrt(x * x + y * y + z * z); }); };
    auto shell = [](double r, double i) { return Margin([=](double x, double y, double z) { double q = std::sqrt(x * x + y * y + z * z); return std::min(r - q, q - i); }); };
    auto box = [](double a, double b, double c) { return Margin([=](double x, double y, double z) { return boxm(x, y, z, a / 2, b / 2, c / 2); }); };
    auto cyl = [](double r, double h) { return Margin([=](double x, double y, double z) { return std::min(r - std::hypot(x, y), h / 2 - std::fabs(z)); }); };
    auto tor = [](double R, double r) { return Margin([=](double x, double y, double z) { return r - std::hypot(std::hypot(x, y) - R, z); }); };
    auto vol = [&](std::string n, std::shared_ptr<Geometry> g, Margin m, Placement p) { g->SetPlacement(p); auto d = density(dk); Vol v{n, g, moved(m, p), d.first, d.second, dk % 3}; ++dk; return v; };
    Placement O;
    W.push_back({"nested", {vol("a", std::make_shared<Sphere>(10, 0), sph(10), O), vol("b", std::make_shared<Box>(9, 8, 7), box(9, 8, 7), O), vol("c", std::make_shared<Cylinder>(2, 0, 5), cyl(2, 5), Placement(Vector3D(0.5, 0.5, 0)))}, 12});
    W.push_back({"overlap", {vol("a", std::make_shared<Sphere>(4, 0), sph(4), Placement(Vector3D(-2, 0, 0))), vol("b", std::make_shared<Box>(6, 5, 4), box(6, 5, 4), Placement(Vector3D(2, 1, 0))), vol("c", std::make_shared<Cylinder>(1.5, 0, 9), cyl(1.5, 9), Placement(Vector3D(0, 2, 1), quat(Vector3D(1, 2, 0.5), 0.9)))}, 8});
    W.push_back({"adjacent", {vol("a", std::make_shared<Box>(5, 6, 6), box(5, 6, 6), Placement(Vector3D(-2.5, 0, 0))), vol("b", std::make_shared<Box>(5, 6, 6), box(5, 6, 6), Placement(Vector3D(2.5, 0, 0))), vol("c", std::make_shared<Box>(4, 4, 3), box(4, 4, 3), Placement(Vector3D(0, 0, 4.5)))}, 8});
    W.push_back({"apart", {vol("a", std::make_shared<Sphere>(3, 1.5), shell(3, 1.5), Placement(Vector3D(-6, 1, 0))), vol("b", std::make_shared<Torus>(3, 1, 0), tor(3, 1), Placement(Vector3D(4, 0, 1), quat(Vector3D(1, 0, 0), 1.2))), vol("c", std::make_shared<Box>(2, 2, 2), box(2, 2, 2), Placement(Vector3D(4, 0.5, 1)))}, 10});
    W.push_back({"same", {vol("a", std::make_shared<Sphere>(5, 0), sph(5), O), vol("b", std::make_shared<Sphere>(5, 0), sph(5), O), vol("c", std::make_shared<Sphere>(6, 5), shell(6, 5), O)}, 8});
    { auto l = std::make_shared<Box>(6, 6, 6); auto r = std::make_shared<Sphere>(2.5, 0); auto far = std::make_shared<Sphere>(Placement(Vector3D(20, 0, 0)), 1, 0);
      auto bm = box(6, 6, 6); auto sm = sph(2.5);
      W.push_back({"boolean", {vol("a", std::make_shared<BooleanGeometry>(BooleanOperation::SUBTRACTION, l, r), [=](double x, double y, double z) { return std::min(bm(x, y, z), -sm(x, y, z)); }, O),
          vol("b", std::make_shared<BooleanGeometry>(BooleanOperation::INTERSECTION, l, far), [](double, double, double) { return -1.0; }, O),
          vol("c", std::make_shared<Cylinder>(1, 0.4, 8), [](double x, double y, double z) { double q = std::hypot(x, y); return std::min({1 - q, q - 0.4, 4 - std::fabs(z)}); }, Placement(Vector3D(0.3, 0, 0)))}, 8}); }
    { std::vector<Vol> v; for (int i = 0; i < 12; ++i) { double s = 1 + 0.13 * (i % 5); v.push_back(vol(vc::cat("m", i), std::make_shared<Box>(s, 1.5, 2), box(s, 1.5, 2), Placement(Vector3D(-6 + 1.05 * i, 0.3 * (i % 3), 0.2 * (i % 4))))); }
      v.push_back(vol("out", std::make_shared<Box>(16, 6, 6), box(16, 6, 6), O)); W.push_back({"row", v, 9}); }
    { std::vector<Vol> v; for (int i = 0; i < 9; ++i) v.push_back(vol(vc::cat("g", i), std::make_shared<Sphere>(1.1, 0), sph(1.1), Placement(Vector3D(2.0 * (i % 3 - 1), 2.0 * (i / 3 - 1), 0)))); W.push_back({"grid", v, 6}); }
    return W;
}
struct Frame { Vector3D origin; Quaternion rot; };
inline std::vector<Frame> frames() { return {{Vector3D(0, 0, 0), Quaternion()}, {Vector3D(1, -2, 0.5), Quaternion()}, {Vector3D(-3, 1, 2), quat(Vector3D(1, -1, 0.3), 0.8)}}; }
inline void materials(DetectorModel &d) {
    MaterialModel m = d.GetMaterials();
    m.AddMaterial("WATER", std::map<int, double>{{1000010010, 0.1119}, {1000080160, 0.8881}});
    m.AddMaterial("IRON", std::map<int, double>{{1000260560, 1.0}});
    m.AddMaterial("MIX", std::map<int, double>{{1000010010, 0.2}, {1000060120, 0.5}, {1000260560, 0.3}});
    d.SetMaterials(m);
}
inline DetectorSector sector(DetectorModel const &d, Vol const &v, int level) { DetectorSector s; static char const *mats[] = {"WATER", "IRON", "MIX"}; s.name = v.name; s.material_id = d.GetMaterials().GetMaterialId(mats[v.mat]); s.level = level; s.geo = v.geo; s.density = v.rho; return s; }
inline const std::vector<ParticleType> &targets() { static std::vector<ParticleType> t = {ParticleType::HNucleus, ParticleType::O16Nucleus, ParticleType::Fe56Nucleus, ParticleType::C12Nucleus, ParticleType::PPlus, ParticleType::EMinus, ParticleType::Nucleon}; return t; }
typedef Geometry::IntersectionList IL;
inline const double VAC = ConstantDensityDistribution().Evaluate(Vector3D(0, 0, 0));
inline std::string sv(Vector3D const &v) { return vc::cat("(", v.GetX(), ",", v.GetY(), ",", v.GetZ(), ")"); }
struct Model {   // the abstract detector
    std::vector<Vol> v; std::vector<int> level;
    int at(Vector3D const &p, bool &clear) const { int best = -1; clear = true; for (size_t i = 0; i < v.size(); ++i) { double m = v[i].m(p.GetX(), p.GetY(), p.GetZ()); if (std::fabs(m) < 1e-6) clear = false; if (m > 0 && (best < 0 || level[i] > level[best])) best = i; } return best; }
    double rho(int i, Vector3D const &p) const { return i < 0 ? VAC : v[i].f(p); }
};
struct Seg { double a, b; int v; };
// the sectors along a line; false if the line only just touches or misses a boundary
inline bool segments(Model const &M, Vector3D const &o, Vector3D const &d, double L, std::vector<Seg> &out) {
    const int N = std::max(200, int(L * 40)); double h = L / N; std::vector<double> cut = {0, L};
    for (auto &v : M.v) {
        auto f = [&](double t) { return v.m(o.GetX() + t * d.GetX(), o.GetY() + t * d.GetY(), o.GetZ() + t * d.GetZ()); };
        double p2 = f(-h), p1 = f(0);
        if (std::fabs(p1) < 1e-6 || std::fabs(f(L)) < 1e-6) return false;
        for (int i = 1; i <= N + 1; ++i) {
            double t = i * h, c = f(t);
            if ((p1 > 0) != (c > 0)) { if (i <= N) { double a = t - h, b = t; bool s = p1 > 0; for (int k = 0; k < 60; ++k) { double m = 0.5 * (a + b); if ((f(m) > 0) == s) a = m; else b = m; } cut.push_back(a); } }
            else if (std::fabs(p1) <= std::fabs(p2) && std::fabs(p1) <= std::fabs(c) && std::fabs(p1) < 3 * h && (p2 > 0) == (c > 0)) return false;
            p2 = p1; p1 = c;
        }
    }
    std::sort(cut.begin(), cut.end()); out.clear();
    for (size_t i = 0; i + 1 < cut.size(); ++i) { if (cut[i + 1] - cut[i] < 1e-9) continue; bool c; int s = M.at(o + d * (0.5 * (cut[i] + cut[i + 1])), c); if (!c) return false; if (!out.empty() && out.back().v == s) out.back().b = cut[i + 1]; else out.push_back({cut[i], cut[i + 1], s}); }
    return true;
}
inline double quad(std::function<double(double)> const &f, double a, double b) {
    static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
    int n = std::max(1, int(std::ceil((b - a) / 0.8))); double s = 0, h = (b - a) / n;
    for (int k = 0; k < n; ++k) { double m = a + (k + 0.5) * h; for (int i = 0; i < 5; ++i) s += w[i] * 0.5 * h * (f(m - 0.5 * h * x[i]) + f(m + 0.5 * h * x[i])); }
    return s;
}
struct Line { Model const &M; Vector3D o, d; std::vector<Seg> s;
    // integral of weight(sector) * density over [0,t]; metres * g/cm3
    double depth(double t, std::function<double(int)> const &w) const { double r = 0; for (auto &g : s) { double b = std::min(g.b, t); if (b <= g.a) break; int v = g.v; r += w(v) * quad([&](double x) { return M.rho(v, o + d * x); }, g.a, b); } return r; } };
inline bool near(double a, double b, double rel = 1e-6, double abs = 1e-14) { return a == b || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs); }
struct Det { std::shared_ptr<DetectorModel> d; Model M; Frame f; std::string name; int vac;
    DetectorPosition P(Vector3D const &g) const { return DetectorPosition(f.rot.rotate(g - f.origin, true)); }
    DetectorDirection D(Vector3D const &g) const { return DetectorDirection(f.rot.rotate(g, true)); }
    int mat(int v) const { static char const *m[] = {"WATER", "IRON", "MIX"}; return d->GetMaterials().GetMaterialId(v < 0 ? "VACUUM" : m[M.v[v].mat]); } };
inline Det build(World const &w, std::vector<int> const &perm, Frame const &f) {
    Det r; r.d = std::make_shared<DetectorModel>(); materials(*r.d); r.M.v = w.v; r.f = f;
    for (size_t i = 0; i < w.v.size(); ++i) { r.M.level.push_back(perm[i] * 3 - 2); r.d->AddSector(sector(*r.d, w.v[i], r.M.level[i])); }
    r.d->SetDetectorOrigin(GeometryPosition(f.origin)); r.d->SetDetectorRotation(f.rot);
    r.name = w.name + " levels"; for (int l : r.M.level) r.name += vc::cat(" ", l); r.name += vc::cat(" origin ", sv(f.origin), norm(f.origin) > 3 ? " rotated" : "");
    return r;
}
inline const std::vector<double> XS = {1e-3, 2e-3, 5e-4, 3e-3, 1e-3, 4e-4, 7e-4};
inline std::vector<double> per_target(Det const &D, int v, std::vector<ParticleType> const &t) { return D.d->GetMaterials().GetTargetParticleFraction(D.mat(v), t); }
}
