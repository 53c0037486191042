// P09: directions, helicities, masses, external events and two-dimensional fluxes follow the law each distribution reports.
#include "draw.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/math/Vector3D.h"
#include <fstream>
#include <algorithm>
using namespace draw; using namespace siren::distributions; using siren::math::Vector3D;
typedef std::vector<double> V; typedef std::array<double, 3> A3;
static A3 dirOf(PrimaryInjectionDistribution const &d, V const &us) {
    script(us); PrimaryDistributionRecord r(ParticleType::NuMu); d.Sample(rng(), nullptr, nullptr, r); vc::step(); return r.GetDirection();
}
static double dot(A3 const &a, A3 const &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static A3 unit(double x, double y, double z) { double n = std::sqrt(x*x + y*y + z*z); return {x/n, y/n, z/n}; }
static void basis(A3 const &a, A3 &e, A3 &f) { A3 h = std::fabs(a[2]) < 0.9 ? A3{0,0,1} : A3{1,0,0}; e = unit(a[1]*h[2]-a[2]*h[1], a[2]*h[0]-a[0]*h[2], a[0]*h[1]-a[1]*h[0]); f = {a[1]*e[2]-a[2]*e[1], a[2]*e[0]-a[0]*e[2], a[0]*e[1]-a[1]*e[0]}; }
// push-forward of the full grid of both random words: the solid angle each (cos, phi) bin receives must be the integral of the reported density over it
static void cap(std::string const &h, PrimaryInjectionDistribution const &d, A3 axis, double angle) {
    vc::note(h); vc::state(h); vc::trace();
    int const K = 8, M = vc::thorough() ? 256 : 96; double c0 = std::cos(angle);
    A3 e, f; basis(axis, e, f);
    std::vector<double> bins(K * K, 0); double m[6] = {0};
    double want = 1 / (2 * M_PI * (1 - c0));
    V g1 = grid(M), g2 = grid(M);
    for (double u1 : g1) for (double u2 : g2) {
        A3 n = dirOf(d, {u1, u2}); vc::state(vc::cat(h, " u=", u1, ",", u2));
        double c = dot(n, axis), ph = std::atan2(dot(n, f), dot(n, e));
        VC_EXPECT(vc::close(dot(n, n), 1, 1e-12), "direction-not-unit", h, " u=", u1, ",", u2, " |n|^2=", dot(n, n));
        VC_EXPECT(c >= c0 - 1e-9, "direction-outside", h, " u=", u1, ",", u2, " cos=", c, " limit ", c0);
        if (c > c0 + 1e-7 || angle > 3.1415) { double r = density(d, event(5, n[0], n[1], n[2])); VC_EXPECT(vc::close(r, want, 1e-9), "direction-density-at-sample", h, " cos=", c, " density ", r, " expected ", want); }
        if (u1 == 0 || u1 == 1 || u2 == 0 || u2 == 1) continue;      // the extremes carry no weight in the law
        double s = (c - c0) / (1 - c0); int a = std::min(K - 1, std::max(0, int(s * K))), b = std::min(K - 1, std::max(0, int((ph + M_PI) / (2 * M_PI) * K)));
        bins[a * K + b] += 1; m[0] += s - 0.5; m[1] += (s - 0.5) * (s - 0.5) - 1. / 12; m[2] += std::cos(ph); m[3] += std::sin(ph); m[4] += std::cos(2 * ph); m[5] += (s - 0.5) * std::cos(ph);
    }
    for (int i = 0; i < K * K; ++i) VC_EXPECT(std::fabs(bins[i] - M * M / double(K * K)) <= 0.35 * M * M / double(K * K), "direction-law", h, " bin ", i, " holds ", bins[i], " of ", M * M);
    for (int i = 0; i < 6; ++i) VC_EXPECT(std::fabs(m[i]) / (M * M) < 2.0 / M, "direction-moment", h, " moment ", i, " = ", m[i] / (M * M));
    // the density everywhere on the sphere
    double tot = 0; int P = 200, Q = 40;
    for (int i = 0; i < P; ++i) for (int j = 0; j < Q; ++j) {
        double c = -1 + 2 * (i + 0.5) / P, ph = 2 * M_PI * (j + 0.25) / Q, s = std::sqrt(1 - c * c); A3 n; for (int k = 0; k < 3; ++k) n[k] = c * axis[k] + s * (std::cos(ph) * e[k] + std::sin(ph) * f[k]);
        double r = density(d, event(5, n[0], n[1], n[2])); tot += r * 4 * M_PI / (P * Q);
        if (std::fabs(c - c0) > 1e-6) VC_EXPECT(vc::close(r, c > c0 ? want : 0, 1e-9), "direction-density", h, " cos=", c, " density ", r);
    }
    double inside = 0; for (int i = 0; i < P; ++i) if (-1 + 2 * (i + 0.5) / P > c0) inside += 2.0 / P;
    VC_EXPECT(vc::close(tot, inside / (1 - c0), 1e-6), "direction-norm", h, " integral ", tot);
    for (double sgn : {1.0, -1.0}) { double r = density(d, event(3, sgn * axis[0], sgn * axis[1], sgn * axis[2])); VC_EXPECT(vc::close(r, (sgn > 0 || angle > 3.1415) ? want : 0, 1e-9), "direction-density-axis", h, " sign ", sgn, " density ", r); }
}
static std::vector<A3> axes() {
    std::vector<A3> r; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) r.push_back({double(x), double(y), double(z)});
    r.push_back({0.2, -0.3, 0.7}); r.push_back({3, 4, 12}); r.push_back({0, 1e-5, -1}); r.push_back({1e-7, 0, 1}); r.push_back({0, 0, -2.5}); r.push_back({0, 0, 7}); return r;
}
static void isotropic() { IsotropicDirection d; cap("Isotropic", d, {0, 0, 1}, M_PI); cap("Isotropic clone", *d.clone(), unit(1, 2, -2), M_PI); }
static void cones(int part) {
    auto ax = axes(); V angs = {0.05, 0.7, M_PI / 2, 2.5, M_PI};
    for (size_t i = 0; i < ax.size(); ++i) if (int(i % 4) == part) for (double an : angs) {
        if (!vc::thorough() && an != 0.7 && i % 3 != 0) continue;
        Cone d(Vector3D(ax[i][0], ax[i][1], ax[i][2]), an); cap(vc::cat("Cone(", ax[i][0], ",", ax[i][1], ",", ax[i][2], "; ", an, ")"), d, unit(ax[i][0], ax[i][1], ax[i][2]), an);
    }
}
static void fixed() {
    auto ax = axes();
    for (auto &a : ax) { FixedDirection d(Vector3D(a[0], a[1], a[2])); A3 u = unit(a[0], a[1], a[2]); std::string h = vc::cat("FixedDirection(", a[0], ",", a[1], ",", a[2], ")"); vc::state(h); vc::trace();
        for (double w : {0.0, 0.5, 1.0}) { A3 n = dirOf(d, {w, w}); VC_EXPECT(vc::close(dot(n, u), 1, 1e-9) && vc::close(dot(n, n), 1, 1e-9), "fixed-direction", h, " sampled ", n[0], ",", n[1], ",", n[2]); }
        VC_EXPECT(density(static_cast<WeightableDistribution const &>(d), event(4, u[0], u[1], u[2])) == 1, "fixed-direction-density", h);
        for (auto &b : ax) { A3 v = unit(b[0], b[1], b[2]); if (dot(u, v) < 1 - 1e-6) VC_EXPECT(density(static_cast<WeightableDistribution const &>(d), event(4, v[0], v[1], v[2])) == 0, "fixed-direction-density-elsewhere", h, " at ", b[0], ",", b[1], ",", b[2]); }
        PrimaryDistributionRecord r(ParticleType::NuE); script({}); static_cast<PrimaryInjectionDistribution const &>(d).clone()->Sample(rng(), nullptr, nullptr, r); r.SetEnergy(5); r.SetMass(3); auto p = r.GetThreeMomentum();
        VC_EXPECT(vc::close(std::sqrt(dot(p, p)), 4, 1e-9), "fixed-direction-momentum", h, " |p|=", std::sqrt(dot(p, p)), " expected 4"); }
}
static void helicity() {
    PrimaryNeutrinoHelicityDistribution d;
    for (auto t : {ParticleType::NuE, ParticleType::NuMu, ParticleType::NuTau, ParticleType::NuEBar, ParticleType::NuMuBar, ParticleType::NuTauBar, ParticleType::N4, ParticleType::N4Bar, ParticleType::EMinus, ParticleType::EPlus}) {
        double want = int32_t(t) > 0 ? -0.5 : 0.5; std::string h = vc::cat("helicity of ", int32_t(t)); vc::state(h); vc::trace();
        PrimaryDistributionRecord r(t); script({0.3}); d.Sample(rng(), nullptr, nullptr, r); vc::step();
        VC_EXPECT(r.GetHelicity() == want, "helicity-sample", h, " sampled ", r.GetHelicity());
        for (double x : {-1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0}) for (auto n : axes()) { auto e = event(3, n[0], n[1], n[2], 0, t); e.primary_helicity = x; VC_EXPECT(density(d, e) == (x == want ? 1 : 0), "helicity-density", h, " helicity ", x, " density ", density(d, e)); }
    }
}
static void mass() {
    V ms = {0, 1e-9, 5.11e-4, 0.105, 0.9382720, 0.938273, 1, 80};
    for (double m : ms) { PrimaryMass d(m); std::string h = vc::cat("PrimaryMass(", m, ")"); vc::state(h); vc::trace(); PrimaryDistributionRecord r(ParticleType::N4); script({0.3}); d.Sample(rng(), nullptr, nullptr, r); VC_EXPECT(r.GetMass() == m, "mass-sample", h);
        for (double x : ms) { auto e = event(100, 0, 0, 1, x); VC_EXPECT(density(d, e) == (x == m ? 1 : 0), "mass-density", h, " for ", x, ": ", density(d, e)); }
        VC_EXPECT(density(d, event(100, 0, 0, 1, m * (1 + 1e-11))) == 1, "mass-density-rounding", h); }
}
// ---- external events: every header subset of the known keys, row shapes, thresholds and every choice of the row
static std::string tmp(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/" + n + std::to_string(getpid()); }
static void external(int part) {
    std::vector<std::vector<std::string>> groups = {{"x0", "y0", "z0"}, {"x", "y", "z"}, {"px", "py", "pz"}, {"E"}, {"m"}, {"t0"}, {"weight"}};
    std::string fn = tmp("ext");
    for (int mask = 1; mask < 128; ++mask) for (int drop = -1; drop < 9; ++drop) for (int order = 0; order < 3; ++order) for (int style = 0; style < 2; ++style) {
        if ((mask % 4) != part) continue;
        std::vector<std::string> keys; bool complete = true;
        for (int g = 0; g < 7; ++g) if (mask >> g & 1) for (size_t k = 0; k < groups[g].size(); ++k) { if (drop >= 0 && int(g * 3 + k) == drop && g < 3) { complete = false; continue; } keys.push_back(groups[g][k]); }
        if (drop >= 0 && complete) continue;              // nothing was dropped: same as drop = -1
        if (keys.empty()) continue;
        if (order == 1) std::reverse(keys.begin(), keys.end());
        if (order == 2) std::rotate(keys.begin(), keys.begin() + keys.size() / 2, keys.end());
        int const rows = 3; auto value = [&](std::string const &k, int r) -> double {
            static std::vector<std::string> const all = {"x0", "y0", "z0", "x", "y", "z", "px", "py", "pz", "E", "m", "t0", "weight"}; int i = std::find(all.begin(), all.end(), k) - all.begin();
            if (k == "E") return 40 + 10 * r; if (k == "m") return 0.25 + r; return (i + 1) * 0.125 + r * 2; };
        std::string sep = style ? " , " : ",", eol = style ? "\r\n" : "\n";
        auto write = [&](int bad) { std::ofstream o(fn); o.precision(17); for (size_t i = 0; i < keys.size(); ++i) o << (i ? sep : "") << keys[i]; o << eol;
            for (int r = 0; r < rows; ++r) { if (style && r == 1) o << "# comment" << eol << eol << "   " << eol; size_t n = keys.size(); if (bad == 1 && r == 1) --n; for (size_t i = 0; i < n; ++i) o << (i ? sep : "") << value(keys[i], r); if (bad == 2 && r == 1) o << sep << "1"; o << eol; } };
        std::string h; for (auto &k : keys) h += k + " "; h = vc::cat("header ", h, "style ", style); vc::note(h); vc::state(h); vc::trace();
        write(0);
        if (!complete) { bool threw = false; try { PrimaryExternalDistribution d(fn); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "external-incomplete-header-accepted", h); continue; }
        bool hasE = mask >> 3 & 1, hasP = mask >> 2 & 1, hasV = mask >> 1 & 1, hasI = mask & 1, hasM = mask >> 4 & 1, hasT = mask >> 5 & 1, hasW = mask >> 6 & 1;
        for (double emin : {0.0, 40.0, 45.0, 60.0, 61.0}) {
            std::vector<int> keep; for (int r = 0; r < rows; ++r) if (!hasE || value("E", r) >= emin) keep.push_back(r);
            std::shared_ptr<PrimaryExternalDistribution> d; try { d = std::make_shared<PrimaryExternalDistribution>(fn, emin); } catch (std::exception const &) {}
            vc::step();
            VC_EXPECT(!!d == !keep.empty(), "external-load", h, " emin=", emin, " rows kept ", keep.size()); if (!d) continue;
            VC_EXPECT(d->GetPhysicalNumEvents() == keep.size(), "external-count", h, " emin=", emin, " count ", d->GetPhysicalNumEvents());
            for (double E : {39.9, 40.0, 44.9, 45.0, 60.0, 61.0}) VC_EXPECT(density(*d, event(E)) == (E >= emin ? 1 : 0), "external-density", h, " emin=", emin, " E=", E);
            V us = {0, 1}; for (size_t i = 0; i < keep.size(); ++i) for (double q : {0.001, 0.5, 0.999}) us.push_back((i + q) / keep.size());
            for (double u : us) {
                int r = keep[std::min(keep.size() - 1, size_t(uval(u) * keep.size()))];
                script({u}); PrimaryDistributionRecord rec(ParticleType::N4); d->Sample(rng(), nullptr, nullptr, rec); vc::step();
                if (hasE) VC_EXPECT(rec.GetEnergy() == value("E", r), "external-energy", h, " u=", u);
                if (hasM && !(hasE && hasP)) VC_EXPECT(rec.GetMass() == value("m", r), "external-mass", h, " u=", u);
                if (hasT) VC_EXPECT(rec.GetInitialTime() == value("t0", r), "external-time", h, " u=", u);
                if (hasP) VC_EXPECT((rec.GetThreeMomentum() == A3{value("px", r), value("py", r), value("pz", r)}), "external-momentum", h, " u=", u);
                if (hasV) VC_EXPECT((rec.GetInteractionVertex() == A3{value("x", r), value("y", r), value("z", r)}), "external-vertex", h, " u=", u);
                if (hasI) VC_EXPECT((rec.GetInitialPosition() == A3{value("x0", r), value("y0", r), value("z0", r)}), "external-start", h, " u=", u);
                else if (hasV) VC_EXPECT((rec.GetInitialPosition() == A3{value("x", r), value("y", r), value("z", r)}), "external-start-from-vertex", h, " u=", u);
                if (!hasP) rec.SetDirection(A3{0, 0, 1});
                if (!hasE && !(hasP && hasM)) rec.SetEnergy(90);
                if (!hasM && !(hasE && hasP) && !(hasP && !hasE)) rec.SetMass(1);
                if (!hasV) rec.SetInteractionVertex(A3{1, 2, 30});
                InteractionRecord fin; try { rec.Finalize(fin); vc::count("finalised"); } catch (std::exception const &) { continue; } auto const &p = fin.interaction_parameters;
                VC_EXPECT(p.size() == (hasW ? 1 : 0) && (!hasW || (p.count("weight") && p.at("weight") == value("weight", r))), "external-parameters", h, " u=", u, " holds ", p.size());
            }
        }
        for (int bad : {1, 2}) { if (bad == 1 && keys.size() == 1) continue; write(bad); bool threw = false; try { PrimaryExternalDistribution d(fn); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "external-ragged-row-accepted", h, bad == 1 ? " short row" : " long row"); }
    }
    unlink(fn.c_str());
    bool threw = false; try { PrimaryExternalDistribution d("/nonexistent/file.csv"); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "external-missing-file", "");
}
// ---- two-dimensional flux: density, normalisation, and detailed balance of the chain
struct Tab { std::string name; V E, c, f; double e0 = 0, e1 = 0, c0 = 0, c1 = 0; };
static std::vector<Tab> tabs() {
    std::vector<Tab> r; auto mk = [&](std::string n, V Es, V cs, std::function<double(double, double)> fn) { Tab t; t.name = n; for (double e : Es) for (double c : cs) { t.E.push_back(e); t.c.push_back(c); t.f.push_back(fn(e, c)); } t.e0 = Es.front(); t.e1 = Es.back(); t.c0 = cs.front(); t.c1 = cs.back(); r.push_back(t); };
    V lin = {1, 2, 3, 4, 5}, lg = {1, 10, 100, 1000}, cz = {-1, -0.5, 0, 0.5, 1}, half = {-0.5, 0.25, 1};
    mk("linear flat", lin, cz, [](double, double) { return 2.0; });
    mk("linear sloped", lin, cz, [](double e, double c) { return e * (1.5 + c); });
    mk("log falling", lg, cz, [](double e, double c) { return 5 / (e * e) * (2 - c); });
    mk("log rising", lg, half, [](double e, double c) { return e * (3 + c); });
    mk("log flat", lg, half, [](double, double) { return 1.0; });
    return r;
}
static std::shared_ptr<Tabulated2DFluxDistribution> build(Tab t) { return std::make_shared<Tabulated2DFluxDistribution>(t.E, t.c, t.f); }
static void tab2density() {
    for (auto &t : tabs()) {
        auto d = build(t); std::string h = "Tabulated2D " + t.name; vc::note(h); vc::state(h); vc::trace();
        bool logx = t.name.substr(0, 3) == "log";
        auto inner = [&](double E) { return quad([&](double c) { return d->SampleUnnormedPDF(E, c); }, t.c0, t.c1, 24); };
        double I = logx ? quad([&](double l) { double E = std::exp(l); return E * inner(E); }, std::log(t.e0), std::log(t.e1), 120) : quad(inner, t.e0, t.e1, 32);
        VC_EXPECT(vc::close(d->GetIntegral(), I, 2e-3), "tab2d-integral", h, " ", d->GetIntegral(), " expected ", I);
        for (size_t i = 0; i < t.f.size(); ++i) { double r = d->SampleUnnormedPDF(t.E[i], t.c[i]); VC_EXPECT(vc::close(r, t.f[i], 1e-9), "tab2d-node", h, " E=", t.E[i], " c=", t.c[i], " ", r); }
        for (int i = 0; i <= 20; ++i) for (int j = 0; j <= 20; ++j) {
            double E = i == 20 ? t.e1 : logx ? t.e0 * std::pow(t.e1 / t.e0, i / 20.0) : t.e0 + (t.e1 - t.e0) * i / 20, c = std::min(t.c1, std::max(t.c0, t.c0 + (t.c1 - t.c0) * j / 20)), s = std::sqrt(1 - c * c);
            for (double ph : {0.0, 2.0}) { auto e = event(E, s * std::cos(ph), s * std::sin(ph), c); double cc = e.primary_momentum[3] / E; if (cc < t.c0 + 1e-9 || cc > t.c1 - 1e-9) continue; double r = density(*d, e); VC_EXPECT(vc::close(r, d->SampleUnnormedPDF(E, c) / d->GetIntegral(), 1e-7), "tab2d-density", h, " E=", E, " c=", c, " ", r); vc::state(vc::cat(h, E, ",", c, ",", ph)); }
        }
        for (double E : {t.e0 * 0.99, t.e1 * 1.01}) VC_EXPECT(density(*d, event(E, 0.6, 0, 0.8)) == 0, "tab2d-density-outside", h, " E=", E);
        if (t.c0 > -1) VC_EXPECT(density(*d, event(t.e0 * 1.5, 0, 0, -1)) == 0, "tab2d-density-outside", h);
        VC_EXPECT(!d->IsNormalizationSet(), "tab2d-norm-unset", h);
        Tab u = t; Tabulated2DFluxDistribution n(u.E, u.c, u.f, true); VC_EXPECT(n.IsNormalizationSet() && n.GetNormalization() == d->GetIntegral(), "tab2d-norm", h);
        // restricted bounds, given at construction or set later, mean the same
        double a = t.e0 * 1.5, b = t.e1 * 0.8, p = t.c0 * 0.5, q = 0.6; Tab v = t;
        Tabulated2DFluxDistribution r1(a, b, p, q, v.E, v.c, v.f); auto r2 = build(t); r2->SetEnergyBounds(a, b); r2->SetCosZenithBounds(p, q);
        double I2 = quad([&](double l) { double E = std::exp(l); return E * quad([&](double c) { return d->SampleUnnormedPDF(E, c); }, p, q, 24); }, std::log(a), std::log(b), 120);
        VC_EXPECT(vc::close(r1.GetIntegral(), I2, 2e-3) && vc::close(r2->GetIntegral(), I2, 2e-3), "tab2d-bounds-integral", h, " ", r1.GetIntegral(), " ", r2->GetIntegral(), " expected ", I2);
        for (double E : {a * 0.999, a * 1.01, b * 0.999, b * 1.001}) for (double c : {p - 0.01, p + 0.01, 0.3, q - 0.01, q + 0.01}) { bool in = E > a && E < b && c > p && c < q; auto e = event(E, std::sqrt(1 - c * c), 0, c); double want = in ? d->SampleUnnormedPDF(E, c) / r1.GetIntegral() : 0; VC_EXPECT(vc::close(density(r1, e), want, 1e-7) && vc::close(density(*r2, e), want, 1e-7 + 1e-6), "tab2d-bounds-density", h, " E=", E, " c=", c, " ", density(r1, e), " expected ", want); }
    }
}
// Drives the chain to point a, then offers b with acceptance word w; returns the drawn (E, cos)
static std::pair<double, double> move(Tab const &t, V const &a, V const &b, double w, double phi, size_t lead) {
    auto d = build(t); V s;
    // repeated proposals of a: the first is accepted (no density yet), the following have equal density and are accepted without a draw
    for (size_t i = 0; i < lead; ++i) { s.push_back(a[0]); s.push_back(a[1]); }
    s.push_back(b[0]); s.push_back(b[1]); s.push_back(w); s.push_back(phi);
    for (int i = 0; i < 400; ++i) { s.push_back(phi); }
    // a point of lower density consumes the word w; one of higher density does not, then w plays the role of phi
    script(s); PrimaryDistributionRecord r(ParticleType::NuMu); static_cast<PrimaryInjectionDistribution const &>(*d).Sample(rng(), nullptr, nullptr, r); vc::step();
    return {r.GetEnergy(), r.GetDirection()[2]};
}
static void tab2chain(int which) {
    auto t = tabs()[which]; std::string h = "Tabulated2D chain " + t.name; bool logx = t.name.substr(0, 3) == "log";
    auto E = [&](double u) { return logx ? t.e0 * std::pow(t.e1 / t.e0, u) : t.e0 + (t.e1 - t.e0) * u; };
    auto C = [&](double u) { return t.c0 + (t.c1 - t.c0) * u; };
    auto d0 = build(t); auto pi = [&](V const &u) { return d0->SampleUnnormedPDF(E(u[0]), C(u[1])); };
    // how many proposals the warm-up takes: the first draw that returns a later proposal
    std::vector<V> pts; V al = vc::thorough() ? V{0.03, 0.2, 0.35, 0.5, 0.65, 0.8, 0.97} : V{0.05, 0.35, 0.6, 0.95}; for (double x : al) for (double y : al) pts.push_back({x, y});
    size_t lead = 0; { V a = {0.5, 0.5}; for (size_t n = 1; n < 200 && !lead; ++n) { V s; for (size_t i = 0; i < n; ++i) { s.push_back(a[0]); s.push_back(a[1]); } script(s); PrimaryDistributionRecord r(ParticleType::NuMu); auto d = build(t); static_cast<PrimaryInjectionDistribution const &>(*d).Sample(rng(), nullptr, nullptr, r); if (vc::close(r.GetEnergy(), E(0.5), 1e-9) && vc::close(r.GetDirection()[2], C(0.5), 1e-9, 1e-9) && std::verif_engine::pos <= 2 * n + 1) lead = n - 1; } }
    vc::count("warm_up", lead); if (!lead) { vc::fail("tab2d-chain-warmup", h + ": no warm-up length found"); return; }
    auto is = [&](std::pair<double, double> r, V const &u) { return vc::close(r.first, E(u[0]), 1e-9) && vc::close(r.second, C(u[1]), 1e-9, 1e-9); };
    // acceptance probability a -> b by bisection over the acceptance word; what is returned otherwise must be a
    auto alpha = [&](V const &a, V const &b) {
        auto acc = [&](double w) { auto r = move(t, a, b, w, 0.37, lead); bool x = is(r, b), y = is(r, a); if (!x && !y) vc::fail("tab2d-chain-returns-neither", vc::cat(h, " from (", E(a[0]), ",", C(a[1]), ") offered (", E(b[0]), ",", C(b[1]), ") word ", w, " returned (", r.first, ",", r.second, ")")); ++vc::R.evaluations; return x; };
        if (acc(1)) return 1.0; if (!acc(0)) return 0.0; double lo = 0, hi = 1; for (int i = 0; i < 50; ++i) { double m = 0.5 * (lo + hi); (acc(m) ? lo : hi) = m; } return 0.5 * (lo + hi); };
    for (auto &a : pts) for (auto &b : pts) if (a < b) {
        vc::note(vc::cat(h, " ", a[0], ",", a[1], " <-> ", b[0], ",", b[1])); vc::state(vc::cat(h, a[0], ",", a[1], ",", b[0], ",", b[1])); vc::trace();
        double ab = alpha(a, b), ba = alpha(b, a); double ja = logx ? E(a[0]) : 1, jb = logx ? E(b[0]) : 1;       // proposals are uniform in log E: density 1/E in E
        VC_EXPECT(vc::close(pi(a) * ja * ab, pi(b) * jb * ba, 1e-6), "tab2d-detailed-balance", h, " (", E(a[0]), ",", C(a[1]), ") <-> (", E(b[0]), ",", C(b[1]), "): accept ", ab, " / ", ba, ", densities ", pi(a), " / ", pi(b));
        VC_EXPECT(ab > 0 && ba > 0, "tab2d-ergodic", h, " ", ab, " ", ba);
    }
    // azimuth is uniform whatever the chain does
    V sx; for (double u : grid(32, false)) { auto d = build(t); V s; for (size_t i = 0; i <= lead; ++i) { s.push_back(0.5); s.push_back(0.4); } s.push_back(u); script(s); PrimaryDistributionRecord r(ParticleType::NuMu); static_cast<PrimaryInjectionDistribution const &>(*d).Sample(rng(), nullptr, nullptr, r); auto n = r.GetDirection(); double c = C(0.4); VC_EXPECT(vc::close(n[2], c, 1e-9, 1e-12) && vc::close(dot(n, n), 1, 1e-12), "tab2d-direction", h); sx.push_back(std::atan2(n[1], n[0])); }
    std::sort(sx.begin(), sx.end()); for (size_t i = 0; i < sx.size(); ++i) VC_EXPECT(std::fabs(sx[i] - (-M_PI + 2 * M_PI * (i + 0.5) / sx.size())) < 2 * M_PI / sx.size(), "tab2d-azimuth", h, " ", i, " ", sx[i]);
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c = {{"isotropic", isotropic, 200}, {"fixed", fixed, 100}, {"helicity", helicity, 100}, {"mass", mass, 100}, {"tab2d-density", tab2density, 200}};
    for (int i = 0; i < 4; ++i) { c.push_back({vc::cat("cone-", i), [i] { cones(i); }, 600}); c.push_back({vc::cat("external-", i), [i] { external(i); }, 300}); }
    for (int i = 0; i < 5; ++i) c.push_back({vc::cat("tab2d-chain-", i), [i] { tab2chain(i); }, 600});
    return vc::run(argc, argv, c);
}
