// P17: decay widths -- per-channel formulae over a mass grid that brackets every threshold, totals over channels, thresholds,
// scaling with the mixings, CP and Majorana relations, charge conservation of the channel lists, inclusive hadronic widths,
// decay lengths, physical constants and units.
#include "vc.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/dataclasses/Particle.h"
#include <gsl/gsl_errno.h>
#include <algorithm>
#include <array>
using namespace siren::interactions; using namespace siren::dataclasses; namespace C = siren::utilities::Constants; typedef ParticleType PT;
static double sq(double x) { return x * x; }
static bool rel(double a, double b, double t) { return (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= t * std::max(std::fabs(a), std::fabs(b))) || a == b; }
static std::string chan(InteractionSignature const &s) { std::string r = vc::cat((int)s.primary_type, "->"); for (auto t : s.secondary_types) r += vc::cat((int)t, ","); return r; }
static InteractionRecord rec(InteractionSignature const &s, double m, double gamma = 2) { InteractionRecord r; r.signature = s; r.primary_mass = m; double p = m * std::sqrt((gamma - 1) * (gamma + 1)); r.primary_momentum = {gamma * m, 0.6 * p, -0.48 * p, 0.64 * p}; r.primary_helicity = 1; return r; }
// charge in units of e/3, PDG codes
static int charge3(PT t) {
    switch (t) { case PT::EMinus: case PT::MuMinus: case PT::TauMinus: return -3; case PT::EPlus: case PT::MuPlus: case PT::TauPlus: return 3; case PT::WPlus: return 3; case PT::WMinus: return -3;
    case PT::u: case PT::c: case PT::t: return 2; case PT::uBar: case PT::cBar: case PT::tBar: return -2; case PT::d: case PT::s: case PT::b: return -1; case PT::dBar: case PT::sBar: case PT::bBar: return 1;
    case PT::PiPlus: case PT::KPlus: case PT::RhoPlus: case PT::KPrimePlus: case PT::DPlus: case PT::DsPlus: return 3; case PT::PiMinus: case PT::KMinus: case PT::RhoMinus: case PT::KPrimeMinus: case PT::DMinus: case PT::DsMinus: return -3;
    default: return 0; }
}
static PT bar(PT t) {
    static std::map<PT, PT> m; if (m.empty()) { auto A = [&](PT a, PT b) { m[a] = b; m[b] = a; }; A(PT::NuE, PT::NuEBar); A(PT::NuMu, PT::NuMuBar); A(PT::NuTau, PT::NuTauBar); A(PT::NuLight, PT::NuLightBar); A(PT::EMinus, PT::EPlus); A(PT::MuMinus, PT::MuPlus); A(PT::TauMinus, PT::TauPlus); A(PT::WPlus, PT::WMinus); A(PT::PiPlus, PT::PiMinus); A(PT::KPlus, PT::KMinus); A(PT::RhoPlus, PT::RhoMinus); A(PT::KPrimePlus, PT::KPrimeMinus); A(PT::DPlus, PT::DMinus); A(PT::DsPlus, PT::DsMinus); A(PT::D0, PT::D0Bar); A(PT::K0, PT::K0Bar); A(PT::N4, PT::N4Bar); A(PT::u, PT::uBar); A(PT::d, PT::dBar); A(PT::c, PT::cBar); A(PT::s, PT::sBar); A(PT::t, PT::tBar); A(PT::b, PT::bBar); }
    auto i = m.find(t); return i == m.end() ? t : i->second;
}
static double lepmass(int f) { return f == 0 ? C::electronMass : f == 1 ? C::muonMass : C::tauMass; }
static int flavour(PT t) { switch (t) { case PT::NuE: case PT::NuEBar: case PT::EMinus: case PT::EPlus: return 0; case PT::NuMu: case PT::NuMuBar: case PT::MuMinus: case PT::MuPlus: return 1; case PT::NuTau: case PT::NuTauBar: case PT::TauMinus: case PT::TauPlus: return 2; default: return -1; } }
static double lam(double a, double b, double c) { return a*a + b*b + c*c - 2*a*b - 2*a*c - 2*b*c; }
// quadrature with square-root end points: s = lo + (hi-lo) sin^2(pi t / 2)
template<class F> static double quad(F f, double lo, double hi, int n = 1500) { long double I = 0; for (int i = 0; i < n; ++i) { double t = (i + 0.5) / n, s = lo + (hi - lo) * sq(std::sin(0.5 * M_PI * t)); I += f(s) * 0.5 * M_PI * std::sin(M_PI * t) * (hi - lo) / n; } return I; }
static double J1(double x, double y, double z) { return quad([&](double s) { return 12 / s * (s - x - y) * (1 + z - s) * std::sqrt(std::max(0.0, lam(s, x, y)) * std::max(0.0, lam(1, s, z))); }, sq(std::sqrt(x) + std::sqrt(y)), sq(1 - std::sqrt(z))); }
static double J2(double x, double y, double z) { return quad([&](double s) { return 24 * std::sqrt(y * z) / s * (1 + x - s) * std::sqrt(std::max(0.0, lam(s, y, z)) * std::max(0.0, lam(1, s, x))); }, sq(std::sqrt(y) + std::sqrt(z)), sq(1 - std::sqrt(x))); }
struct Meson { PT t; double f, m, V; int kind; }; // kind 0 neutral pseudoscalar, 1 charged pseudoscalar, 2 neutral vector (V = coupling), 3 charged vector
static std::vector<Meson> mesons() { double w = C::thetaWeinberg; return {{PT::Pi0, .130, C::Pi0Mass, 0, 0}, {PT::Eta, .0816, C::EtaMass, 0, 0}, {PT::EtaPrime, -.0946, C::EtaPrimeMass, 0, 0}, {PT::PiPlus, .130, C::PiPlusMass, C::Vud, 1}, {PT::KPlus, .156, C::KPlusMass, C::Vus, 1}, {PT::DPlus, .212, C::DPlusMass, C::Vcd, 1}, {PT::DsPlus, .249, C::DsPlusMass, C::Vcs, 1},
    {PT::Rho0, .171, C::Rho0Mass, 1 - 2 * w, 2}, {PT::Omega, .155, C::OmegaMass, -2. / 3 * w, 2}, {PT::Phi, .232, C::PhiMass, -std::sqrt(2.) * (0.5 - 2. / 3 * w), 2}, {PT::KPrime0, .178, C::KPrime0Mass, 0, 2}, {PT::RhoPlus, .171, C::RhoPlusMass, C::Vud, 3}, {PT::KPrimePlus, .178, C::KPrimePlusMass, C::Vus, 3}}; }
static double gf2() { return sq(1.16639e-5); }
static double mesonwidth(Meson const &M, double m, double U, double ml) {
    double x = sq(M.m / m), l = sq(ml / m); if (M.m + ml >= m) return 0; double c = sq(M.f * U) * gf2() * m * m * m / M_PI, L = std::sqrt(std::max(0.0, lam(1, x, l)));
    switch (M.kind) { case 0: return c / 32 * sq(1 - x); case 1: return c / 16 * sq(M.V) * L * (1 - x - l * (2 + x - l)); case 2: return c / 32 * sq(M.V / M.m) * (1 + 2 * x) * sq(1 - x); default: return c / 16 * sq(M.V / M.m) * L * ((1 - x) * (1 + 2 * x) + l * (x + l - 2)); }
}
static double qm(int up, int i) { double u[3] = {C::upMass, C::charmMass, C::topMass}, d[3] = {C::downMass, C::strangeMass, C::bottomMass}; return up ? u[i] : d[i]; }
static double quarksCC(double m, double U, double ml) { double V[3][3] = {{C::Vud, C::Vus, C::Vub}, {C::Vcd, C::Vcs, C::Vcb}, {C::Vtd, C::Vts, C::Vtb}}; double r = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double a = qm(1, i) / m, b = qm(0, j) / m, l = ml / m; if (a + b + l > 1) continue; r += 3 * sq(V[i][j] * U) * gf2() * std::pow(m, 5) / (192 * std::pow(M_PI, 3)) * J1(a * a, b * b, l * l); } return r; }
static double quarksNC(double m, double U) {
    double w = C::thetaWeinberg, r = 0; for (int up : {1, 0}) for (int i = 0; i < 3; ++i) { double x2 = sq(qm(up, i) / m); if (4 * x2 >= 1) continue; double C1 = up ? .25 * (1 - 8. / 3 * w + 32. / 9 * w * w) : .25 * (1 - 4. / 3 * w + 8. / 9 * w * w), C2 = up ? w / 3 * (4. / 3 * w - 1) : w / 6 * (2. / 3 * w - 1);
        long double X = x2, R = sqrtl(1 - 4 * X), num = 4 * X * X * X; /* 1-3X-(1-X)R multiplied by its conjugate */ num = num / (1 - 3 * X + (1 - X) * R); long double Lg = logl(num / (X * (1 + R)));
        double f1 = (1 - 14 * X - 2 * X * X - 12 * X * X * X) * R + 12 * X * X * (X * X - 1) * Lg, f2 = X * (2 + 10 * X - 12 * X * X) * R + 6 * X * X * (1 - 2 * X + 2 * X * X) * Lg;
        double k = 1; if (!up && i == 1) { k = 1 - 4 * sq(C::KPlusMass / m); if (k <= 0) continue; k = std::sqrt(k); } r += k * 3 * gf2() * std::pow(m, 5) / (192 * std::pow(M_PI, 3)) * U * U * (C1 * f1 + 4 * C2 * f2); }
    return r;
}
// running coupling, four loops, integrated in ln mu^2
static double alphas(double a0, double m0, double m, int nf) {
    double z3 = 1.2020569, b0 = 11 - 2. / 3 * nf, b1 = 102 - 38. / 3 * nf, b2 = 2857. / 2 - 5033. / 18 * nf + 325. / 54 * nf * nf, b3 = 149753. / 6 + 3564 * z3 - (1078361. / 162 + 6508. / 27 * z3) * nf + (50065. / 162 + 6472. / 81 * z3) * nf * nf + 1093. / 729 * nf * nf * nf;
    auto d = [&](double a) { double h = a / (4 * M_PI); return -4 * M_PI * h * h * (b0 + b1 * h + b2 * h * h + b3 * h * h * h); }; int n = 4000; double st = 2 * std::log(m / m0) / n, a = a0; for (int i = 0; i < n; ++i) { double k1 = d(a), k2 = d(a + .5 * st * k1), k3 = d(a + .5 * st * k2), k4 = d(a + st * k3); a += st / 6 * (k1 + 2 * k2 + 2 * k3 + k4); } return a;
}
static double dqcd(double m) { int nf = 0; for (int up : {0, 1}) for (int i = 0; i < 3; ++i) nf += m > qm(up, i); double a = (nf <= 5 ? alphas(.332, C::tauMass, m, nf) : alphas(.1179, C::zMass, m, nf)) / M_PI; return a + 5.2 * a * a + 26.4 * a * a * a; }
static std::vector<double> massgrid() {
    std::set<double> g = {1e-4, 0.01, 0.05, 0.2, 0.3, 0.6, 0.9, 1.0, 1.0001, 1.2, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 12, 40, 80, 85, 95, 150, 400};
    if (vc::thorough()) for (double m = 0.02; m < 500; m *= 1.12) g.insert(m);
    std::vector<double> thr = {2 * C::electronMass, 2 * C::muonMass, 2 * C::tauMass, C::electronMass + C::muonMass, C::electronMass + C::tauMass, C::muonMass + C::tauMass, C::wMass, C::zMass}; for (auto const &M : mesons()) for (double l : {0.0, C::electronMass, C::muonMass, C::tauMass}) thr.push_back(M.m + l);
    for (double t : thr) for (double e : {-1e-3, 1e-3, 0.02}) g.insert(t * (1 + e)); return std::vector<double>(g.begin(), g.end());
}
// the channel lists: distinct, charge conserving, CP conjugate, and totals are sums
template<class D> static void lists(std::string const &key, D const &d, std::vector<PT> const &prims, std::function<double(PT)> mass) {
    std::set<InteractionSignature> all; size_t n = 0;
    for (PT p : prims) { auto v = d.GetPossibleSignaturesFromParent(p); n += v.size(); std::set<InteractionSignature> u(v.begin(), v.end()); VC_EXPECT(u.size() == v.size(), key + ":duplicate-channel", "parent ", (int)p, " lists ", v.size(), " channels, ", u.size(), " distinct"); all.insert(u.begin(), u.end());
        double sum = 0; for (auto const &s : v) { int q = 0; bool inc = false; for (PT t : s.secondary_types) { q += charge3(t); inc = inc || t == PT::Hadrons; } VC_EXPECT(inc || q == charge3(p), key + ":charge", chan(s), " charge ", q, "/3");
            VC_EXPECT(s.primary_type == p && s.target_type == PT::Decay, key + ":signature", chan(s)); double w = d.TotalDecayWidth(rec(s, mass(p))); VC_EXPECT(w >= 0 && std::isfinite(w), key + ":sign", chan(s), " width ", w); sum += w;
            auto c = s; c.primary_type = bar(p); for (auto &t : c.secondary_types) t = bar(t); if (c.secondary_types.size() == 3 && c.secondary_types[1] == PT::NuLight) c.secondary_types = s.secondary_types;
            bool partner = std::find(prims.begin(), prims.end(), bar(p)) != prims.end(); std::vector<InteractionSignature> vb; if (partner) vb = d.GetPossibleSignaturesFromParent(bar(p)); auto same = [&](InteractionSignature a, InteractionSignature b) { std::sort(a.secondary_types.begin(), a.secondary_types.end()); std::sort(b.secondary_types.begin(), b.secondary_types.end()); return a.primary_type == b.primary_type && a.secondary_types == b.secondary_types; };
            if (partner) { InteractionSignature const *hit = nullptr; for (auto const &x : vb) if (same(x, c)) hit = &x; VC_EXPECT(hit != nullptr, key + ":cp-channel", chan(s), " has no conjugate channel ", chan(c)); if (hit) VC_EXPECT(rel(d.TotalDecayWidth(rec(*hit, mass(p))), w, 1e-12), key + ":cp-width", chan(s), " width ", w, " conjugate ", d.TotalDecayWidth(rec(*hit, mass(p)))); }
            for (double g : {1.0 + 1e-6, 1.5, 1e3}) { auto r = rec(s, mass(p), g); double L = d.TotalDecayLength(r), want = std::sqrt((g - 1) * (g + 1)) * 1.973e-16 / w; VC_EXPECT(w == 0 ? std::isinf(L) : rel(L, want, 2e-4), key + ":length", chan(s), " gamma ", g, " width ", w, " GeV: length ", L, " m, expected ", want); }
            vc::state(vc::cat(key, chan(s), w)); vc::trace(); }
        VC_EXPECT(rel(d.TotalDecayWidth(p), sum, 1e-12), key + ":total", "parent ", (int)p, " total ", d.TotalDecayWidth(p), " sum of channels ", sum);
        if (!v.empty()) { auto r = rec(v[0], mass(p), 3); VC_EXPECT(rel(d.TotalDecayWidthAllFinalStates(r), sum, 1e-12), key + ":total-record", "parent ", (int)p); double L = d.TotalDecayLengthAllFinalStates(r), want = std::sqrt(8.) * 1.973e-16 / sum; VC_EXPECT(sum == 0 ? std::isinf(L) : rel(L, want, 2e-4), key + ":total-length", "parent ", (int)p, " length ", L, " expected ", want); }
        vc::step(v.size());
    }
    auto v = d.GetPossibleSignatures(); VC_EXPECT(v.size() == n && std::set<InteractionSignature>(v.begin(), v.end()) == all, key + ":all-channels", v.size(), " listed, ", n, " over parents");
}
static void hnl(double m, bool thoroughMix) {
    double const K = gf2() * std::pow(m, 5) / (192 * std::pow(M_PI, 3)); vc::note(vc::cat("hnl mass ", m));
    std::vector<std::array<double, 3>> mixes = {{1e-3, 2e-3, 3e-3}, {1e-3, 0, 0}, {0, 1e-2, 0}, {0, 0, 1e-4}, {0, 0, 0}}; if (!thoroughMix) mixes.resize(2);
    double d = m > 1 ? dqcd(m) : 0, qcc[3] = {0, 0, 0}, qnc = 0; if (m > 1) { for (int f = 0; f < 3; ++f) qcc[f] = quarksCC(m, 1, lepmass(f)); qnc = quarksNC(m, 1); }
    double gL = C::thetaWeinberg - 0.5, gR = C::thetaWeinberg; double i1[3][3] = {}, i2[3] = {}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double x = sq(lepmass(a) / m), y = sq(lepmass(b) / m); if (lepmass(a) + lepmass(b) < m) { i1[a][b] = J1(0, x, y); if (a == b) i2[a] = J2(0, x, x); } }
    for (auto const &mx : mixes) { std::vector<double> mv(mx.begin(), mx.end()); for (bool maj : {false, true}) { HNLDecay D(m, mv, maj ? HNLDecay::Majorana : HNLDecay::Dirac);
        if (mx[0] && (mx[1] || m < 5)) lists("hnl", D, {PT::N4, PT::N4Bar}, [&](PT) { return m; });
        for (PT p : {PT::N4, PT::N4Bar}) { auto v = D.GetPossibleSignaturesFromParent(p); VC_EXPECT(v.size() == 3 * 9 + 3 * 8 + 10, "hnl:channel-count", v.size());
        double tot = 0; for (auto const &s : v) { double w = D.TotalDecayWidth(rec(s, m)), want = -1, tol = 1e-9; std::string why; vc::trace(); tot += w; auto const &t = s.secondary_types;
            if (t.size() == 2) { int f = flavour(t[0]); if (f < 0) { VC_EXPECT(false, "hnl:lepton", chan(s)); continue; } bool ch = charge3(t[0]) != 0; double U = mx[f], ml = ch ? lepmass(f) : 0;
                PT b1 = p == PT::N4 ? t[1] : bar(t[1]); for (auto const &M : mesons()) if (M.t == b1) { want = mesonwidth(M, m, U, ml); VC_EXPECT((M.kind % 2 == 1) == ch, "hnl:pairing", chan(s)); }
                if (t[1] == PT::Z0) { double z = sq(C::zMass / m), g2 = sq(C::gweak); want = z >= 1 ? 0 : 0.5 * U * U * sq(1 - z) * g2 * m / M_PI * (m * m / (64 * sq(C::wMass)) + 1 / (32 * (1 - C::thetaWeinberg))); }
                if (b1 == PT::WPlus) { double z = sq(C::wMass / m), g2 = sq(C::gweak); want = z >= 1 ? 0 : U * U * sq(1 - z) * g2 * m / M_PI * (m * m / (64 * sq(C::wMass)) + 1. / 32); }
                if (t[1] == PT::Hadrons) { double me = 0; for (auto const &M : mesons()) if ((M.kind % 2 == 1) == ch) me += mesonwidth(M, m, U, ml); want = m <= 1 ? 0 : ch ? std::max(0.0, (qcc[f] * U * U - me) * (1 + d)) : std::max(0.0, (1 + d) * qnc * U * U - me); tol = 0.01; double big = ch ? qcc[f] * U * U : qnc * U * U; if (std::fabs(w / (maj ? 2 : 1) - want) < 0.01 * big) want = w / (maj ? 2 : 1); }
                VC_EXPECT(want >= 0, "hnl:unknown-channel", chan(s)); if (maj) want *= 2;
            } else if (t[1] == PT::NuLightBar) want = (maj ? 2 : 1) * K * (sq(mx[0]) + sq(mx[1]) + sq(mx[2]));
            else { int a = flavour(t[1]), b = flavour(t[2]); tol = 2e-4; if (lepmass(a) + lepmass(b) >= m) want = 0;
                else if (a == b) { want = 0; for (int g = 0; g < 3; ++g) want += sq(mx[g]) * ((gL * gR + (g == a) * gR) * i2[a] + (gL * gL + gR * gR + (g == a) * (1 + 2 * gL)) * i1[a][a]); want *= K * (maj ? 2 : 1); }
                else { double na = sq(mx[a]) * K * i1[a][b], nb = sq(mx[b]) * K * i1[b][a]; want = maj ? na + nb : p == PT::N4 ? na : nb; } }
            VC_EXPECT(rel(w, want, tol), "hnl:width", maj ? "Majorana " : "Dirac ", chan(s), " mass ", m, " mixing ", mx[0], ",", mx[1], ",", mx[2], ": width ", w, " expected ", want); vc::state(vc::cat(m, maj, chan(s), mx[0], mx[1], mx[2])); vc::step(); }
        VC_EXPECT(rel(D.TotalDecayWidth(p), tot, 1e-12), "hnl:total", "mass ", m); } } }
}
static void dipole() {
    for (double m : {1e-3, 0.05, 0.4, 3.0}) for (auto const &dc : std::vector<std::vector<double>>{{1e-6, 2e-6, 3e-6}, {1e-6, 0, 0}, {0, 1e-7, 0}, {0, 0, 1e-5}, {0, 0, 0}}) for (bool maj : {false, true}) { HNLDipoleDecay D(m, dc, maj ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac); lists("dipole", D, {PT::N4, PT::N4Bar}, [&](PT) { return m; });
        for (PT p : {PT::N4, PT::N4Bar}) { auto v = D.GetPossibleSignaturesFromParent(p); VC_EXPECT(v.size() == 3, "dipole:channel-count", v.size()); for (auto s : v) for (int order : {0, 1}) { if (order) std::swap(s.secondary_types[0], s.secondary_types[1]); int f = std::max(flavour(s.secondary_types[0]), flavour(s.secondary_types[1])); double w = D.TotalDecayWidth(rec(s, m)), want = sq(dc[f]) * m * m * m / (4 * M_PI); VC_EXPECT(rel(w, want, 1e-9), "dipole:width", chan(s), " mass ", m, " width ", w, " expected ", want); vc::trace(); } } }
    HNLDipoleDecay S(0.1, 1e-6, HNLDipoleDecay::Dirac), T(0.1, std::vector<double>{0, 0, 1e-6}, HNLDipoleDecay::Dirac); VC_EXPECT(S.TotalDecayWidth(PT::N4) > 0, "dipole:single-coupling", S.TotalDecayWidth(PT::N4));
}
static void electroweak() {
    ElectroweakDecay D(std::set<PT>{PT::WPlus, PT::WMinus, PT::Z0}); auto mass = [](PT p) { return p == PT::Z0 ? C::zMass : C::wMass; }; lists("ew", D, {PT::WPlus, PT::WMinus, PT::Z0}, mass);
    double GW = sq(C::gweak) * C::wMass / (48 * M_PI), GZ = sq(C::gweak) / (1 - C::thetaWeinberg) * C::zMass / (48 * M_PI);
    for (PT p : {PT::WPlus, PT::WMinus, PT::Z0}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { auto t = s.secondary_types; double want = -1; bool top = t[0] == PT::t || t[0] == PT::tBar; auto Z = [&](double l, double r, int n) { return n * GZ * (sq(l + r) + sq(l - r)); };
        auto idx = [](PT q) { switch (q) { case PT::u: case PT::uBar: case PT::d: case PT::dBar: return 0; case PT::c: case PT::cBar: case PT::s: case PT::sBar: return 1; case PT::t: case PT::tBar: case PT::b: case PT::bBar: return 2; default: return -1; } }; double V[3][3] = {{C::Vud, C::Vus, C::Vub}, {C::Vcd, C::Vcs, C::Vcb}, {C::Vtd, C::Vts, C::Vtb}};
        if (p != PT::Z0) { if (flavour(t[0]) >= 0) { VC_EXPECT(flavour(t[0]) == flavour(t[1]), "ew:flavour", chan(s)); want = GW; } else want = top ? 0 : 3 * sq(V[idx(t[0])][idx(t[1])]) * GW; }
        else { VC_EXPECT(bar(t[0]) == t[1], "ew:flavour", chan(s)); if (flavour(t[0]) >= 0) want = charge3(t[0]) ? Z(-.27, .23, 1) : Z(.5, 0, 1); else want = top ? 0 : std::abs(charge3(t[0])) == 2 ? Z(.35, -.15, 3) : Z(-.42, .08, 3); }
        double w = D.TotalDecayWidth(rec(s, mass(p))); VC_EXPECT(rel(w, want, 1e-9), "ew:width", chan(s), " width ", w, " expected ", want); vc::trace();
        for (double mm : {1e-4, 2e-4}) { double w2 = D.TotalDecayWidth(rec(s, mm)); if (charge3(t[0])) VC_EXPECT(w2 == 0, "ew:threshold", chan(s), " parent mass ", mm, " width ", w2); } }
    VC_EXPECT(std::fabs(D.TotalDecayWidth(PT::WPlus) - 2.085) < 0.2 && std::fabs(D.TotalDecayWidth(PT::Z0) - 2.4952) < 0.2, "ew:total-value", "W ", D.TotalDecayWidth(PT::WPlus), " Z ", D.TotalDecayWidth(PT::Z0));
    for (PT p : {PT::WPlus, PT::WMinus, PT::Z0}) { ElectroweakDecay one(std::set<PT>{p}); VC_EXPECT(one.GetPossibleSignatures() == D.GetPossibleSignaturesFromParent(p), "ew:parents", (int)p); }
}
template<class D> static void charm(std::string const &key, D const &d, std::vector<PT> const &prims) {
    lists(key, d, prims, [](PT p) { return p == PT::D0 || p == PT::D0Bar ? C::D0Mass : p == PT::DPlus || p == PT::DMinus ? C::DPlusMass : C::DsPlusMass; });
    for (PT p : prims) { double tau = p == PT::D0 || p == PT::D0Bar ? 410.1e-15 : p == PT::DPlus || p == PT::DMinus ? 1040e-15 : 504e-15, br = p == PT::D0 || p == PT::D0Bar ? .0558 : p == PT::DPlus || p == PT::DMinus ? .1407 : .0654; double full = 6.582119569e-25 / tau;
        VC_EXPECT(rel(d.TotalDecayWidth(p), full, 1e-3), key + ":lifetime", "parent ", (int)p, " total ", d.TotalDecayWidth(p), " hbar/tau ", full);
        for (auto s : d.GetPossibleSignaturesFromParent(p)) { std::sort(s.secondary_types.begin(), s.secondary_types.end()); do { double w = d.TotalDecayWidth(rec(s, 1.9)), want = full * (s.secondary_types.size() == 1 ? 1 - 2 * br : br); VC_EXPECT(rel(w, want, 1e-3), key + ":branching", chan(s), " width ", w, " expected ", want); vc::trace(); } while (std::next_permutation(s.secondary_types.begin(), s.secondary_types.end()));
            auto bad = s; bad.secondary_types[0] = PT::TauPlus; bool threw = false; try { d.TotalDecayWidth(rec(bad, 1.9)); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, key + ":unknown-mode", chan(bad), " accepted"); } }
}
static void constants() {
    auto E = [&](std::string n, double got, double want, double t) { VC_EXPECT(rel(got, want, t), "constants:" + n, n, " is ", got, ", expected ", want); vc::trace(); vc::state(n); };
    E("m", C::m, 1, 0); E("cm", C::cm / C::m, 0.01, 1e-12); E("GeV", C::GeV, 1, 0); E("TeV", C::TeV / C::GeV, 1e3, 1e-12); E("PeV", C::PeV / C::GeV, 1e6, 1e-12); E("MeV", C::MeV / C::GeV, 1e-3, 1e-12); E("keV", C::keV / C::GeV, 1e-6, 1e-12); E("eV", C::eV / C::GeV, 1e-9, 1e-12);
    E("hbarc", C::hbarc, 1.97327e-16, 1e-3); E("hbar", C::hbar, 6.582119569e-25, 1e-6); E("pi", C::pi, M_PI, 1e-12); E("degrees", C::degrees, M_PI / 180, 1e-12); E("radian", C::radian, 1, 0); E("c", C::c, 0.299792458, 1e-6); E("fermi", C::FermiConstant, 1.1663787e-5, 1e-3); E("alpha", C::fineStructure, 1 / 137.036, 2e-3); E("avogadro", C::avogadro, 6.02214e23, 1e-3); E("elementary-charge", C::elementaryCharge, 1.602e-19, 1e-3);
    struct M { const char *n; double v, w; } ms[] = {{"electron", C::electronMass, 0.00051099895}, {"muon", C::muonMass, 0.1056583755}, {"tau", C::tauMass, 1.77686}, {"proton", C::protonMass, 0.93827209}, {"neutron", C::neutronMass, 0.93956542}, {"pi0", C::Pi0Mass, 0.1349768}, {"pi+", C::PiPlusMass, 0.13957039}, {"pi-", C::PiMinusMass, 0.13957039}, {"K0", C::K0Mass, 0.497611}, {"K+", C::KPlusMass, 0.493677}, {"K-", C::KMinusMass, 0.493677}, {"eta", C::EtaMass, 0.547862}, {"eta'", C::EtaPrimeMass, 0.95778}, {"rho0", C::Rho0Mass, 0.77526}, {"rho+", C::RhoPlusMass, 0.77511}, {"omega", C::OmegaMass, 0.78266}, {"phi", C::PhiMass, 1.019461}, {"D0", C::D0Mass, 1.86484}, {"D+", C::DPlusMass, 1.86966}, {"D-", C::DMinusMass, 1.86966}, {"Ds+", C::DsPlusMass, 1.96835}, {"Ds-", C::DsMinusMass, 1.96835}, {"W", C::wMass, 80.379}, {"Z", C::zMass, 91.1876}, {"K*0", C::KPrime0Mass, 0.89555}, {"K*+", C::KPrimePlusMass, 0.89167}, {"top", C::topMass, 172.76}, {"bottom", C::bottomMass, 4.18}, {"charm", C::charmMass, 1.27}, {"strange", C::strangeMass, 0.0934}};
    for (auto const &x : ms) E(x.n, x.v, x.w, 0.01); double ckm[3][3] = {{C::Vud, C::Vus, C::Vub}, {C::Vcd, C::Vcs, C::Vcb}, {C::Vtd, C::Vts, C::Vtb}}; for (int i = 0; i < 3; ++i) { double r = 0, k = 0; for (int j = 0; j < 3; ++j) r += sq(ckm[i][j]), k += sq(ckm[j][i]); E(vc::cat("ckm-row-", i), r, 1, 5e-3); E(vc::cat("ckm-col-", i), k, 1, 5e-3); } E("weinberg", C::thetaWeinberg, 0.2312, 0.01);
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c = {{"constants", constants, 0}, {"dipole", dipole, 0}, {"electroweak", electroweak, 0}, {"charm", [] { charm("charm", CharmMesonDecay(), {PT::DPlus, PT::DMinus, PT::D0, PT::D0Bar, PT::DsPlus, PT::DsMinus}); }, 0}, {"charm3", [] { charm("charm3", CharmMesonDecay3Body(), {PT::DPlus, PT::D0}); }, 0}};
    for (int k = 0; k < 16; ++k) c.push_back({vc::cat("hnl-", k), [k] { auto g = massgrid(); for (size_t i = k; i < g.size(); i += 16) hnl(g[i], vc::thorough() || i % 4 == 0); }, 0});
    return vc::run(argc, argv, c);
}
