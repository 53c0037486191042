// P16: decay samplers -- for every combination of random choices on the grid, every parent energy, direction,
// helicity, channel: four-momentum conservation, mass shell, angular law in the rest frame, density = law.
// P17: widths -- per-channel width formulae, totals, thresholds, scaling, CP and Majorana relations, decay length.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/dataclasses/ParticleMasses.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Sampling.h"
#include <array>
#include <algorithm>
using namespace siren::interactions; using namespace siren::dataclasses; namespace C = siren::utilities::Constants;
typedef std::array<double, 4> P4; typedef ParticleType PT; typedef std::array<double, 3> V3;
static double sq(double x) { return x * x; }
static double dot3(P4 const &a, P4 const &b) { return a[1]*b[1] + a[2]*b[2] + a[3]*b[3]; }
static double p3(P4 const &a) { return std::sqrt(dot3(a, a)); }
// textbook boost of k into the rest frame of P (mass M)
static P4 rest(P4 const &k, P4 const &P, double M) {
    long double E = sqrtl((long double)dot3(P, P) + (long double)M * M), kP = (long double)k[1]*P[1] + (long double)k[2]*P[2] + (long double)k[3]*P[3];
    long double e = (E * k[0] - kP) / M, f = (kP / (E + M) - k[0]) / M; P4 r; r[0] = e; for (int i = 1; i < 4; ++i) r[i] = k[i] + f * P[i]; return r;
}
static std::vector<V3> const DIRS = {{0,0,1}, {0,0,-1}, {1,0,0}, {-1,0,0}, {0,1,0}, {0,-1,0}, {0.6,0.48,0.64}, {-0.3,0.5,-0.8124038404635961}, {1e-9,0,-1}};
static InteractionRecord parent(InteractionSignature const &s, double M, double gamma, V3 d, double hel) {
    InteractionRecord r; r.signature = s; r.primary_mass = M; double n = std::sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]), E = gamma * M, p = M * std::sqrt((gamma - 1) * (gamma + 1));
    r.primary_momentum = {E, p * d[0] / n, p * d[1] / n, p * d[2] / n}; r.primary_helicity = hel; r.interaction_vertex = {1, 2, 3}; return r;
}
static InteractionRecord sample(Decay const &D, InteractionRecord const &in) {
    CrossSectionDistributionRecord x(in); D.SampleFinalState(x, draw::rng()); InteractionRecord out = in; x.Finalize(out); out.signature = in.signature; vc::step(); return out;
}
static std::string desc(InteractionRecord const &r) { std::string s = vc::cat((int)r.signature.primary_type, "->"); for (auto t : r.signature.secondary_types) s += vc::cat((int)t, ","); return vc::cat(s, " P=(", r.primary_momentum[0], ",", r.primary_momentum[1], ",", r.primary_momentum[2], ",", r.primary_momentum[3], ") M=", r.primary_mass, " h=", r.primary_helicity); }
// conservation and mass shell of a complete final state
static void kinematics(std::string const &key, InteractionRecord const &r, std::vector<double> const &masses, std::string const &where) {
    P4 const &P = r.primary_momentum; double E = P[0]; P4 s = {0,0,0,0};
    VC_EXPECT(r.secondary_momenta.size() == masses.size() && r.secondary_masses.size() == masses.size(), key + ":count", where);
    if (r.secondary_momenta.size() != masses.size()) return;
    for (size_t i = 0; i < masses.size(); ++i) {
        P4 const &k = r.secondary_momenta[i]; for (int j = 0; j < 4; ++j) s[j] += k[j];
        VC_EXPECT(std::fabs((k[0] - p3(k)) * (k[0] + p3(k)) - sq(masses[i])) <= 1e-9 * E * E, key + ":mass-shell", where, " secondary ", i, " E=", k[0], " |p|=", p3(k), " m=", masses[i]);
        VC_EXPECT(std::fabs(sq(r.secondary_masses[i]) - sq(masses[i])) <= 1e-9 * E * E && r.secondary_masses[i] >= 0, key + ":mass", where, " secondary ", i, " recorded mass ", r.secondary_masses[i], " expected ", masses[i]);
        VC_EXPECT(k[0] >= 0, key + ":energy-sign", where);
    }
    for (int j = 0; j < 4; ++j) VC_EXPECT(std::fabs(s[j] - P[j]) <= 1e-8 * E, key + ":conservation", where, " component ", j, " sum=", s[j], " parent=", P[j]);
}
// two-body decay: exhaustive n x n grid of the two choices; law 1/2(1+a c) of particle X about the flight direction, phi uniform and independent.
static void twobody(std::string const &key, Decay const &D, InteractionRecord const &in, size_t X, std::vector<double> const &masses, double a, double hX, double hY, int n) {
    std::vector<std::vector<double>> cell(n); std::string w = desc(in); double M = in.primary_mass;
    double pst = std::sqrt(std::max(0.0, (sq(M) - sq(masses[0] + masses[1])) * (sq(M) - sq(masses[0] - masses[1])))) / (2 * M);
    P4 const &P = in.primary_momentum; double pp = p3(P); V3 z = {P[1]/pp, P[2]/pp, P[3]/pp}, x, y;
    int k = std::fabs(z[0]) < 0.6 ? 0 : std::fabs(z[1]) < 0.6 ? 1 : 2; V3 e = {0,0,0}; e[k] = 1; double ez = z[k]; for (int i = 0; i < 3; ++i) x[i] = e[i] - ez * z[i]; double nx = std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); for (auto &q : x) q /= nx;
    y = {z[1]*x[2]-z[2]*x[1], z[2]*x[0]-z[0]*x[2], z[0]*x[1]-z[1]*x[0]};
    for (int i = -1; i <= n; ++i) for (int j = -1; j <= n; ++j) {
        bool edge = i < 0 || j < 0 || i == n || j == n;
        double u = i < 0 ? 0 : i == n ? 1 : (i + 0.5) / n, v = j < 0 ? 0 : j == n ? 1 : (j + 0.5) / n;
        vc::note(vc::cat(key, " ", w, " u=", u, " v=", v)); draw::script({u, v}); InteractionRecord r = sample(D, in); vc::trace(); std::string where = vc::cat(w, " u=", u, " v=", v);
        VC_EXPECT(std::verif_engine::pos == 2, key + ":choices", where, " consumed ", std::verif_engine::pos);
        kinematics(key, r, masses, where); if (r.secondary_momenta.size() != 2) return;
        VC_EXPECT(r.secondary_helicities.size() == 2 && r.secondary_helicities[X] == hX && r.secondary_helicities[1 - X] == hY, key + ":helicity", where, " got ", r.secondary_helicities[0], ",", r.secondary_helicities[1]);
        VC_EXPECT(r.primary_momentum == in.primary_momentum && r.primary_mass == in.primary_mass && r.interaction_vertex == in.interaction_vertex, key + ":parent-untouched", where);
        P4 q = rest(r.secondary_momenta[X], P, M); double qq = p3(q), gam = P[0] / M, tol = 1e-12 * gam * gam + 1e-7;
        VC_EXPECT(std::fabs(qq - pst) <= tol * M, key + ":rest-momentum", where, " p*=", qq, " expected ", pst);
        double c = (q[1]*z[0] + q[2]*z[1] + q[3]*z[2]) / qq;
        double pdf = D.FinalStateProbability(r), want = 0.5 * (1 + a * c); VC_EXPECT(std::fabs(pdf - want) <= 1e-6 + 1e-11 * gam * gam, key + ":density", where, " cos*=", c, " density=", pdf, " expected ", want);
        VC_EXPECT(vc::close(D.DifferentialDecayWidth(r), D.TotalDecayWidth(r) * want, 1e-5, D.TotalDecayWidth(r) * (1e-6 + 1e-11 * gam * gam)), key + ":differential", where);
        VC_EXPECT(c >= -1 - 1e-9 && c <= 1 + 1e-9, key + ":cos-range", where);
        if (edge) continue;
        double F = 0.5 * (c + 1) + 0.25 * a * (c * c - 1); int b = (int)std::floor(F * n); b = std::min(std::max(b, 0), n - 1);
        VC_EXPECT(std::fabs(F * n - b - 0.5) < 0.05, key + ":cos-law", where, " cos*=", c, " F=", F, " not on the ", n, "-quantile grid of 1/2(1+", a, "c)");
        double ph = std::atan2(q[1]*y[0]+q[2]*y[1]+q[3]*y[2], q[1]*x[0]+q[2]*x[1]+q[3]*x[2]) / (2 * M_PI); cell[b].push_back(ph);
        vc::state(vc::cat(key, w, b, "|", std::lround((ph + 1) * 1e6)));
    }
    double ref = -1;
    for (int b = 0; b < n; ++b) {
        VC_EXPECT((int)cell[b].size() == n, key + ":cos-law", w, " quantile cell ", b, " of ", n, " holds ", cell[b].size(), " of ", n, " choices"); if (cell[b].empty()) continue;
        double r0 = cell[b][0]; if (ref < 0) ref = r0 + 2; std::vector<double> f; for (double p : cell[b]) { double t = (p - (ref - 2)) * n; t -= std::floor(t / n) * n; f.push_back(t); }
        std::vector<char> hit(n, 0); for (double t : f) { long q = std::lround(t) % n; VC_EXPECT(std::fabs(t - std::lround(t)) < 0.05, key + ":phi-law", w, " azimuth off the uniform grid by ", t - std::lround(t)); hit[q] = 1; }
        VC_EXPECT(std::count(hit.begin(), hit.end(), 1) == n, key + ":phi-law", w, " azimuth cells hit: ", std::count(hit.begin(), hit.end(), 1), " of ", n);
    }
}
static InteractionSignature sig(PT p, std::vector<PT> s) { InteractionSignature g; g.primary_type = p; g.target_type = PT::Decay; g.secondary_types = s; return g; }
static double const GAMMAS_Q[] = {1.0005, 1.5, 30}, GAMMAS_T[] = {1.0005, 1.5, 30, 1e3};
static std::vector<double> gammas() { return vc::thorough() ? std::vector<double>(GAMMAS_T, GAMMAS_T + 4) : std::vector<double>(GAMMAS_Q, GAMMAS_Q + 3); }
static int N2() { return vc::thorough() ? 24 : 8; }

static void dipole(bool majorana) {
    for (double m : {0.05, 0.4}) { HNLDipoleDecay D(m, std::vector<double>{1e-6, 2e-6, 3e-6}, majorana ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac);
    for (PT p : {PT::N4, PT::N4Bar}) for (PT nu : (p == PT::N4 ? std::vector<PT>{PT::NuE, PT::NuMu, PT::NuTau} : std::vector<PT>{PT::NuEBar, PT::NuMuBar, PT::NuTauBar})) for (int order : {0, 1}) for (double h : {1.0, -1.0, 0.5}) for (double g : gammas()) for (auto d : DIRS) {
        double a = majorana ? 0 : (h > 0 ? 1 : -1) * (p == PT::N4 ? -1 : 1);
        twobody(vc::cat("dipole:", majorana ? "majorana" : "dirac"), D, parent(order ? sig(p, {nu, PT::Gamma}) : sig(p, {PT::Gamma, nu}), m, g, d, h), order, {0, 0}, a, h > 0 ? 1 : -1, -h, N2());
    } }
}
static std::vector<double> const HNLM = {0.2, 0.6, 1.3, 2.5, 5.0, 150.0};
static double alpha2(PT X, double m) { double v = X == PT::Rho0 ? C::Rho0Mass : X == PT::Omega ? C::OmegaMass : X == PT::Phi ? C::PhiMass : X == PT::KPrime0 ? C::KPrime0Mass : X == PT::Z0 ? C::zMass : -1;
    if (v > 0) return (m*m - 2*v*v) / (m*m + 2*v*v);
    return X == PT::Pi0 || X == PT::Eta || X == PT::EtaPrime || X == PT::Hadrons ? 1 : 0; }
static void hnl2(double m, bool majorana) {
    HNLDecay D(m, std::vector<double>{1e-3, 2e-3, 3e-3}, majorana ? HNLDecay::Majorana : HNLDecay::Dirac);
    for (PT p : {PT::N4, PT::N4Bar}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { if (s.secondary_types.size() != 2) continue;
        double m0 = GetParticleMass(s.secondary_types[0]), m1 = s.secondary_types[1] == PT::Hadrons ? 0 : GetParticleMass(s.secondary_types[1]); InteractionRecord probe; probe.signature = s; if (m0 + m1 >= m * 0.999 || D.TotalDecayWidth(probe) <= 0) continue;
        int k = 0;
        for (double h : {1.0, -1.0}) for (double g : gammas()) for (auto d : DIRS) { ++k; if (!vc::thorough() && m != 1.3 && k % 3) continue;
            double a = majorana ? 0 : alpha2(s.secondary_types[1], m) * (h > 0 ? 1 : -1) * (p == PT::N4 ? -1 : 1);
            twobody(vc::cat("hnl-two-body:", majorana ? "majorana" : "dirac"), D, parent(s, m, g, d, h), 1, {m0, m1}, a, h > 0 ? 1 : -1, -h, vc::thorough() ? 12 : 5); } }
}
static double ewmass(PT t) { switch (t) { case PT::EMinus: case PT::EPlus: return C::electronMass; case PT::MuMinus: case PT::MuPlus: return C::muonMass; case PT::TauMinus: case PT::TauPlus: return C::tauMass;
    case PT::u: case PT::uBar: return C::upMass; case PT::d: case PT::dBar: return C::downMass; case PT::c: case PT::cBar: return C::charmMass; case PT::s: case PT::sBar: return C::strangeMass; case PT::t: case PT::tBar: return C::topMass; case PT::b: case PT::bBar: return C::bottomMass; default: return 0; } }
static void electroweak() {
    ElectroweakDecay D(std::set<PT>{PT::WPlus, PT::WMinus, PT::Z0});
    for (PT p : {PT::WPlus, PT::WMinus, PT::Z0}) { double M0 = p == PT::Z0 ? C::zMass : C::wMass;
      for (double f : {1.0, 0.2}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { double M = M0 * f, m0 = ewmass(s.secondary_types[0]), m1 = ewmass(s.secondary_types[1]); if (m0 + m1 >= M) continue;
        for (double h : {1.0, -1.0}) for (double g : gammas()) for (auto d : DIRS) twobody("electroweak", D, parent(s, M, g, d, h), 0, {m0, m1}, 0, h, h, vc::thorough() ? 12 : 5); } }
}
// ---- charm: three-body with K/K* (eta/eta'/phi) mixture
struct Mode { PT d; std::vector<PT> s; };
static std::vector<Mode> charm_modes(bool three) {
    std::vector<Mode> m = {{PT::DPlus, {PT::K0Bar, PT::EPlus, PT::NuE}}, {PT::DPlus, {PT::K0Bar, PT::MuPlus, PT::NuMu}}, {PT::D0, {PT::KMinus, PT::EPlus, PT::NuE}}, {PT::D0, {PT::KMinus, PT::MuPlus, PT::NuMu}}};
    if (!three) for (Mode x : std::vector<Mode>{{PT::DMinus, {PT::K0, PT::EMinus, PT::NuEBar}}, {PT::DMinus, {PT::K0, PT::MuMinus, PT::NuMuBar}}, {PT::D0Bar, {PT::KPlus, PT::EMinus, PT::NuEBar}}, {PT::D0Bar, {PT::KPlus, PT::MuMinus, PT::NuMuBar}},
        {PT::DsPlus, {PT::Hadrons, PT::EPlus, PT::NuE}}, {PT::DsPlus, {PT::Hadrons, PT::MuPlus, PT::NuMu}}, {PT::DsMinus, {PT::Hadrons, PT::EMinus, PT::NuEBar}}, {PT::DsMinus, {PT::Hadrons, PT::MuMinus, PT::NuMuBar}}}) m.push_back(x);
    return m;
}
static double dmass(PT t) { switch (t) { case PT::D0: case PT::D0Bar: return C::D0Mass; case PT::DPlus: case PT::DMinus: return C::DPlusMass; default: return C::DsPlusMass; } }
static double lmass(PT t) { return t == PT::EPlus || t == PT::EMinus ? C::electronMass : C::muonMass; }
static std::vector<std::pair<double, double>> mixture(PT d) {     // hadron mass, fraction
    if (d == PT::DsPlus || d == PT::DsMinus) return {{C::EtaMass, 2.3 / 5}, {C::EtaPrimeMass, 0.8 / 5}, {C::PhiMass, 1.9 / 5}};
    bool ch = d == PT::DPlus || d == PT::DMinus; double f = ch ? 8.74 / (8.74 + 5.33) : 3.41 / (3.41 + 2.17);
    return {{ch ? C::K0Mass : C::KPlusMass, f}, {C::KPrimePlusMass, 1 - f}};
}
static void charm_kin(bool three, size_t which) {
    std::shared_ptr<Decay> D; if (three) D = std::make_shared<CharmMesonDecay3Body>(); else D = std::make_shared<CharmMesonDecay>();
    Mode m = charm_modes(three)[which]; double M = dmass(m.d), ml = lmass(m.s[1]); int n = vc::thorough() ? 5 : 3; auto mix = mixture(m.d);
    std::vector<V3> dirs = {DIRS[0], DIRS[1], DIRS[3], DIRS[6]};
    for (double h : {-1.0, 1.0}) for (double g : gammas()) for (auto d : dirs) { InteractionRecord in = parent(sig(m.d, m.s), M, g, d, h); std::string w = desc(in);
        for (size_t c = 0; c < mix.size(); ++c) { double lo = 0; for (size_t k = 0; k < c; ++k) lo += mix[k].second; double um = lo + 0.5 * mix[c].second;
        auto G = draw::grid(n, false); for (double a : G) for (double b : G) for (double e : G) for (double f : G) for (double q : G) {
            draw::script({um, a, 0, b, e, f, q, 0}); vc::note(vc::cat("charm ", w, " ", um, " ", a, " ", b, " ", e, " ", f, " ", q)); InteractionRecord r = sample(*D, in); vc::trace();
            std::string where = vc::cat(w, " choices ", um, ",", a, ",0,", b, ",", e, ",", f, ",", q, ",0");
            kinematics("charm", r, {mix[c].first, ml, 0}, where); if (r.secondary_momenta.size() != 3) return;
            for (double x : r.secondary_helicities) VC_EXPECT(x == h, "charm:helicity", where);
            vc::state(vc::cat(w, um, a, b, e, f, q));
        } } }
    // hadronic catch-all keeps the four-momentum
    for (double g : gammas()) for (auto d : DIRS) { InteractionRecord in = parent(sig(m.d, {PT::Hadrons}), M, g, d, 1); InteractionRecord r = sample(*D, in); vc::trace(); kinematics("charm-hadronic", r, {M}, desc(in)); VC_EXPECT(D->FinalStateProbability(r) == 1, "charm-hadronic:density", desc(in)); }
}
// accepted measure of the first pass of the accept/reject sampler, enumerated over all choices, versus FinalStateProbability
static void charm_law(bool three, size_t which) {
    std::shared_ptr<Decay> D; if (three) D = std::make_shared<CharmMesonDecay3Body>(); else D = std::make_shared<CharmMesonDecay>();
    Mode m = charm_modes(three)[which]; double M = dmass(m.d), ml = lmass(m.s[1]); auto mix = mixture(m.d); bool ds = m.d == PT::DsPlus || m.d == PT::DsMinus;
    InteractionRecord in = parent(sig(m.d, m.s), M, 4, DIRS[6], 1); std::string w = desc(in);
    int nu = vc::thorough() ? 40 : 20, nv = vc::thorough() ? 60 : 32, nc = vc::thorough() ? 12 : 6, nw = vc::thorough() ? 60 : 32; double total = 0;
    // the mixture: fraction of the first choice that leads to each hadron mass
    { int n = 2000; std::map<long, int> cnt; for (int i = 0; i < n; ++i) { draw::script({(i + 0.5) / n, 0.5, 0, 0.5, 0.5, 0.5, 0.5, 0}); InteractionRecord r = sample(*D, in); cnt[std::lround(r.secondary_masses[0] * 1e5)]++; vc::state(vc::cat("mix", i)); }
      for (auto &c : mix) VC_EXPECT(std::fabs(cnt[std::lround(c.first * 1e5)] / double(n) - c.second) < 1.5e-3, "charm:mixture", w, " hadron mass ", c.first, " drawn with fraction ", cnt[std::lround(c.first * 1e5)] / double(n), " expected ", c.second); }
    for (size_t c = 0; c < mix.size(); ++c) {
        double lo = 0; for (size_t k = 0; k < c; ++k) lo += mix[k].second; double um = lo + 0.5 * mix[c].second, m23lo = ml, m23hi = M - mix[c].first;
        std::vector<double> acc(nu, 0), pdf(nu, 0), q2s(nu, 0);
        for (int i = 0; i < nu; ++i) { double a = (i + 0.5) / nu;
            // one always-accepted draw: gives q2 and the density there
            draw::script({um, a, 0, 0.5, 0.5, 0.5, 0.5, 0}); InteractionRecord r0 = sample(*D, in); if (r0.secondary_momenta.size() != 3) return;
            P4 K = r0.secondary_momenta[0]; P4 q; for (int j = 0; j < 4; ++j) q[j] = in.primary_momentum[j] - K[j]; q2s[i] = q[0]*q[0] - dot3(q, q); pdf[i] = D->FinalStateProbability(r0);
            double m23 = std::sqrt(q2s[i]); VC_EXPECT(vc::close(m23, m23lo + a * (m23hi - m23lo), 1e-6), "charm:q2-range", w, " m23=", m23, " for choice ", a);
            for (int v = 0; v < nv; ++v) for (int x = 0; x < nc; ++x) for (int y = 0; y < (ds ? 1 : nc); ++y) for (int z = 0; z < (ds ? 1 : nw); ++z) {
                draw::script({um, a, (v + 0.5) / nv, (x + 0.5) / nc, (y + 0.5) / nc, 0.37, 0.61, (z + 0.5) / nw}); std::verif_engine::limit = 8; bool ok = true;
                try { sample(*D, in); } catch (std::verif_engine::exhausted const &) { ok = false; }
                std::verif_engine::limit = 0; if (ok) acc[i] += 1; vc::trace();
            }
            vc::state(vc::cat(w, c, i));
        }
        // density per unit m23 = pdf * 2 m23 ; compare shapes after normalising both
        double sa = 0, sp = 0; for (int i = 0; i < nu; ++i) { pdf[i] *= 2 * std::sqrt(q2s[i]); sa += acc[i]; sp += pdf[i]; }
        VC_EXPECT(sa > 0 && sp > 0, "charm:law-empty", w); double mx = 0; for (int i = 0; i < nu; ++i) mx = std::max(mx, pdf[i] / sp);
        for (int i = 0; i < nu; ++i) VC_EXPECT(std::fabs(acc[i] / sa - pdf[i] / sp) <= 0.05 * mx, "charm:q2-law", w, " component ", c, " m23=", std::sqrt(q2s[i]), " enumerated acceptance ", acc[i] / sa, " density ", pdf[i] / sp);
        // normalisation of the density over q2 equals the mixture fraction
        double I = draw::quad([&](double m23) { draw::script({um, (m23 - m23lo) / (m23hi - m23lo), 0, 0.5, 0.5, 0.5, 0.5, 0}); InteractionRecord r = sample(*D, in); return D->FinalStateProbability(r) * 2 * m23; }, m23lo * (1 + 1e-12), m23hi, 100);
        VC_EXPECT(std::fabs(I - mix[c].second) < 2e-3, "charm:normalisation", w, " component ", c, " integral ", I, " expected ", mix[c].second); total += I;
    }
    VC_EXPECT(std::fabs(total - 1) < 4e-3, "charm:normalisation", w, " total ", total);
}
// ---- HNL three-body
static std::vector<double> rep(std::vector<double> const &prop, int k) { std::vector<double> s; for (int i = 0; i < k; ++i) for (double x : prop) s.push_back(x); return s; }
static void hnl3(double m, bool majorana) {
    HNLDecay D(m, std::vector<double>{1e-3, 2e-3, 3e-3}, majorana ? HNLDecay::Majorana : HNLDecay::Dirac); int n = vc::thorough() ? 5 : 3;
    std::vector<V3> dirs = {DIRS[0], DIRS[3], DIRS[6]}; if (!vc::thorough()) dirs = {DIRS[0], DIRS[6]};
    for (PT p : {PT::N4, PT::N4Bar}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { if (s.secondary_types.size() != 3 || s.secondary_types[1] == PT::NuLightBar) continue;
        double ma = ewmass(s.secondary_types[1]), mb = ewmass(s.secondary_types[2]); if (ma + mb >= 0.99 * m) continue;
        for (double h : {1.0, -1.0}) for (double g : {1.01, 20.0}) for (auto d : dirs) { InteractionRecord in = parent(s, m, g, d, h); std::string w = desc(in);
            auto G = draw::grid(n, false); for (double a : G) for (double b : G) for (double c : G) for (double e : G) for (double f : {0.1, 0.6}) {
                draw::script(rep({a, b, c, e, f}, 45)); vc::note(vc::cat("hnl3 ", w, " ", a, " ", b, " ", c, " ", e, " ", f)); InteractionRecord r = sample(D, in); vc::trace();
                std::string where = vc::cat(w, " choices ", a, ",", b, ",", c, ",", e, ",", f); kinematics("hnl-three-body", r, {0, ma, mb}, where); if (r.secondary_momenta.size() != 3) return;
                VC_EXPECT(r.secondary_helicities[0] == h, "hnl-three-body:helicity", where);
                vc::state(vc::cat(w, a, b, c, e, f));
                if (f == 0.1) { // Dalitz limits reached by the first choice
                    P4 q; for (int j = 0; j < 4; ++j) q[j] = r.secondary_momenta[0][j] + r.secondary_momenta[1][j]; double s1 = (q[0]*q[0] - dot3(q, q)) / (m*m), lo = sq(ma / m), hi = sq(1 - mb / m);
                    VC_EXPECT(std::fabs(s1 - (lo + a * (hi - lo))) < 1e-6, "hnl-three-body:s1", where, " s1=", s1, " expected ", lo + a * (hi - lo)); }
            } } }
}
// the Markov chain's acceptance of B from A equals min(1, [f(B)/q(B)]/[f(A)/q(A)]), q measured from the proposal map itself
static void hnl3_chain(double m, bool majorana) {
    HNLDecay D(m, std::vector<double>{1e-3, 2e-3, 3e-3}, majorana ? HNLDecay::Majorana : HNLDecay::Dirac);
    for (PT p : {PT::N4, PT::N4Bar}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { if (s.secondary_types.size() != 3 || s.secondary_types[1] == PT::NuLightBar) continue;
        double ma = ewmass(s.secondary_types[1]), mb = ewmass(s.secondary_types[2]); if (ma + mb >= 0.9 * m) continue; InteractionRecord in = parent(s, m, 1.5, DIRS[6], 1); std::string w = desc(in);
        struct Pt { std::vector<double> u; double f, q, s1, s2; }; std::vector<Pt> pts;
        auto inv = [&](InteractionRecord const &r, int i) { P4 q; for (int j = 0; j < 4; ++j) q[j] = r.secondary_momenta[0][j] + r.secondary_momenta[i][j]; return (q[0]*q[0] - dot3(q, q)) / (m*m); };
        for (double a : {0.15, 0.5, 0.8}) for (double b : {0.2, 0.7}) for (double c : {0.3, 0.9}) { Pt x; x.u = {a, b, c, 0.2, 0.4}; draw::script(rep(x.u, 45)); InteractionRecord r = sample(D, in); x.f = D.DifferentialDecayWidth(r); x.s1 = inv(r, 1); x.s2 = inv(r, 2);
            double e = 1e-3; auto u0 = x.u, u1 = x.u; u0[1] -= e; u1[1] += e; draw::script(rep(u0, 45)); double l = inv(sample(D, in), 2); draw::script(rep(u1, 45)); double hgh = inv(sample(D, in), 2); x.q = 2 * e / (hgh - l); pts.push_back(x); }
        std::sort(pts.begin(), pts.end(), [](Pt const &x, Pt const &y) { return x.f / x.q < y.f / y.q; }); Pt low = pts.front(); VC_EXPECT(low.f > 0, "hnl-chain:positive", w, " f=", low.f, " q=", low.q, " s1=", low.s1, " s2=", low.s2);
        for (size_t A = 1; A < pts.size(); ++A) for (size_t B = 1; B < A; ++B) { double want = (pts[B].f / pts[B].q) / (pts[A].f / pts[A].q); if (want < 1e-3 || want > 0.999) continue;
            auto accepted = [&](double v) { std::vector<double> sc = pts[A].u; sc.insert(sc.end(), pts[B].u.begin(), pts[B].u.end()); sc.push_back(v); for (int k = 0; k < 45; ++k) { sc.insert(sc.end(), low.u.begin(), low.u.end()); sc.push_back(1); }
                draw::script(sc); InteractionRecord r = sample(D, in); vc::trace(); return std::fabs(inv(r, 1) - pts[B].s1) + std::fabs(inv(r, 2) - pts[B].s2) < std::fabs(inv(r, 1) - pts[A].s1) + std::fabs(inv(r, 2) - pts[A].s2); };
            if (std::fabs(pts[A].s1 - pts[B].s1) + std::fabs(pts[A].s2 - pts[B].s2) < 1e-3) continue;
            double lo = 0, hi = 1; for (int k = 0; k < 16; ++k) { double mid = 0.5 * (lo + hi); (accepted(mid) ? lo : hi) = mid; }
            VC_EXPECT(std::fabs(lo - want) < 0.01 + 0.01 * want, "hnl-chain:acceptance", w, " from (", pts[A].s1, ",", pts[A].s2, ") to (", pts[B].s1, ",", pts[B].s2, "): accepted with probability ", lo, ", the target law needs ", want); vc::state(vc::cat(w, A, ",", B));
        } }
}
// the reported density of a three-body decay is non-negative and integrates to one over the phase space the proposals span
static void hnl3_norm(double m, bool majorana) {
    std::vector<std::vector<double>> mixes = {{1e-3, 2e-3, 3e-3}, {1e-3, 0, 0}, {0, 1e-3, 0}, {0, 0, 1e-3}}; int n = vc::thorough() ? 64 : 16;
    for (auto const &mx : mixes) { HNLDecay D(m, mx, majorana ? HNLDecay::Majorana : HNLDecay::Dirac);
    for (PT p : {PT::N4, PT::N4Bar}) for (auto const &s : D.GetPossibleSignaturesFromParent(p)) { if (s.secondary_types.size() != 3) continue;
        if (s.secondary_types[1] == PT::NuLightBar) { InteractionRecord r = sample(D, parent(s, m, 2, DIRS[6], 1)); VC_EXPECT(D.FinalStateProbability(r) == 1, "hnl-three-body:invisible-density", desc(r), " ", D.FinalStateProbability(r)); continue; }
        double ma = ewmass(s.secondary_types[1]), mb = ewmass(s.secondary_types[2]); if (ma + mb >= 0.9 * m) continue;
        for (double h : {1.0, -1.0}) for (double g : {1.2, 20.0}) { if (!vc::thorough() && (h > 0) != (g > 5)) continue; InteractionRecord in = parent(s, m, g, DIRS[6], h); std::string w = desc(in); if (D.TotalDecayWidth(in) == 0) continue; long double I = 0, vol = 0;
            auto inv2 = [&](InteractionRecord const &r) { P4 q; for (int j = 0; j < 4; ++j) q[j] = r.secondary_momenta[0][j] + r.secondary_momenta[2][j]; return (q[0]*q[0] - dot3(q, q)) / (m*m); };
            double r1 = sq(1 - mb / m) - sq(ma / m);
            for (int i = 0; i < n; ++i) { // Gauss-like substitution in the first choice: u = (1 - cos(pi t)) / 2 resolves the vanishing edges
                double t = (i + 0.5) / n, a = 0.5 * (1 - std::cos(M_PI * t)), da = 0.5 * M_PI * std::sin(M_PI * t) / n; double lo, hi; { draw::script(rep({a, 0.25, 0.5, 0.3, 0.3}, 45)); lo = inv2(sample(D, in)); draw::script(rep({a, 0.75, 0.5, 0.3, 0.3}, 45)); hi = inv2(sample(D, in)); } double r2 = 2 * (hi - lo);
                for (int j = 0; j < 4; ++j) for (int k = 0; k < 2; ++k) for (int q = 0; q < 3; ++q) for (double ph : {0.05, 0.55}) { double GX[4] = {0.0694318442029737, 0.3300094782075719, 0.6699905217924281, 0.9305681557970263}, GW[4] = {0.1739274225687269, 0.3260725774312731, 0.3260725774312731, 0.1739274225687269}, CX[2] = {0.21132486540518713, 0.7886751345948129};
                    draw::script(rep({a, GX[j], CX[k], ph, (q + 0.5) / 3}, 45)); InteractionRecord r = sample(D, in); vc::trace(); double f = D.FinalStateProbability(r); VC_EXPECT(f >= -1e-9, "hnl-three-body:negative-density", w, " density ", f, " at choices ", a, ",", GX[j], ",", CX[k]);
                    double wt = da * r1 * r2 * GW[j] * 0.5 / 6 * 8 * M_PI * M_PI; I += f * wt; vol += wt; }
                vc::state(vc::cat(w, mx[0], mx[1], mx[2], majorana, i)); }
            VC_EXPECT(std::fabs(I - 1) < 0.02, "hnl-three-body:normalisation", w, majorana ? " Majorana" : " Dirac", " mixing ", mx[0], ",", mx[1], ",", mx[2], ": density integrates to ", (double)I, " over phase space ", (double)vol);
        } } }
}
// the sampler template itself, exactly: 3-state space, all choice sequences, k steps versus the Markov chain
static void chain_exact() {
    int K = vc::thorough() ? 3 : 2;
    for (int tgt = 0; tgt < 4; ++tgt) for (int pr = 0; pr < 3; ++pr) for (int burn = 0; burn < K; ++burn) {
        std::vector<double> f[] = {{1, 2, 5}, {3, 3, 3}, {0, 1, 4}, {8, 1, 0}}, q[] = {{1./3, 1./3, 1./3}, {0.5, 0.25, 0.25}, {0.125, 0.5, 0.375}}; auto const &F = f[tgt], &Q = q[pr];
        std::vector<double> cum = {Q[0], Q[0] + Q[1], 1};
        auto run = [&](std::vector<double> const &us) { draw::script(us); auto R = draw::rng(); auto prop = [&]() { double u = R->Uniform(0, 1); int s = u < cum[0] ? 0 : u < cum[1] ? 1 : 2; return std::make_pair(std::vector<double>{double(s)}, Q[s]); };
            auto like = [&](std::vector<double> x) { return F[int(x[0])]; }; auto v = siren::utilities::MetropolisHasting_Sample(prop, like, R, burn); vc::step(); return int(v[0]); };
        // exact chain
        std::vector<double> pi = Q; for (int s = 0; s <= burn; ++s) { std::vector<double> nx(3, 0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double wi = F[i] / Q[i], wj = F[j] / Q[j], al = wi <= 0 ? 1 : std::min(1.0, wj / wi); nx[j] += pi[i] * Q[j] * al; nx[i] += pi[i] * Q[j] * (1 - al); } pi = nx; }
        // enumerate: each proposal is one of 3 cells, each acceptance word on a grid of n cells; the engine reports how many words were used
        int n = 240; std::vector<double> got(3, 0); std::function<void(std::vector<double>, double)> rec = [&](std::vector<double> us, double wgt) {
            int r = -1; if (!us.empty()) { std::verif_engine::limit = us.size(); try { r = run(us); } catch (std::verif_engine::exhausted const &) {} std::verif_engine::limit = 0; }
            if (r >= 0) { got[r] += wgt; vc::trace(); return; }
            // proposal positions are those reached right after start, an accepted/rejected step: determined by replaying the reference chain
            size_t i = 0; int cur = -1; bool needAccept = false; auto cellof = [&](double u) { return u < cum[0] ? 0 : u < cum[1] ? 1 : 2; };
            while (i < us.size()) { int pnew = cellof(us[i++]); if (cur < 0) { cur = pnew; continue; } double wi = F[cur] / Q[cur], wj = F[pnew] / Q[pnew]; if (wi <= 0 || wj >= wi) { cur = pnew; continue; } if (i >= us.size()) { needAccept = true; break; } if (us[i++] < wj / wi) cur = pnew; }
            if (needAccept) for (int k = 0; k < n; ++k) { auto v = us; v.push_back((k + 0.5) / n); rec(v, wgt / n); }
            else for (int k = 0; k < 3; ++k) { auto v = us; v.push_back(k ? 0.5 * (cum[k - 1] + cum[k]) : 0.5 * cum[0]); rec(v, wgt * Q[k]); }
        };
        rec({}, 1);
        for (int i = 0; i < 3; ++i) VC_EXPECT(std::fabs(got[i] - pi[i]) < 0.01, "metropolis:law", "target ", tgt, " proposal ", pr, " burn-in ", burn, " state ", i, ": enumerated probability ", got[i], " exact chain ", pi[i]); vc::state(vc::cat(tgt, pr, burn));
    }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c = {{"dipole-dirac", [] { dipole(false); }, 0}, {"dipole-majorana", [] { dipole(true); }, 0}, {"electroweak", electroweak, 0}, {"metropolis", chain_exact, 0}};
    for (double m : HNLM) for (bool mj : {false, true}) c.push_back({vc::cat("hnl2-", m, mj ? "-majorana" : "-dirac"), [m, mj] { hnl2(m, mj); }, 0});
    for (double m : {0.3, 1.3, 5.0}) { for (bool mj : {false, true}) c.push_back({vc::cat("hnl3-", m, mj ? "-majorana" : "-dirac"), [m, mj] { hnl3(m, mj); }, 0}); for (bool mj : {false, true}) { c.push_back({vc::cat("hnl3-chain-", m, mj ? "-majorana" : "-dirac"), [m, mj] { hnl3_chain(m, mj); }, 0}); c.push_back({vc::cat("hnl3-norm-", m, mj ? "-majorana" : "-dirac"), [m, mj] { hnl3_norm(m, mj); }, 0}); } }
    for (bool three : {false, true}) for (size_t i = 0; i < charm_modes(three).size(); ++i) { c.push_back({vc::cat("charm-kin-", three, "-", i), [three, i] { charm_kin(three, i); }, 0}); c.push_back({vc::cat("charm-law-", three, "-", i), [three, i] { charm_law(three, i); }, 0}); }
    return vc::run(argc, argv, c);
}
