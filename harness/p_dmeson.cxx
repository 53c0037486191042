// P41: energy loss of charm mesons. The inelasticity is a Gaussian cut to the kinematic range, so densities, shares and the total
// cross section have closed forms; the sampler's two random words are enumerated.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/DMesonELoss.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include <algorithm>
#include <array>
#include <set>
#include <sstream>
using namespace siren::dataclasses; using namespace siren::interactions; namespace K = siren::utilities::Constants; typedef ParticleType PT; typedef std::array<double, 3> V3;
static double sq(double x) { return x * x; } static std::vector<PT> const DS = {PT::D0, PT::DPlus, PT::DsPlus, PT::D0Bar, PT::DMinus, PT::DsMinus};
static double mass(int k) { return k % 3 == 0 ? K::D0Mass : k % 3 == 1 ? K::DPlusMass : K::DsPlusMass; }
static double const Z0 = 0.56, S = 0.2, ZMIN = 0.001;
static double zmax(double E, double m) { return std::min(1.0, 1 - m / E); }
static double phi(double z) { return 0.5 * std::erf((z - Z0) / (S * std::sqrt(2.0))); }
static double area(double a, double b) { return b - a < 1e-3 ? (b - a) * std::exp(-sq((a + b) / 2 - Z0) / (2 * S * S)) / (S * std::sqrt(2 * M_PI)) : phi(b) - phi(a); }
static double density(double z, double E, double m) { double h = zmax(E, m); return h <= ZMIN || z < ZMIN || z > h ? 0 : std::exp(-sq(z - Z0) / (2 * S * S)) / (S * std::sqrt(2 * M_PI)) / area(ZMIN, h); }
static double total(double E) { double l = std::log10(E); return (std::exp(1.891 + 0.205 * l) - 2.157 + 1.264 * l) * 1e-27; }
static bool close(double a, double b, double e) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= e * std::max(std::fabs(a), std::fabs(b)); }
static std::vector<V3> const DIRS = {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0.36, -0.48, 0.8}, {-0.6, 0.64, -0.48}, {0, -1, 0}};
static InteractionRecord incoming(int k, double E, V3 d, double hel = 0.5) { double m = mass(k); InteractionRecord r = draw::event(E, d[0], d[1], d[2], m, DS[k]); r.signature.target_type = PT::PPlus; r.signature.secondary_types = {DS[k], PT::Hadrons}; r.target_mass = K::protonMass; r.primary_helicity = hel; r.target_helicity = -0.25; return r; }
static std::vector<double> energies(double m) { std::vector<double> o; for (double f : {1.0015, 1.01, 1.1, 1.5, 2.0, 3.0, 5.0, 10.0, 40.0, 1e3, 1e5, 1e7, 1e9}) o.push_back(m * f); return o; }
// 0 sampled, 1 refused for good (InjectionFailure), 2 wants more words than given
static int sample(CrossSection const &X, InteractionRecord const &in, std::vector<double> const &w, InteractionRecord &out, size_t limit) {
    draw::script(w); draw::Eng::limit = limit; int st = 0; try { CrossSectionDistributionRecord c(in); X.SampleFinalState(c, draw::rng()); c.Finalize(out = in); } catch (siren::utilities::InjectionFailure const &) { st = 1; } catch (draw::Eng::exhausted const &) { st = 2; } draw::Eng::limit = 0; return st; }
static void judge(CrossSection const &X, InteractionRecord const &r, InteractionRecord const &in, int k, double E, std::string const &h) {
    double m = mass(k); bool sized = r.secondary_momenta.size() == 2 && r.secondary_masses.size() == 2; VC_EXPECT(sized, "secondaries", h); if (!sized) return; auto &D = r.secondary_momenta[0], &H = r.secondary_momenta[1]; auto &P = in.primary_momentum;
    double z = 1 - D[0] / E; VC_EXPECT(D[0] <= E && D[0] >= m * (1 - 1e-12) && z >= ZMIN - 1e-9 && z <= zmax(E, m) + 1e-9, "range", h, ": z = ", z); VC_EXPECT(close(D[0] + H[0], E, 1e-12), "energy", h, ": ", D[0], " + ", H[0]);
    double p2 = sq(D[1]) + sq(D[2]) + sq(D[3]), q2 = sq(H[1]) + sq(H[2]) + sq(H[3]), P2 = sq(P[1]) + sq(P[2]) + sq(P[3]); VC_EXPECT(std::fabs(sq(D[0]) - p2 - m * m) <= 1e-10 * sq(D[0]) + 1e-9, "meson-mass", h, ": ", sq(D[0]) - p2); VC_EXPECT(close(r.secondary_masses[0], m, 1e-9), "meson-mass", h); VC_EXPECT(close(H[0], std::sqrt(q2), 1e-9) && std::fabs(r.secondary_masses[1]) < 1e-9, "hadron-mass", h, ": mass ", r.secondary_masses[1]);
    for (int i = 1; i < 4; ++i) { VC_EXPECT(std::fabs(D[i] / std::sqrt(p2 + 1e-300) - P[i] / std::sqrt(P2)) < 1e-9 || p2 < 1e-12, "direction", h, ": the meson turned"); VC_EXPECT(std::fabs(H[i] / std::sqrt(q2) - P[i] / std::sqrt(P2)) < 1e-9, "direction", h, ": the hadrons turned"); }
    VC_EXPECT(r.secondary_helicities.size() == 2 && r.secondary_helicities[0] == in.primary_helicity, "helicity", h);
    double f = X.FinalStateProbability(r), want = density(z, E, m); if (z > ZMIN + 1e-9 && z < zmax(E, m) - 1e-9) { VC_EXPECT(close(f, want, 1e-4), "density", h, ": z = ", z, " has density ", f, " instead of ", want); VC_EXPECT(close(X.DifferentialCrossSection(r), want * total(E), 1e-4), "differential", h, ": ", X.DifferentialCrossSection(r)); } }
static void sampling(int k) {
    DMesonELoss X; double m = mass(k); int n = vc::thorough() ? 60 : 24; for (double E : energies(m)) for (auto &d : DIRS) { InteractionRecord in = incoming(k, E, d, k % 2 ? 0.5 : -0.5), out; int got = 0; std::string h0 = vc::cat(int(DS[k]), " at ", E, " along ", d[0], " ", d[1], " ", d[2]);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double u = (i + 0.5) / n, v = (j + 0.5) / n; ++vc::R.states; vc::step(); std::string h = vc::cat(h0, ", words ", u, " ", v); vc::note(h); if (sample(X, in, {u, v}, out, 2)) continue; ++got; judge(X, out, in, k, E, h); }
        if (area(ZMIN, zmax(E, m)) > 0.2) { ++vc::R.evaluations; VC_EXPECT(got > 0, "never", h0, ": nothing sampled"); }
        for (double u : {0.0, 1e-300, 0.5, 1.0}) for (double v : {0.0, 0.25, 0.5, 1.0}) { ++vc::R.states; std::vector<double> w = {u, v}; for (int t = 0; t < 400; ++t) { w.push_back((t % 20 + 0.5) / 20); w.push_back((t / 20 + 0.5) / 20); } int st = sample(X, in, w, out, w.size()); ++vc::R.evaluations; if (st == 0) judge(X, out, in, k, E, vc::cat(h0, ", words ", u, " ", v, " and others")); }
        vc::trace(); } }
static void shares(int k) {
    DMesonELoss X; double m = mass(k); int n = vc::thorough() ? 2000 : 700; for (double E : energies(m)) { double hi = zmax(E, m); if (area(ZMIN, hi) < 0.02) continue; InteractionRecord in = incoming(k, E, DIRS[3]), out; std::vector<double> z; std::string h = vc::cat(int(DS[k]), " at ", E); vc::note(h);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (sample(X, in, {(i + 0.5) / n, (j + 0.5) / n}, out, 2)) continue; z.push_back(1 - out.secondary_momenta[0][0] / E); } vc::R.states += (unsigned long long)n * n; vc::step(); vc::trace();
        std::sort(z.begin(), z.end()); bool any = z.size() > 100; VC_EXPECT(any, "never", h); if (!any) continue; double worst = 0, at = 0; for (int q = 0; q < 60; ++q) { double c = ZMIN + (hi - ZMIN) * (q + 0.5) / 60, F = double(std::upper_bound(z.begin(), z.end(), c) - z.begin()) / z.size(), W = area(ZMIN, c) / area(ZMIN, hi); if (std::fabs(F - W) > worst) worst = std::fabs(F - W), at = c; }
        ++vc::R.evaluations; double tol = 0.003 + 0.02 / (n * std::sqrt(double(z.size())) / n); VC_EXPECT(worst < tol, "share", h, ": the share of samples below z = ", at, " is off by ", worst); } }
static void values() {
    DMesonELoss X; for (int k = 0; k < 6; ++k) { double m = mass(k); for (double E : energies(m)) { ++vc::R.states; vc::step(); InteractionRecord in = incoming(k, E, DIRS[4]); std::string h = vc::cat(int(DS[k]), " at ", E); vc::note(h); VC_EXPECT(close(X.TotalCrossSection(DS[k], E), total(E), 1e-9) && close(X.TotalCrossSection(in), total(E), 1e-9), "total", h, ": ", X.TotalCrossSection(in), " instead of ", total(E)); double hi = zmax(E, m);
            auto at = [&](double z, bool diff) { InteractionRecord r = in; double e = E * (1 - z), p = std::sqrt(std::max(0.0, e * e - m * m)); r.secondary_momenta = {{e, p * DIRS[4][0], p * DIRS[4][1], p * DIRS[4][2]}, {E - e, 0, 0, E - e}}; r.secondary_masses = {m, 0}; r.secondary_helicities = {0.5, 0}; return diff ? X.DifferentialCrossSection(r) : X.FinalStateProbability(r); };
            for (int i = -10; i <= 210; ++i) { double z = ZMIN + (hi - ZMIN) * i / 200; if (std::fabs(z - ZMIN) < 1e-9 || std::fabs(z - hi) < 1e-9) continue; double want = density(z, E, m), f = at(z, false), g = at(z, true); ++vc::R.evaluations; ++vc::R.states; VC_EXPECT(want == 0 ? f == 0 && g == 0 : close(f, want, 1e-4) && close(g, want * total(E), 1e-4), "density", h, ": z = ", z, " has density ", f, " instead of ", want); }
            if (hi > ZMIN) { double I = draw::quad([&](double z) { return at(z, false); }, ZMIN + 1e-12, hi - 1e-12, 40); VC_EXPECT(std::fabs(I - 1) < 1e-3, "normalised", h, ": the density integrates to ", I); } vc::trace(); }
        // nothing below the mass, and no endless search
        for (double f : {0.2, 0.9, 1.0}) { InteractionRecord r = incoming(k, m * f, DIRS[0]); r.primary_momentum = {m * f, 0, 0, 0}; InteractionRecord o; ++vc::R.states; if (f == 1.0) { int st = sample(X, r, {0.3, 0.3}, o, 100000); VC_EXPECT(st == 1, "at-rest", int(DS[k]), ": ", st); } r.secondary_momenta = {{m * f, 0, 0, 0}, {0, 0, 0, 0}}; VC_EXPECT(X.FinalStateProbability(r) == 0, "below", int(DS[k])); }
        { InteractionRecord in = incoming(k, 100, DIRS[0]), o; std::vector<double> w; for (int i = 0; i < 200000; ++i) w.push_back(i % 2 ? 0.0 : 1e-12); ++vc::R.states; int st = sample(X, in, w, o, w.size()); VC_EXPECT(st == 1, "endless", int(DS[k]), ": ", st, ": hopeless words do not end the search"); }
        auto T = X.GetPossibleTargetsFromPrimary(DS[k]); auto s = X.GetPossibleSignaturesFromParents(DS[k], PT::PPlus); VC_EXPECT(T.size() == 1 && T[0] == PT::PPlus && s.size() == 1 && s[0].primary_type == DS[k] && s[0].target_type == PT::PPlus && s[0].secondary_types == (std::vector<PT>{DS[k], PT::Hadrons}), "signature", int(DS[k])); }
    for (PT p : {PT::PiPlus, PT::NuMu, PT::KMinus, PT::MuMinus}) { bool t = false; try { X.TotalCrossSection(p, 1e3); } catch (std::exception const &) { t = true; } VC_EXPECT(t, "other-primary", int(p)); }
    auto P = X.GetPossiblePrimaries(); VC_EXPECT(std::set<PT>(P.begin(), P.end()) == std::set<PT>(DS.begin(), DS.end()) && P.size() == 6, "primaries", P.size()); auto G = X.GetPossibleSignatures(); std::set<PT> g; for (auto &s : G) { g.insert(s.primary_type); VC_EXPECT(s.target_type == PT::PPlus && s.secondary_types == (std::vector<PT>{s.primary_type, PT::Hadrons}), "signature", int(s.primary_type)); } VC_EXPECT(G.size() == 6 && g.size() == 6, "signatures", G.size()); VC_EXPECT(X.GetPossibleTargets() == std::vector<PT>{PT::PPlus} && X.DensityVariables().size() == 1, "targets", "");
    for (int how = 0; how < 2; ++how) { std::stringstream s; std::shared_ptr<CrossSection> a = std::make_shared<DMesonELoss>(), b; if (how) { { cereal::JSONOutputArchive o(s); o(a); } cereal::JSONInputArchive i(s); i(b); } else { { cereal::BinaryOutputArchive o(s); o(a); } cereal::BinaryInputArchive i(s); i(b); } ++vc::R.states; VC_EXPECT(b && *a == *b, "persist-equal", how); VC_EXPECT(b->GetPossiblePrimaries() == a->GetPossiblePrimaries() && b->GetPossibleSignatures() == a->GetPossibleSignatures(), "persist-lists", how); InteractionRecord in = incoming(2, 1e6, DIRS[3]), x, y; sample(*a, in, {0.3, 0.4}, x, 2); sample(*b, in, {0.3, 0.4}, y, 2); VC_EXPECT(x.secondary_momenta == y.secondary_momenta && x.secondary_masses == y.secondary_masses && x.secondary_momenta.size() == 2, "persist-sample", how); VC_EXPECT(b->TotalCrossSection(in) == a->TotalCrossSection(in), "persist-total", how); } }
int main(int argc, char **argv) {
    std::vector<vc::Case> c; c.push_back({"values", values}); for (int k = 0; k < 6; ++k) { c.push_back({vc::cat("sampling-", k), [k] { sampling(k); }}); c.push_back({vc::cat("shares-", k), [k] { shares(k); }}); }
    return vc::run(argc, argv, c);
}
