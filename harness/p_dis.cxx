// P38: deep inelastic cross sections from spline tables (neutrino, heavy neutral lepton by mixing, by dipole). The tables are
// multilinear in the logarithms (shim/photospline), so every answer has a closed form.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/DISFromSpline.h"
#include "SIREN/interactions/HNLDISFromSpline.h"
#include "SIREN/interactions/HNLDipoleDISFromSpline.h"
#include "SIREN/utilities/Constants.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include <algorithm>
#include <array>
#include <functional>
#include <sstream>
#include <unistd.h>
using namespace siren::dataclasses; using namespace siren::interactions; namespace K = siren::utilities::Constants; typedef ParticleType PT; typedef std::array<double, 4> P4; typedef std::array<double, 3> V3;
static double sq(double x) { return x * x; } static double const ISO = K::isoscalarMass;
static std::string scratch(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return vc::cat(s ? s : "/tmp", "/", n, "-", getpid()); }
// ---- tables ----
struct Table { int n; std::vector<double> lo, hi, c; std::map<std::string, std::string> keys;
    double at(std::vector<double> const &x) const { double s = 0; for (size_t m = 0; m < c.size(); ++m) { double t = c[m]; for (int d = 0; d < n; ++d) if (m >> d & 1) t *= x[d]; s += t; } return s; }
    std::string text() const { std::ostringstream o; o.precision(17); o << "SPLINE " << n; for (int d = 0; d < n; ++d) o << " " << lo[d] << " " << hi[d]; for (double x : c) o << " " << x; o << " " << keys.size(); for (auto &k : keys) o << " " << k.first << " " << k.second; o << "\n"; return o.str(); }
    std::vector<char> blob() const { std::string s = text(); return std::vector<char>(s.begin(), s.end()); } };
static Table diff_table(int v) {   // log10 of the differential cross section over (log10 E, log10 x, log10 y)
    if (v == 0) return {3, {0.2, -4, -3.5}, {4, 0, 0}, {-37, 0.9, -0.6, 0.05, -0.35, 0.02, 0.04, -0.003}, {}};
    if (v == 1) return {3, {0.5, -2, -1.5}, {3.2, -0.05, -0.02}, {-36, 0.7, 0.3, 0, 0.5, 0.01, 0, 0}, {}};
    return {3, {0, -6, -6}, {5, 0, 0}, {-38, 1.0, -1.1, 0.01, 0.2, 0, -0.02, 0.001}, {}}; }
static Table total_table(int v) { if (v == 0) return {1, {0.2}, {4}, {-36, 0.8}, {}}; if (v == 1) return {1, {0.5}, {3.2}, {-35.5, 0.6}, {}}; return {1, {0}, {5}, {-37, 0.95}, {}}; }
static std::vector<PT> const NUS = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar};
// ---- models ----
struct Cfg { int kind = 0;   // 0 charged current, 1 neutral current, 2 heavy lepton by mixing, 3 by dipole
    int table = 0; double M = ISO, Q2 = 1, mN = 0; std::vector<double> g = {0.1, 0.02, 0.3}; std::string unit = "cm"; std::vector<PT> prim = NUS, targ = {PT::Nucleon}; };
static double unit_of(std::string u) { for (auto &c : u) c = std::tolower(c); return u == "cm" ? 1 : u == "m" ? 1e4 : 1 / K::invGeVsq_per_cmsq; }
static std::string name(Cfg const &c) { return vc::cat(c.kind == 0 ? "CC" : c.kind == 1 ? "NC" : c.kind == 2 ? "mixing" : "dipole", " table ", c.table, " M=", c.M, " Q2>", c.Q2, " mN=", c.mN, " ", c.unit); }
static int flavour(PT p) { return (std::abs(int(p)) - 12) / 2; }
static PT product(Cfg const &c, PT p) { if (c.kind == 1) return p; if (c.kind >= 2) return int(p) > 0 ? PT::N4 : PT::N4Bar; return PT((std::abs(int(p)) - 1) * (int(p) > 0 ? 1 : -1)); }
static double lepton_mass(Cfg const &c, PT p) { if (c.kind == 1) return 0; if (c.kind >= 2) return c.mN; double m[3] = {K::electronMass, K::muonMass, K::tauMass}; return m[flavour(p)]; }
static double norm(Cfg const &c, PT p) { return c.kind < 2 ? 1 : sq(c.g[flavour(p)]); }
static double total(Cfg const &c, PT p, double E) { return unit_of(c.unit) * norm(c, p) * std::pow(10, total_table(c.table).at({std::log10(E)})); }
// 1: inside the region in which the cross section is defined, 0: outside, -1: too close to its edge to tell
static int region(Cfg const &c, PT p, double E, double x, double y, double Q2 = NAN) {
    if (!(x > 0) || !(x < 1) || !(y > 0) || !(y < 1)) return 0; Table t = diff_table(c.table); double m = lepton_mass(c, p), lE = std::log10(E), worst = 1; if (std::isnan(Q2)) Q2 = 2 * c.M * E * x * y; double true_Q2 = 2 * c.M * E * x * y; bool in = true; auto cut = [&](double v, double scale) { if (!(v >= 0)) in = false; worst = std::min(worst, std::fabs(v) / scale); };
    cut(lE - t.lo[0], 1); cut(t.hi[0] - lE, 1); cut(std::log10(x) - t.lo[1], 1); cut(t.hi[1] - std::log10(x), 1); cut(std::log10(y) - t.lo[2], 1); cut(t.hi[2] - std::log10(y), 1); cut(Q2 - c.Q2, c.Q2);
    if (c.kind < 2) cut(sq(c.M) + Q2 / x * (1 - x) - sq(c.M + K::Pi0Mass), 1);
    double El = E * (1 - y); cut(El - m, E); if (El <= m) return in ? -1 : worst < 1e-7 ? -1 : 0; double pl = std::sqrt(sq(El) - sq(m)), cosine = (2 * E * El - m * m - true_Q2) / (2 * E * pl); cut(1 - cosine, std::min(1.0, true_Q2 / sq(E) + 1e-9)); cut(1 + cosine, 1);   // the lepton needs a real angle
    if (c.kind == 3) { double W2 = sq(c.M) + true_Q2 / x * (1 - x), Er = E * y, term = m * m - W2 - 2 * x * E * c.M - sq(x * c.M) + 2 * Er * (x * c.M + E); cut(Er * Er - W2 - sq(term / (2 * E)), sq(Er) + W2); }   // eq. 5 of arXiv:1707.08573
    return worst < 1e-7 ? -1 : in ? 1 : 0; }
static double diff(Cfg const &c, PT p, double E, double x, double y) { return unit_of(c.unit) * norm(c, p) * std::pow(10, diff_table(c.table).at({std::log10(E), std::log10(x), std::log10(y)})); }
template <class S> static std::shared_ptr<CrossSection> mem(Cfg const &c) { S p(c.prim.begin(), c.prim.end()), t(c.targ.begin(), c.targ.end()); auto d = diff_table(c.table).blob(), T = total_table(c.table).blob(); if (c.kind < 2) return std::make_shared<DISFromSpline>(d, T, c.kind + 1, c.M, c.Q2, p, t, c.unit); if (c.kind == 2) return std::make_shared<HNLDISFromSpline>(d, T, c.mN, c.g, c.M, c.Q2, p, t, c.unit); return std::make_shared<HNLDipoleDISFromSpline>(d, T, c.mN, c.g, c.M, c.Q2, p, t, c.unit); }
static void put(std::string const &f, std::string const &s) { std::ofstream(f, std::ios::binary) << s; }
template <class S> static std::shared_ptr<CrossSection> file(Cfg const &c) { S p(c.prim.begin(), c.prim.end()), t(c.targ.begin(), c.targ.end()); std::string d = scratch("diff"), T = scratch("total"); put(d, diff_table(c.table).text()); put(T, total_table(c.table).text()); if (c.kind < 2) return std::make_shared<DISFromSpline>(d, T, c.kind + 1, c.M, c.Q2, p, t, c.unit); if (c.kind == 2) return std::make_shared<HNLDISFromSpline>(d, T, c.mN, c.g, c.M, c.Q2, p, t, c.unit); return std::make_shared<HNLDipoleDISFromSpline>(d, T, c.mN, c.g, c.M, c.Q2, p, t, c.unit); }
template <class S> static std::shared_ptr<CrossSection> keyed(Cfg const &c, Table const &dt) { S p(c.prim.begin(), c.prim.end()), t(c.targ.begin(), c.targ.end()); std::string d = scratch("diff"), T = scratch("total"); put(d, dt.text()); put(T, total_table(c.table).text()); if (c.kind < 2) return std::make_shared<DISFromSpline>(d, T, p, t, c.unit); if (c.kind == 2) return std::make_shared<HNLDISFromSpline>(d, T, c.mN, c.g, p, t, c.unit); return std::make_shared<HNLDipoleDISFromSpline>(d, T, c.mN, c.g, p, t, c.unit); }
typedef std::vector<PT> VP; typedef std::set<PT> SP;
static std::shared_ptr<CrossSection> build(Cfg const &c, int how) { return how == 0 ? mem<VP>(c) : how == 1 ? mem<SP>(c) : how == 2 ? file<VP>(c) : file<SP>(c); }
static double dx(CrossSection const &X, Cfg const &c, PT p, double E, double x, double y, double Q2) { if (auto a = dynamic_cast<DISFromSpline const *>(&X)) return a->DifferentialCrossSection(E, x, y, lepton_mass(c, p), Q2); if (auto a = dynamic_cast<HNLDISFromSpline const *>(&X)) return a->DifferentialCrossSection(p, E, x, y, Q2); return dynamic_cast<HNLDipoleDISFromSpline const &>(X).DifferentialCrossSection(p, E, x, y, Q2); }
static double tx(CrossSection const &X, PT p, double E) { if (auto a = dynamic_cast<DISFromSpline const *>(&X)) return a->TotalCrossSection(p, E); if (auto a = dynamic_cast<HNLDISFromSpline const *>(&X)) return a->TotalCrossSection(p, E); return dynamic_cast<HNLDipoleDISFromSpline const &>(X).TotalCrossSection(p, E); }
static double threshold(Cfg const &c) { return c.kind < 2 ? 0 : (sq(c.mN + ISO) - sq(ISO)) / (2 * ISO); }
static InteractionRecord incoming(Cfg const &c, PT p, PT t, double E, V3 d) { InteractionRecord r; r.signature.primary_type = p; r.signature.target_type = t; r.signature.secondary_types = {product(c, p), PT::Hadrons}; r.primary_mass = 0; r.target_mass = c.M; double n = std::sqrt(sq(d[0]) + sq(d[1]) + sq(d[2])); r.primary_momentum = {E, E * d[0] / n, E * d[1] / n, E * d[2] / n}; r.primary_helicity = int(p) > 0 ? -0.5 : 0.5; r.target_helicity = 0.25; r.interaction_vertex = {1, 2, 3}; return r; }
static bool close(double a, double b, double e) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= e * std::max(std::fabs(a), std::fabs(b)); }
static std::vector<Cfg> configs(int kind) { std::vector<Cfg> o; for (int t = 0; t < 3; ++t) for (double Q : {1.0, 0.1, 2.5}) { Cfg c; c.kind = kind; c.table = t; c.Q2 = Q; c.unit = t == 1 ? "m" : kind == 3 && t == 2 ? "invGeV" : t == 2 ? "CM" : "cm"; if (t == 2) c.M = 0.9; if (kind >= 2) c.mN = Q == 1 ? 0.1 : Q == 0.1 ? 0.6 : 1.4; if (t == 1) c.g = {0.5, 0, 0.01}; o.push_back(c); } return o; }
static std::vector<double> energies(Cfg const &c) { Table t = diff_table(c.table); std::vector<double> o; for (double f : {0.02, 0.25, 0.5, 0.75, 0.98}) o.push_back(std::pow(10, t.lo[0] + f * (t.hi[0] - t.lo[0]))); return o; }
// ---- values ----
static void values(int kind) {
    for (auto &c : configs(kind)) for (int how = 0; how < 4; ++how) { std::string h = name(c); vc::note(h); auto X = build(c, how); Table T = total_table(c.table);
        for (PT p : NUS) { for (int i = -3; i <= 43; ++i) { double l = T.lo[0] + (T.hi[0] - T.lo[0]) * i / 40, E = std::pow(10, l); if (i == 0 || i == 40) continue; ++vc::R.states; vc::step(2); ++vc::R.evaluations; bool threw = false; double g = 0, r = 0; try { g = tx(*X, p, E); } catch (std::exception const &) { threw = true; } bool out = i < 0 || i > 40;
                VC_EXPECT(threw == out, "total-range", h, " E=", E, threw ? ": refused" : ": accepted"); InteractionRecord q = incoming(c, p, c.targ[0], E, {0, 0.6, 0.8}); bool below = E < threshold(c), t2 = false; try { r = X->TotalCrossSection(q); } catch (std::exception const &) { t2 = true; }
                VC_EXPECT(t2 == (out && !below), "total-range", h, " E=", E, " threshold ", threshold(c)); VC_EXPECT(close(X->InteractionThreshold(q) + 1, threshold(c) + 1, 1e-12), "threshold", h, ": ", X->InteractionThreshold(q)); if (out) continue; double w = total(c, p, E);
                VC_EXPECT(close(g, w, 1e-9), "total", h, " primary ", int(p), " E=", E, ": ", g, " expected ", w); VC_EXPECT(close(r, below ? 0 : w, 1e-9), "total", h, " record, E=", E, ": ", r, " expected ", below ? 0 : w); VC_EXPECT(close(X->TotalCrossSectionAllFinalStates(q), below ? 0 : w, 1e-9), "total-all", h, " E=", E); }
            int n = vc::thorough() ? 60 : how == 0 ? 24 : 5; std::vector<double> v = {-0.5, 0, 1, 1.5}; for (int i = 0; i < n; ++i) v.push_back(std::pow(10, -4.3 + 4.3 * (i + 0.37) / n)); for (double q : {0.93, 0.97, 0.99, 0.999}) v.push_back(q); std::vector<double> Es = energies(c); Es.push_back(std::pow(10, diff_table(c.table).lo[0] - 0.1)); Es.push_back(std::pow(10, diff_table(c.table).hi[0] + 0.1));
            for (double E : Es) for (double x : v) for (double y : v) { vc::trace(); vc::step(); ++vc::R.states; double Q2 = 2 * c.M * E * x * y; int in = region(c, p, E, x, y); if (in < 0) continue; double w = in ? diff(c, p, E, x, y) : 0; for (double a : {double(NAN), Q2}) { double g = dx(*X, c, p, E, x, y, a); VC_EXPECT(in ? close(g, w, 1e-9) : g == 0, "differential", h, " primary ", int(p), " E=", E, " x=", x, " y=", y, ": ", g, " expected ", w); } } }
        for (PT p : {PT::EMinus, PT::N4, PT::unknown}) { bool t = false; try { tx(*X, p, 10); } catch (std::exception const &) { t = true; } VC_EXPECT(t, "foreign-primary", h, " type ", int(p)); } } }
// ---- sampled final states ----
static P4 operator-(P4 a, P4 const &b) { for (int i = 0; i < 4; ++i) a[i] -= b[i]; return a; } static double dot(P4 const &a, P4 const &b) { return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; }
static double along(P4 const &a, V3 const &d) { return a[1] * d[0] + a[2] * d[1] + a[3] * d[2]; }
struct Out { InteractionRecord r; double x = 0, y = 0; size_t used = 0; };
static Out sample(CrossSection const &X, InteractionRecord const &in, std::vector<double> const &words) { draw::script(words); CrossSectionDistributionRecord q(in); std::verif_engine::limit = 4000; X.SampleFinalState(q, draw::rng()); std::verif_engine::limit = 0; Out o; o.r = in; q.Finalize(o.r); o.used = std::verif_engine::pos; auto &k = o.r.secondary_momenta[0]; P4 t = {in.target_mass, 0, 0, 0}, m = in.primary_momentum - k; o.y = dot(t, m) / dot(t, in.primary_momentum); o.x = -dot(m, m) / (2 * dot(t, m)); vc::step(); vc::trace(); return o; }
// all of one outcome
static void judge(CrossSection const &X, Cfg const &c, InteractionRecord const &in, Out const &o, std::string const &h) {
    auto &r = o.r; double E = in.primary_momentum[0], S = E + c.M, ml = lepton_mass(c, in.signature.primary_type); PT p = in.signature.primary_type; bool ok = r.secondary_momenta.size() == 2 && r.secondary_masses.size() == 2; VC_EXPECT(ok, "count", h); if (!ok) return; P4 k = r.secondary_momenta[0], H = r.secondary_momenta[1];
    for (int i = 0; i < 4; ++i) VC_EXPECT(std::isfinite(k[i]) && std::isfinite(H[i]) && std::fabs(k[i] + H[i] - in.primary_momentum[i] - (i ? 0 : c.M)) <= 1e-9 * S, "conservation", h, " component ", i, ": ", k[i] + H[i], " incoming ", in.primary_momentum[i]);
    VC_EXPECT(std::fabs(dot(k, k) - sq(ml)) <= 1e-9 * S * S && std::fabs(sq(r.secondary_masses[0]) - sq(ml)) <= 1e-9 * S * S && (ml == 0 || close(r.secondary_masses[0], ml, 1e-4)), "lepton-mass", h, ": ", r.secondary_masses[0], " expected ", ml); VC_EXPECT(std::fabs(dot(H, H) - sq(r.secondary_masses[1])) <= 1e-9 * S * S, "hadron-mass", h);
    VC_EXPECT(r.secondary_helicities.size() == 2 && r.secondary_helicities[0] == (c.kind == 3 ? -1 : 1) * in.primary_helicity && r.secondary_helicities[1] == in.target_helicity, "helicities", h); VC_EXPECT(r.signature == in.signature && r.primary_momentum == in.primary_momentum && r.interaction_vertex == in.interaction_vertex && r.target_mass == in.target_mass, "incoming-untouched", h);
    auto par = r.interaction_parameters; VC_EXPECT(par.size() == 3 && close(par["energy"], E, 1e-12) && std::fabs(par["bjorken_y"] - o.y) <= 1e-7 && (1 - o.y < 1e-4 || std::fabs(par["bjorken_x"] * par["bjorken_y"] - o.x * o.y) <= 1e-6 * (E > 0 ? std::max(par["bjorken_x"] * par["bjorken_y"], 1e-8 * E) : 1)), "parameters", h, ": recorded x=", par["bjorken_x"], " y=", par["bjorken_y"], ", momenta give ", o.x, " ", o.y);
    double x = par["bjorken_x"], y = par["bjorken_y"]; int reg = region(c, p, E, x, y); VC_EXPECT(reg != 0, "outside-region", h, ": x=", x, " y=", y); if (reg == 1 && region(c, p, E, o.x, o.y) == 1) { double w = diff(c, p, E, x, y), g = X.DifferentialCrossSection(r), f = X.FinalStateProbability(r), e = 1e-5 + 1e-10 * E / (c.M * x * y) * 0; bool fine = std::fabs(o.x / x - 1) < 1e-5; if (fine) { VC_EXPECT(close(g, w, 1e-4 + e) || (w == 0 && g == 0), "differential-of-sampled", h, ": x=", x, " y=", y, " ", g, " expected ", w); double T = E < threshold(c) ? 0 : total(c, p, E); VC_EXPECT(T == 0 || w == 0 ? f == 0 : close(f, w / T, 1e-4), "probability-of-sampled", h, ": ", f, " expected ", T > 0 ? w / T : 0); vc::count("densities", 1); } } }
static std::vector<V3> const DIRS = {{0.36, 0.48, 0.8}, {0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {-0.3, 0.5, -0.8}, {-1, 1e-3, 0}};
static void sampling(int kind, int part) {
    int ci = 0; for (auto &c : configs(kind)) { if (ci++ % 3 != part) continue; auto X = build(c, 0); for (double E : energies(c)) for (PT p : std::vector<PT>{NUS[ci % 6], NUS[(ci + 3) % 6], PT::NuTau}) { if (kind == 0 && p == PT::NuTau && E < 6) continue; if (E < 1.2 * threshold(c)) continue; std::string h = vc::cat(name(c), " E=", E, " primary ", int(p)); vc::note(h); InteractionRecord in = incoming(c, p, c.targ[0], E, DIRS[0]);
        // is there any room for it?
        bool room = false; int n = vc::thorough() ? 40 : 16; for (int i = 0; i < 60 && !room; ++i) for (int j = 0; j < 60 && !room; ++j) room = region(c, p, E, std::pow(10, -4 * (i + 0.5) / 60), std::pow(10, -3 * (j + 0.5) / 60)) == 1; if (!room) { vc::count("no_room", 1); continue; }
        // where each pair of words leads, when nothing else is accepted afterwards: first from constant words, which stay where they are
        struct Node { double u, v, x, y, w; size_t used; }; std::vector<Node> nodes; double d = 1e-4; auto first = [&](double u, double v) { std::vector<double> s = {u, v}; return s; };
        auto stay = [&](double u, double v) { std::vector<double> s; for (int k = 0; k < 100; ++k) { s.push_back(u); s.push_back(v); if (k) s.push_back(1 - 1e-12); } return s; };
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double u = (i + 0.5) / n, v = (j + 0.5) / n; Out o, a, b; bool lost = false; try { o = sample(*X, in, stay(u, v)); a = sample(*X, in, stay(u + d, v)); b = sample(*X, in, stay(u, v + d)); } catch (std::verif_engine::exhausted const &) { lost = true; std::verif_engine::limit = 0; } ++vc::R.states; ++vc::R.evaluations; if (lost) continue; judge(*X, c, in, o, vc::cat(h, " words ", u, ",", v));
            double x = o.r.interaction_parameters["bjorken_x"], y = o.r.interaction_parameters["bjorken_y"], ax = a.r.interaction_parameters["bjorken_x"], ay = a.r.interaction_parameters["bjorken_y"], bx = b.r.interaction_parameters["bjorken_x"], by = b.r.interaction_parameters["bjorken_y"]; double J = std::fabs((std::log(ax / x) * std::log(by / y) - std::log(ay / y) * std::log(bx / x)) / (d * d)); if (region(c, p, E, x, y) != 1) continue; double w = std::pow(10, diff_table(c.table).at({std::log10(E), std::log10(x), std::log10(y)})) * x * y * J; if (o.used == a.used && o.used == b.used) nodes.push_back({u, v, x, y, w, o.used}); }
        // words that were refused lead somewhere else, and take longer to do so
        size_t least = ~size_t(0); for (auto &q : nodes) least = std::min(least, q.used); std::vector<Node> good; for (auto &q : nodes) if (q.used == least && q.w > 0) good.push_back(q); if (good.size() < 3) { vc::count("too_narrow", 1); continue; } vc::count("nodes", good.size());
        auto by = [](Node const &a, Node const &b) { return a.w < b.w; }; Node low = *std::min_element(good.begin(), good.end(), by), top = *std::max_element(good.begin(), good.end(), by);
        auto tail = [&](std::vector<double> s, double azimuth = 0.5) { for (int k = 0; k < 100; ++k) { s.push_back(low.u); s.push_back(low.v); s.push_back(1 - 1e-12); } return s; };
        auto at = [&](Out const &o, Node const &q) { return close(o.r.interaction_parameters.at("bjorken_x"), q.x, 1e-9) && close(o.r.interaction_parameters.at("bjorken_y"), q.y, 1e-9); };
        // a start that is never left, for every word pair and direction, with every azimuth
        for (size_t k = 0; k < good.size(); ++k) { auto &q = good[k]; if (q.w <= low.w * 1.0001) continue; Out o = sample(*X, in, tail(first(q.u, q.v))); VC_EXPECT(at(o, q), "start", h, " x=", q.x, " y=", q.y, " became ", o.x, " ", o.y); }
        // the chain moves from a to b with the probability the reported density denotes
        // no words lead out of the region, whether they are the first ones or proposed later
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int later = 0; later < 2; ++later) { double u = (i + 0.5) / n, v = (j + 0.5) / n; ++vc::R.states; ++vc::R.evaluations; try { Out o = sample(*X, in, later ? tail({low.u, low.v, u, v, 0}) : tail({u, v})); judge(*X, c, in, o, vc::cat(h, later ? " proposed words " : " first words ", u, ",", v)); } catch (std::verif_engine::exhausted const &) { std::verif_engine::limit = 0; vc::count("refused_events", 1); } }
        std::vector<Node> sorted = good; std::sort(sorted.begin(), sorted.end(), by); size_t step = std::max<size_t>(1, sorted.size() / (vc::thorough() ? 12 : 6));
        for (size_t a = sorted.size(); a-- > 1;) { if ((sorted.size() - 1 - a) % step) continue; for (size_t b = 1; b < sorted.size(); b += step) { auto &A = sorted[a], &B = sorted[b]; if (&A == &B || B.w <= low.w * 1.001) continue; double want = B.w / A.w; if (std::fabs(want - 1) < 1e-3) continue; ++vc::R.states;
            if (want > 1) { Out o = sample(*X, in, tail({A.u, A.v, B.u, B.v})); VC_EXPECT(at(o, B), "better-refused", h, ": from x=", A.x, " y=", A.y, " to x=", B.x, " y=", B.y, " (", want, " times likelier) ended at ", o.x, " ", o.y); continue; }
            double lo = 0, hi = 1; for (int k = 0; k < 16; ++k) { double mid = 0.5 * (lo + hi); Out o = sample(*X, in, tail({A.u, A.v, B.u, B.v, mid})); bool acc = at(o, B); if (!acc) VC_EXPECT(at(o, A), "neither", h); (acc ? lo : hi) = mid; } VC_EXPECT(std::fabs(lo - want) < 1e-3 + 2e-3 * want, "acceptance", h, ": from x=", A.x, " y=", A.y, " to x=", B.x, " y=", B.y, " accepted with probability ", lo, ", the density needs ", want); } }
        // orientation: every direction and azimuth
        Out ref = sample(*X, in, tail(first(top.u, top.v))); size_t last = ref.used - 1; for (auto &dir : DIRS) { InteractionRecord q = incoming(c, p, c.targ[0], E, dir); double n0 = std::sqrt(sq(dir[0]) + sq(dir[1]) + sq(dir[2])); V3 ax = {dir[0] / n0, dir[1] / n0, dir[2] / n0}; V3 t0{}; int N = 8; int sense = 0; for (int k = 0; k < N; ++k) { std::vector<double> s = tail(first(top.u, top.v)); s[last] = double(k) / N; Out o = sample(*X, q, s); std::string hh = vc::cat(h, " direction (", dir[0], ",", dir[1], ",", dir[2], ") azimuth ", k, "/", N); judge(*X, c, q, o, hh); VC_EXPECT(at(o, top), "direction-changes-kinematics", hh);
                P4 kk = o.r.secondary_momenta[0]; double l = along(kk, ax); V3 t = {kk[1] - l * ax[0], kk[2] - l * ax[1], kk[3] - l * ax[2]}; double tn = std::sqrt(sq(t[0]) + sq(t[1]) + sq(t[2])); if (tn < 1e-6 * E) break; for (auto &v : t) v /= tn; if (k == 0) { t0 = t; continue; } double cs = t[0] * t0[0] + t[1] * t0[1] + t[2] * t0[2]; V3 cr = {t0[1] * t[2] - t0[2] * t[1], t0[2] * t[0] - t0[0] * t[2], t0[0] * t[1] - t0[1] * t[0]}; double sn = cr[0] * ax[0] + cr[1] * ax[1] + cr[2] * ax[2], phi = std::atan2(sn, cs), want = 2 * M_PI * k / N; if (!sense) sense = phi > 0 ? 1 : -1; double e = std::remainder(sense * phi - want, 2 * M_PI); VC_EXPECT(std::fabs(e) < 1e-4, "azimuth", hh, ": ", phi); } } } } }
// ---- lists, persistence, equality, refusals ----
static std::string content(CrossSection const &X) { std::string o; for (auto &s : X.GetPossibleSignatures()) { o += vc::cat(int(s.primary_type), "+", int(s.target_type), ">"); for (PT t : s.secondary_types) o += vc::cat(int(t), ","); } return o; }
static void lists() {
    std::vector<VP> targets = {{PT::Nucleon}, {PT::PPlus, PT::Neutron}, {PT::HNucleus, PT::O16Nucleus, PT::Nucleon}}; for (int kind = 0; kind < 4; ++kind) for (int m = 1; m < 64; ++m) for (auto &ts : targets) for (int how = 0; how < 4; ++how) { Cfg c = configs(kind)[0]; c.prim.clear(); for (int i = 0; i < 6; ++i) if (m >> i & 1) c.prim.push_back(NUS[i]); c.targ = ts; auto X = build(c, how); std::string h = vc::cat(name(c), " primaries ", m, " targets ", ts.size(), " built ", how); ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; std::set<std::pair<PT, PT>> got; auto all = X->GetPossibleSignatures();
        VC_EXPECT(all.size() == c.prim.size() * ts.size(), "signatures", h, ": ", all.size()); for (auto &s : all) { got.insert({s.primary_type, s.target_type}); VC_EXPECT((s.secondary_types == VP{product(c, s.primary_type), PT::Hadrons}), "signature-products", h, " primary ", int(s.primary_type)); auto v = X->GetPossibleSignaturesFromParents(s.primary_type, s.target_type); VC_EXPECT(v.size() == 1 && v[0] == s, "signatures-of-parents", h); } VC_EXPECT(got.size() == all.size(), "signatures", h);
        for (PT p : NUS) for (PT t : {PT::Nucleon, PT::PPlus, PT::Fe56Nucleus}) if (!got.count({p, t})) VC_EXPECT(X->GetPossibleSignaturesFromParents(p, t).empty(), "foreign-parents", h); auto P = X->GetPossiblePrimaries(); auto T = X->GetPossibleTargets(), T2 = X->GetPossibleTargetsFromPrimary(c.prim[0]); VC_EXPECT(SP(P.begin(), P.end()) == SP(c.prim.begin(), c.prim.end()) && P.size() == c.prim.size(), "primaries", h); VC_EXPECT(SP(T.begin(), T.end()) == SP(ts.begin(), ts.end()) && T == T2 && T.size() == ts.size(), "targets", h); } }
static std::vector<Cfg> variants(int kind) { Cfg c = configs(kind)[0]; std::vector<Cfg> v = {c}; auto add = [&](std::function<void(Cfg &)> f) { Cfg d = c; f(d); v.push_back(d); }; add([](Cfg &d) { d.table = 1; }); add([](Cfg &d) { d.Q2 = 2; }); add([](Cfg &d) { d.M = 0.9; }); add([](Cfg &d) { d.unit = "m"; }); add([](Cfg &d) { d.prim.pop_back(); }); add([](Cfg &d) { d.targ = {PT::PPlus}; }); add([](Cfg &d) { d.targ = {PT::PPlus, PT::Nucleon}; }); if (kind >= 2) { add([](Cfg &d) { d.mN = 0.2; }); add([](Cfg &d) { d.g[1] = 0.4; }); } return v; }
static void same(CrossSection const &A, CrossSection const &B, Cfg const &c, std::string const &h) { VC_EXPECT(content(A) == content(B), "persist-signatures", h); for (PT p : c.prim) for (double E : energies(c)) { InteractionRecord q = incoming(c, p, c.targ[0], E, {0, 0, 1}); double a = tx(A, p, E), b = tx(B, p, E); VC_EXPECT(a == b && std::isfinite(a), "persist-total", h, ": ", a, " ", b); for (double x : {0.03, 0.2, 0.5, 0.9}) for (double y : {0.05, 0.4, 0.8}) { double f = dx(A, c, p, E, x, y, NAN), g = dx(B, c, p, E, x, y, NAN); vc::step(); VC_EXPECT(f == g && std::isfinite(f), "persist-differential", h, ": ", f, " ", g); } } VC_EXPECT(A.DensityVariables() == B.DensityVariables() && A.DensityVariables().size() == 2, "persist-variables", h); }
static void persistence() {
    std::vector<std::pair<Cfg, std::shared_ptr<CrossSection>>> all; for (int kind = 0; kind < 4; ++kind) for (auto &c : variants(kind)) all.push_back({c, build(c, int(all.size()) % 4)});
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) { ++vc::R.states; vc::trace(); VC_EXPECT((*all[i].second == *all[j].second) == (i == j), "equality", name(all[i].first), " targets ", all[i].first.targ.size(), " and ", name(all[j].first), " targets ", all[j].first.targ.size()); }
    for (auto &q : all) for (int how = 0; how < 4; ++how) VC_EXPECT(*q.second == *build(q.first, how), "equality", name(q.first), " built differently");
    for (auto &q : all) for (int how = 0; how < 4; ++how) { ++vc::R.states; vc::trace(); ++vc::R.evaluations; std::string h = vc::cat(name(q.first), " archive ", how); std::stringstream s; std::shared_ptr<CrossSection> b; if (how % 2 == 0) { { cereal::BinaryOutputArchive a(s); a(q.second); } cereal::BinaryInputArchive a(s); a(b); } else { { cereal::JSONOutputArchive a(s); a(q.second); } cereal::JSONInputArchive a(s); a(b); }
        if (how >= 2) { std::stringstream t; { cereal::BinaryOutputArchive a(t); a(b); } b.reset(); cereal::BinaryInputArchive a(t); a(b); } VC_EXPECT(bool(b) && *b == *q.second, "persist-equal", h); if (b) same(*q.second, *b, q.first, h); } }
static void keys() {
    for (int kind = 0; kind < 4; ++kind) for (int m = 0; m < 8; ++m) for (int type = 1; type <= (kind < 2 ? 2 : 3); ++type) for (int how = 0; how < 2; ++how) { Cfg c = configs(kind)[0]; Table t = diff_table(c.table); if (m & 1) t.keys["TARGETMASS"] = "0.95"; if (m & 2) t.keys["INTERACTION"] = vc::cat(type); if (m & 4) t.keys["Q2MIN"] = "0.4"; c.M = m & 1 ? 0.95 : kind >= 2 && (m & 2) && type == 3 ? K::electronMass : ISO; c.Q2 = m & 4 ? 0.4 : 1; if (kind < 2) c.kind = m & 2 ? type - 1 : 0; std::string h = vc::cat(name(c), " keys ", m, " type ", type); vc::note(h); ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; std::shared_ptr<CrossSection> X = how ? keyed<SP>(c, t) : keyed<VP>(c, t), Y = build(c, 0); VC_EXPECT(content(*X) == content(*Y), "keys-signatures", h);
        for (PT p : c.prim) for (double E : energies(c)) for (double x : {0.01, 0.06, 0.3, 0.8}) for (double y : {0.02, 0.1, 0.5, 0.9}) { int in = region(c, p, E, x, y); if (in < 0) continue; double g = dx(*X, c, p, E, x, y, NAN), w = in ? diff(c, p, E, x, y) : 0; VC_EXPECT(in ? close(g, w, 1e-9) : g == 0, "keys-differential", h, " E=", E, " x=", x, " y=", y, ": ", g, " expected ", w); } } }
static void refusals() {
    auto refused = [](std::function<void()> f) { try { f(); return false; } catch (std::exception const &) { return true; } };
    for (int kind = 0; kind < 4; ++kind) for (int how = 0; how < 4; ++how) { Cfg c = configs(kind)[0]; std::string h = vc::cat(name(c), " built ", how); auto bad = [&](char const *what, std::function<void(Cfg &)> f) { ++vc::R.states; vc::trace(); vc::step(); Cfg d = c; f(d); VC_EXPECT(refused([&] { build(d, how); }), "accepted", h, ": ", what); };
        bad("unit", [](Cfg &d) { d.unit = "barn"; }); bad("no unit", [](Cfg &d) { d.unit = ""; }); for (PT p : {PT::EMinus, PT::PPlus, PT::N4}) bad("primary", [&](Cfg &d) { d.prim.push_back(p); }); if (kind >= 2) { bad("two couplings", [](Cfg &d) { d.g = {1, 2}; }); bad("four couplings", [](Cfg &d) { d.g = {1, 2, 3, 4}; }); } VC_EXPECT(!refused([&] { build(c, how); }), "refused", h);
        for (int e = 0; e < 6; ++e) { Table d = diff_table(0), t = total_table(0); std::string fd = scratch("d"), ft = scratch("t"); if (e == 0) t = diff_table(0); if (e == 1) d = total_table(0); put(fd, e == 2 ? "nothing" : e == 3 ? d.text().substr(0, 20) : d.text()); put(ft, e == 4 ? "nothing" : t.text()); if (e == 5) unlink(ft.c_str()); ++vc::R.states; vc::trace();
            bool r = refused([&] { if (kind < 2) DISFromSpline(fd, ft, kind + 1, ISO, 1., c.prim, c.targ, "cm"); else if (kind == 2) HNLDISFromSpline(fd, ft, 0.1, c.g, ISO, 1., c.prim, c.targ, "cm"); else HNLDipoleDISFromSpline(fd, ft, 0.1, c.g, ISO, 1., c.prim, c.targ, "cm"); }); VC_EXPECT(r, "bad-file-accepted", h, " case ", e); unlink(fd.c_str()); unlink(ft.c_str()); } }
    for (int type : {0, 4, -1}) VC_EXPECT(refused([&] { DISFromSpline(diff_table(0).blob(), total_table(0).blob(), type, ISO, 1., NUS, VP{PT::Nucleon}, "cm"); }), "accepted", "interaction type ", type);
    for (int kind = 0; kind < 4; ++kind) for (auto &c : configs(kind)) for (double f : {-0.2, 1.2}) { Table t = diff_table(c.table); double E = std::pow(10, f < 0 ? t.lo[0] + f : t.hi[0] + f - 1); auto X = build(c, 0); InteractionRecord in = incoming(c, PT::NuMu, c.targ[0], E, {0, 0, 1}); ++vc::R.states; vc::trace(); VC_EXPECT(refused([&] { sample(*X, in, {0.5, 0.5}); }), "sampled-outside-table", name(c), " E=", E); std::verif_engine::limit = 0; } }
int main(int argc, char **argv) {
    std::vector<vc::Case> c; for (int k = 0; k < 4; ++k) { c.push_back({vc::cat("values-", k), [k] { values(k); }}); for (int p = 0; p < 3; ++p) c.push_back({vc::cat("sampling-", k, "-", p), [k, p] { sampling(k, p); }}); } c.push_back({"lists", lists}); c.push_back({"persistence", persistence}); c.push_back({"keys", keys}); c.push_back({"refusals", refusals});
    return vc::run(argc, argv, c);
}
