// P39: charm production in deep inelastic scattering from spline tables (slow rescaling, fragmentation into a D meson). The tables
// are multilinear in the logarithms (shim/photospline), so every answer has a closed form.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/QuarkDISFromSpline.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include <algorithm>
#include <array>
#include <functional>
#include <sstream>
#include <unistd.h>
using namespace siren::dataclasses; using namespace siren::interactions; namespace K = siren::utilities::Constants; typedef ParticleType PT; typedef std::array<double, 4> P4; typedef std::array<double, 3> V3;
static double sq(double x) { return x * x; } static double const ISO = K::isoscalarMass;
static std::string scratch(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return vc::cat(s ? s : "/tmp", "/", n, "-", getpid()); }
// ---- tables ----
struct Table { int n; std::vector<double> lo, hi, c; std::map<std::string, std::string> keys;
    double at(std::vector<double> const &x) const { double s = 0; for (size_t m = 0; m < c.size(); ++m) { double t = c[m]; for (int d = 0; d < n; ++d) if (m >> d & 1) t *= x[d]; s += t; } return s; }
    std::string text() const { std::ostringstream o; o.precision(17); o << "SPLINE " << n; for (int d = 0; d < n; ++d) o << " " << lo[d] << " " << hi[d]; for (double x : c) o << " " << x; o << " " << keys.size(); for (auto &k : keys) o << " " << k.first << " " << k.second; o << "\n"; return o.str(); }
    std::vector<char> blob() const { std::string s = text(); return std::vector<char>(s.begin(), s.end()); } };
static Table diff_table(int v) {   // log10 of the differential cross section over (log10 E, log10 x, log10 y)
    if (v == 0) return {3, {0.2, -4, -3.5}, {4, 0, 0}, {-37, 0.9, -0.6, 0.05, -0.35, 0.02, 0.04, -0.003}, {}};
    if (v == 1) return {3, {0.5, -2, -1.5}, {3.2, -0.05, -0.02}, {-36, 0.7, 0.3, 0, 0.5, 0.01, 0, 0}, {}};
    return {3, {0, -6, -6}, {5, 0, 0}, {-38, 1.0, -1.1, 0.01, 0.2, 0, -0.02, 0.001}, {}}; }
static Table total_table(int v) { if (v == 0) return {1, {0.2}, {4}, {-36, 0.8}, {}}; if (v == 1) return {1, {0.5}, {3.2}, {-35.5, 0.6}, {}}; return {1, {0}, {5}, {-37, 0.95}, {}}; }
static std::vector<PT> const NUS = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar};
// ---- models ----
struct Cfg { int kind = 0;   // 0 charged current, 1 neutral current
    int table = 0; double M = ISO, Q2 = 1; std::string unit = "cm"; std::vector<PT> prim = NUS, targ = {PT::Nucleon}; };
typedef std::vector<PT> VP; typedef std::set<PT> SP; typedef QuarkDISFromSpline Q;
static double const MC = K::charmMass;
static double unit_of(std::string u) { for (auto &c : u) c = std::tolower(c); return u == "cm" ? 1 : 1e4; }
static std::string name(Cfg const &c) { return vc::cat(c.kind == 0 ? "CC" : "NC", " table ", c.table, " M=", c.M, " Q2>", c.Q2, " ", c.unit); }
static PT product(Cfg const &c, PT p) { return c.kind == 1 ? p : PT((std::abs(int(p)) - 1) * (int(p) > 0 ? 1 : -1)); }
static double lepton_mass(Cfg const &c, PT p) { double m[3] = {K::electronMass, K::muonMass, K::tauMass}; return c.kind == 1 ? 0 : m[(std::abs(int(p)) - 12) / 2]; }
static VP mesons(PT p) { return int(p) > 0 ? VP{PT::D0, PT::DPlus, PT::DsPlus} : VP{PT::D0Bar, PT::DMinus, PT::DsMinus}; }
static double const SHARE[3] = {0.6 / 0.98, 0.23 / 0.98, 0.15 / 0.98};
static double meson_mass(int k) { return k == 0 ? K::D0Mass : k == 1 ? K::DPlusMass : K::DsPlusMass; }
static double total(Cfg const &c, double E) { return unit_of(c.unit) * std::pow(10, total_table(c.table).at({std::log10(E)})); }
static double diff(Cfg const &c, double E, double xi, double y) { return unit_of(c.unit) * std::pow(10, diff_table(c.table).at({std::log10(E), std::log10(xi), std::log10(y)})); }
// slow rescaling: 1 physically allowed and on the grid, 0 physically forbidden, 2 allowed but off the grid, 3 not a point at all, -1 too close to an edge to tell
static int region(Cfg const &c, PT p, double E, double xi, double y, double Q2 = NAN) {
    Table t = diff_table(c.table); double m = lepton_mass(c, p), lE = std::log10(E), worst = 1; auto near = [&](double v, double s) { worst = std::min(worst, std::fabs(v) / s); return v >= 0; };
    bool e = near(lE - t.lo[0], 1) & near(t.hi[0] - lE, 1); if (worst < 1e-7) return -1; if (!e || xi <= 0 || xi >= 1 || y <= 0 || y >= 1) return 3;
    double q2 = 2 * c.M * E * y * xi - MC * MC; if (std::isnan(Q2)) Q2 = q2; bool in = near(Q2 - c.Q2, c.Q2) & near(q2, 1) & near(1 - m / E - y, 1) & near(sq(c.M) + 2 * c.M * E * y * (1 - xi) + MC * MC - sq(c.M + K::D0Mass), 1);
    double El = E * (1 - y); if (El > m) { double pl = std::sqrt(sq(El) - sq(m)), cosine = (2 * E * El - m * m - q2) / (2 * E * pl); in = in & near(1 - cosine, std::min(1.0, std::fabs(q2) / sq(E) + 1e-9)) & near(1 + cosine, 1); } else in = false;
    bool grid = near(std::log10(xi) - t.lo[1], 1) & near(t.hi[1] - std::log10(xi), 1) & near(std::log10(y) - t.lo[2], 1) & near(t.hi[2] - std::log10(y), 1); return worst < 1e-7 ? -1 : !in ? 0 : grid ? 1 : 2; }
static void put(std::string const &f, std::string const &s) { std::ofstream(f, std::ios::binary) << s; }
template <class S> static std::shared_ptr<Q> mem(Cfg const &c) { return std::make_shared<Q>(diff_table(c.table).blob(), total_table(c.table).blob(), c.kind + 1, c.M, c.Q2, S(c.prim.begin(), c.prim.end()), S(c.targ.begin(), c.targ.end()), c.unit); }
template <class S> static std::shared_ptr<Q> file(Cfg const &c) { std::string d = scratch("diff"), T = scratch("total"); put(d, diff_table(c.table).text()); put(T, total_table(c.table).text()); return std::make_shared<Q>(d, T, c.kind + 1, c.M, c.Q2, S(c.prim.begin(), c.prim.end()), S(c.targ.begin(), c.targ.end()), c.unit); }
template <class S> static std::shared_ptr<Q> keyed(Cfg const &c, Table const &dt) { std::string d = scratch("diff"), T = scratch("total"); put(d, dt.text()); put(T, total_table(c.table).text()); return std::make_shared<Q>(d, T, S(c.prim.begin(), c.prim.end()), S(c.targ.begin(), c.targ.end()), c.unit); }
static std::shared_ptr<Q> build(Cfg const &c, int how) { return how == 0 ? mem<VP>(c) : how == 1 ? mem<SP>(c) : how == 2 ? file<VP>(c) : file<SP>(c); }
static InteractionRecord incoming(Cfg const &c, PT p, int meson, double E, V3 d) { InteractionRecord r; r.signature.primary_type = p; r.signature.target_type = c.targ[0]; r.signature.secondary_types = {product(c, p), PT::Hadrons, mesons(p)[meson]}; r.primary_mass = 0; r.target_mass = c.M; double n = std::sqrt(sq(d[0]) + sq(d[1]) + sq(d[2])); r.primary_momentum = {E, E * d[0] / n, E * d[1] / n, E * d[2] / n}; r.primary_helicity = int(p) > 0 ? -0.5 : 0.5; r.target_helicity = 0.25; r.interaction_vertex = {1, 2, 3}; return r; }
static bool close(double a, double b, double e) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= e * std::max(std::fabs(a), std::fabs(b)); }
static std::vector<Cfg> configs(int kind) { std::vector<Cfg> o; for (int t = 0; t < 3; ++t) for (double Q2 : {1.0, 0.1, 2.5}) { Cfg c; c.kind = kind; c.table = t; c.Q2 = Q2; c.unit = t == 1 ? "m" : t == 2 ? "CM" : "cm"; if (t == 2) c.M = 0.9; o.push_back(c); } return o; }
static std::vector<double> energies(Cfg const &c) { Table t = diff_table(c.table); std::vector<double> o; for (double f : {0.02, 0.3, 0.5, 0.75, 0.98}) o.push_back(std::pow(10, t.lo[0] + f * (t.hi[0] - t.lo[0]))); return o; }
// ---- values ----
static void values(int kind) {
    for (auto &c : configs(kind)) for (int how = 0; how < 4; ++how) { std::string h = name(c); vc::note(h); auto X = build(c, how); Table T = total_table(c.table);
        for (PT p : NUS) { for (int i = -3; i <= 43; ++i) { if (i == 0 || i == 40) continue; double l = T.lo[0] + (T.hi[0] - T.lo[0]) * i / 40, E = std::pow(10, l), g = 0, w = total(c, E), sum = 0; ++vc::R.states; vc::step(2); ++vc::R.evaluations; bool threw = false, out = i < 0 || i > 40; try { g = X->TotalCrossSection(p, E); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw == out, "total-range", h, " E=", E, threw ? ": refused" : ": accepted");
                if (!out) VC_EXPECT(close(g, w, 1e-9), "total", h, " primary ", int(p), " E=", E, ": ", g, " expected ", w);
                for (int k = 0; k < 3; ++k) { InteractionRecord q = incoming(c, p, k, E, {0, 0.6, 0.8}); bool t2 = false; double r = 0; try { r = X->TotalCrossSection(q); } catch (std::exception const &) { t2 = true; } VC_EXPECT(t2 == out, "total-range", h, " record, E=", E); if (out) continue; sum += r; VC_EXPECT(close(r, w * SHARE[k], 1e-9), "total-of-meson", h, " primary ", int(p), " meson ", k, " E=", E, ": ", r, " expected ", w * SHARE[k]); VC_EXPECT(X->InteractionThreshold(q) == 0, "threshold", h); VC_EXPECT(close(X->TotalCrossSectionAllFinalStates(q), w, 1e-9), "total-all", h, " E=", E, ": ", X->TotalCrossSectionAllFinalStates(q), " expected ", w); }
                if (!out) VC_EXPECT(close(sum, w, 1e-9), "mesons-do-not-add-up", h, " E=", E, ": ", sum, " expected ", w); }
            int n = vc::thorough() ? 50 : how == 0 ? 20 : 5; std::vector<double> v = {-0.5, 0, 1, 1.5}; for (int i = 0; i < n; ++i) v.push_back(std::pow(10, -4.3 + 4.3 * (i + 0.37) / n)); for (double q : {0.93, 0.97, 0.99, 0.999}) v.push_back(q); std::vector<double> Es = energies(c); Es.push_back(std::pow(10, diff_table(c.table).lo[0] - 0.1)); Es.push_back(std::pow(10, diff_table(c.table).hi[0] + 0.1));
            for (double E : Es) for (double xi : v) for (double y : v) for (double a : {double(NAN), 2 * c.M * E * y * xi - MC * MC, 0.99 * c.Q2}) { vc::trace(); vc::step(); ++vc::R.states; int in = region(c, p, E, xi, y, a); if (in < 0) continue; double w = in == 1 ? diff(c, E, xi, y) : 0, g = 0; bool t = false; try { g = X->DifferentialCrossSection(E, xi, y, lepton_mass(c, p), a); } catch (std::exception const &) { t = true; }
                VC_EXPECT(t == (in >= 2), "refusal", h, " E=", E, " xi=", xi, " y=", y, t ? ": refused" : ": accepted"); if (!t && in < 2) VC_EXPECT(in ? close(g, w, 1e-9) : g == 0, "differential", h, " primary ", int(p), " E=", E, " xi=", xi, " y=", y, ": ", g, " expected ", w); vc::count(vc::cat("region_", in), 1); } }
        for (PT p : {PT::EMinus, PT::N4, PT::unknown}) { bool t = false; try { X->TotalCrossSection(p, 10); } catch (std::exception const &) { t = true; } VC_EXPECT(t, "foreign-primary", h, " type ", int(p)); } } }
// ---- fragmentation: the law of the fraction of the charm momentum ----
static double peterson(double z) { return 1 / (z * sq(1 - 1 / z - 0.2 / (1 - z))); }
struct Law { std::vector<double> cdf; static int const N = 200000; Law() { cdf.assign(N + 1, 0); for (int i = 0; i < N; ++i) cdf[i + 1] = cdf[i] + peterson((i + 0.5) / N) / N; for (double &v : cdf) v /= cdf[N]; } double below(double z) const { double t = std::max(0.0, std::min(1.0, z)) * N; int i = std::min(N - 1, int(t)); return cdf[i] + (cdf[i + 1] - cdf[i]) * (t - i); } };
static Law const &law() { static Law l; return l; }
// ---- sampled final states ----
static P4 operator-(P4 a, P4 const &b) { for (int i = 0; i < 4; ++i) a[i] -= b[i]; return a; } static double dot(P4 const &a, P4 const &b) { return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; }
static double len(P4 const &a) { return std::sqrt(sq(a[1]) + sq(a[2]) + sq(a[3])); } static double along(P4 const &a, V3 const &d) { return a[1] * d[0] + a[2] * d[1] + a[3] * d[2]; }
struct Out { InteractionRecord r; double xi = 0, y = 0, z = 0, mass2 = 0; size_t used = 0; };
static Out sample(CrossSection const &X, Cfg const &c, InteractionRecord const &in, std::vector<double> const &words) {
    draw::script(words); CrossSectionDistributionRecord q(in); std::verif_engine::limit = 6000; try { X.SampleFinalState(q, draw::rng()); } catch (...) { std::verif_engine::limit = 0; throw; } std::verif_engine::limit = 0; Out o; o.r = in; q.Finalize(o.r); o.used = std::verif_engine::pos; o.xi = o.r.interaction_parameters["bjorken_xi"]; o.y = o.r.interaction_parameters["bjorken_y"]; P4 w = in.primary_momentum - o.r.secondary_momenta[0]; o.z = len(o.r.secondary_momenta[2]) / len(w); vc::step(); vc::trace(); return o; }
static void judge(CrossSection const &X, Cfg const &c, InteractionRecord const &in, int meson, Out const &o, std::string const &h) {
    auto &r = o.r; double E = in.primary_momentum[0], S = E + c.M, ml = lepton_mass(c, in.signature.primary_type), md = meson_mass(meson); PT p = in.signature.primary_type; bool ok = r.secondary_momenta.size() == 3 && r.secondary_masses.size() == 3; VC_EXPECT(ok, "count", h); if (!ok) return; P4 k = r.secondary_momenta[0], H = r.secondary_momenta[1], D = r.secondary_momenta[2];
    for (int i = 0; i < 4; ++i) VC_EXPECT(std::isfinite(k[i]) && std::isfinite(H[i]) && std::isfinite(D[i]) && std::fabs(k[i] + H[i] + D[i] - in.primary_momentum[i] - (i ? 0 : c.M)) <= (1 - o.y < 1e-5 ? 1e-7 : 1e-9) * S, "conservation", h, " component ", i, ": ", k[i] + H[i] + D[i], " incoming ", in.primary_momentum[i]);
    VC_EXPECT(std::fabs(dot(k, k) - sq(ml)) <= 1e-9 * S * S && std::fabs(sq(r.secondary_masses[0]) - sq(ml)) <= 1e-9 * S * S && (ml == 0 || close(r.secondary_masses[0], ml, 1e-4)), "lepton-mass", h, ": ", r.secondary_masses[0], " expected ", ml); VC_EXPECT(std::fabs(dot(D, D) - sq(md)) <= 1e-9 * S * S && std::fabs(sq(r.secondary_masses[2]) - sq(md)) <= 1e-8 * sq(S) && D[0] > 0, "meson-mass", h, ": ", r.secondary_masses[2], " expected ", md);
    VC_EXPECT(std::fabs(dot(H, H) - sq(r.secondary_masses[1])) <= 1e-9 * S * S && dot(H, H) >= -1e-9 * S * S && H[0] >= -1e-9 * S, "hadron-mass", h, ": ", dot(H, H)); VC_EXPECT(r.secondary_helicities.size() == 3 && r.secondary_helicities[0] == in.primary_helicity && r.secondary_helicities[1] == in.target_helicity, "helicities", h); VC_EXPECT(r.signature == in.signature && r.primary_momentum == in.primary_momentum && r.interaction_vertex == in.interaction_vertex && r.target_mass == in.target_mass, "incoming-untouched", h);
    // slow rescaling: what the momenta say
    P4 q = in.primary_momentum - k; double y = q[0] / E, q2 = 2 * c.M * E * o.y * o.xi - MC * MC; auto par = r.interaction_parameters; VC_EXPECT(par.size() == 4 && close(par["energy"], E, 1e-12) && std::fabs(o.y - y) <= 1e-7, "parameters", h, ": y=", o.y, ", momenta give ", y); VC_EXPECT(1 - o.y < 1e-5 || std::fabs(-dot(q, q) - q2) <= 1e-8 * S * S * (0.01 + o.y) + 1e-9 * q2, "momentum-transfer", h, ": ", -dot(q, q), " expected ", q2, " xi=", o.xi, " y=", o.y); VC_EXPECT(std::fabs(par["bjorken_x"] - q2 / (2 * c.M * E * o.y)) <= 1e-9, "bjorken-x", h, ": ", par["bjorken_x"], " expected ", q2 / (2 * c.M * E * o.y));
    // the meson moves along the charm quark, which carries the momentum transfer, with a fraction of its momentum
    double cosine = (D[1] * q[1] + D[2] * q[2] + D[3] * q[3]) / (len(D) * len(q)); VC_EXPECT(o.z < 1e-9 || cosine > 1 - 1e-9, "meson-direction", h, ": cosine ", cosine); VC_EXPECT(o.z >= 0 && o.z <= 1 + 1e-9, "fraction-range", h, ": ", o.z);
    int reg = region(c, p, E, o.xi, o.y); VC_EXPECT(reg == 1 || reg == -1, "outside-region", h, ": xi=", o.xi, " y=", o.y); if (reg != 1) return; double w = diff(c, E, o.xi, o.y), T = total(c, E) * SHARE[meson]; double back = (-dot(q, q) + MC * MC) / (2 * c.M * E * y); if (region(c, p, E, back, y) != 1 || std::fabs(back / o.xi - 1) > 1e-5) return; double g = X.DifferentialCrossSection(r), f = X.FinalStateProbability(r); VC_EXPECT(close(g, w, 1e-4), "differential-of-sampled", h, ": xi=", o.xi, " y=", o.y, " ", g, " expected ", w); VC_EXPECT(close(f, w / T, 1e-4), "probability-of-sampled", h, ": ", f, " expected ", w / T); vc::count("densities", 1); }
static std::vector<V3> const DIRS = {{0.36, 0.48, 0.8}, {0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {-0.3, 0.5, -0.8}, {-1, 1e-3, 0}};
static void sampling(int kind, int part) {
    int ci = 0; for (auto &c : configs(kind)) { if (ci++ % 3 != part) continue; auto X = build(c, 0); int ei = 0; for (double E : energies(c)) { ++ei; for (PT p : std::vector<PT>{NUS[ci % 6], NUS[(ci + 3) % 6]}) { int meson = (ci + ei + int(p)) % 3; if (meson < 0) meson += 3; std::string h = vc::cat(name(c), " E=", E, " primary ", int(p), " meson ", meson); vc::note(h); InteractionRecord in = incoming(c, p, meson, E, DIRS[0]);
        double ml = lepton_mass(c, p), ymax = 1 - ml / E, ymin = (sq(c.M + K::D0Mass) - sq(c.M) + c.Q2) / (2 * c.M * E), ximin = (MC * MC + c.Q2) / (2 * c.M * E * ymax); if (!(ymin < ymax) || !(ximin < 1)) { bool t = false; try { sample(*X, c, in, {0.5, 0.5}); } catch (std::exception const &) { t = true; } VC_EXPECT(t, "sampled-below-threshold", h); vc::count("no_room", 1); continue; }
        struct Node { double u, v, xi, y, w; size_t used; }; std::vector<Node> nodes; double d = 1e-4; int n = vc::thorough() ? 40 : 14; double const FREE = 0.7;
        auto stay = [&](double u, double v) { std::vector<double> s; for (int k = 0; k < 150; ++k) { s.push_back(u); s.push_back(v); if (k) s.push_back(1 - 1e-12); } return s; };
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double u = (i + 0.5) / n, v = (j + 0.5) / n; Out o, a, b; bool lost = false; try { o = sample(*X, c, in, stay(u, v)); a = sample(*X, c, in, stay(u + d, v)); b = sample(*X, c, in, stay(u, v + d)); } catch (std::verif_engine::exhausted const &) { lost = true; } catch (siren::utilities::InjectionFailure const &) { lost = true; } ++vc::R.states; ++vc::R.evaluations; if (lost) { vc::count("refused_events", 1); continue; } judge(*X, c, in, meson, o, vc::cat(h, " words ", u, ",", v));
            double J = std::fabs((std::log(a.xi / o.xi) * std::log(b.y / o.y) - std::log(a.y / o.y) * std::log(b.xi / o.xi)) / (d * d)); if (region(c, p, E, o.xi, o.y) != 1) continue; double w = std::pow(10, diff_table(c.table).at({std::log10(E), std::log10(o.xi), std::log10(o.y)})) * o.xi * o.y * J; if (o.used == a.used && o.used == b.used) nodes.push_back({u, v, o.xi, o.y, w, o.used}); }
        // every allowed point of the region can be reached: the chain proposes from a box that contains it
        if (!nodes.empty()) { int in_region = 0; for (int i = 0; i < 50; ++i) for (int j = 0; j < 50; ++j) { double lx = -5.5 * (i + 0.5) / 50, ly = -4.5 * (j + 0.5) / 50; if (region(c, p, E, std::pow(10, lx), std::pow(10, ly)) != 1) continue; ++in_region; bool inside = false; double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; double su = 0; for (auto &q : nodes) { lo[0] = std::min(lo[0], std::log10(q.xi)); hi[0] = std::max(hi[0], std::log10(q.xi)); lo[1] = std::min(lo[1], std::log10(q.y)); hi[1] = std::max(hi[1], std::log10(q.y)); } su = 2.5 * 5.5 / n + 0.15; inside = lx > lo[0] - su && lx < hi[0] + su && ly > lo[1] - su && ly < hi[1] + su; VC_EXPECT(inside, "unreachable", h, " xi=", std::pow(10, lx), " y=", std::pow(10, ly)); } vc::count("region_points", in_region); }
        size_t least = ~size_t(0); for (auto &q : nodes) least = std::min(least, q.used); std::vector<Node> good; for (auto &q : nodes) if (q.used == least && q.w > 0) good.push_back(q); if (good.size() < 3) { vc::count("too_narrow", 1); continue; } vc::count("nodes", good.size());
        auto by = [](Node const &a, Node const &b) { return a.w < b.w; }; Node low = *std::min_element(good.begin(), good.end(), by), top = *std::max_element(good.begin(), good.end(), by);
        auto tail = [&](std::vector<double> s, int reps = 100) { for (int k = 0; k < reps; ++k) { s.push_back(low.u); s.push_back(low.v); s.push_back(1 - 1e-12); } return s; }; auto first = [&](double u, double v) { return std::vector<double>{u, v}; };
        auto at = [&](Out const &o, Node const &q) { return close(o.xi, q.xi, 1e-9) && close(o.y, q.y, 1e-9); };
        for (auto &q : good) { if (q.w <= low.w * 1.0001) continue; Out o = sample(*X, c, in, tail(first(q.u, q.v))); VC_EXPECT(at(o, q), "start", h, " xi=", q.xi, " y=", q.y, " became ", o.xi, " ", o.y); }
        // no words lead out of the region, whether they are the first ones or proposed later
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int later = 0; later < 2; ++later) { double u = (i + 0.5) / n, v = (j + 0.5) / n; ++vc::R.states; ++vc::R.evaluations; try { Out o = sample(*X, c, in, later ? tail({low.u, low.v, u, v, 0}) : tail({u, v})); judge(*X, c, in, meson, o, vc::cat(h, later ? " proposed words " : " first words ", u, ",", v)); } catch (std::verif_engine::exhausted const &) { vc::count("refused_events", 1); } catch (siren::utilities::InjectionFailure const &) { vc::count("refused_events", 1); } }
        std::vector<Node> sorted = good; std::sort(sorted.begin(), sorted.end(), by); size_t step = std::max<size_t>(1, sorted.size() / (vc::thorough() ? 12 : 6));
        for (size_t a = sorted.size(); a-- > 1;) { if ((sorted.size() - 1 - a) % step) continue; for (size_t b = 1; b < sorted.size(); b += step) { auto &A = sorted[a], &B = sorted[b]; if (&A == &B || B.w <= low.w * 1.001) continue; double want = B.w / A.w; if (std::fabs(want - 1) < 1e-3) continue; ++vc::R.states;
            if (want > 1) { Out o = sample(*X, c, in, tail({A.u, A.v, B.u, B.v})); VC_EXPECT(at(o, B), "better-refused", h, ": from xi=", A.xi, " y=", A.y, " to xi=", B.xi, " y=", B.y, " (", want, " times likelier) ended at ", o.xi, " ", o.y); continue; }
            double lo = 0, hi = 1; for (int k = 0; k < 16; ++k) { double mid = 0.5 * (lo + hi); Out o = sample(*X, c, in, tail({A.u, A.v, B.u, B.v, mid})); bool acc = at(o, B); if (!acc) VC_EXPECT(at(o, A), "neither", h); (acc ? lo : hi) = mid; } VC_EXPECT(std::fabs(lo - want) < 1e-3 + 2e-3 * want, "acceptance", h, ": from xi=", A.xi, " y=", A.y, " to xi=", B.xi, " y=", B.y, " accepted with probability ", lo, ", the density needs ", want); } }
        // azimuth and fragmentation: which of the remaining words decides which is left to the code
        std::vector<double> base = tail(first(top.u, top.v)); Out ref; bool lost = false; size_t last = 0; for (double f : {FREE, 0.5, 0.3, 0.1, 0.02}) { lost = false; std::vector<double> s = base; try { ref = sample(*X, c, in, s); last = ref.used; for (size_t k = last < 6 ? 0 : last - 4; k < s.size(); ++k) s[k] = f; ref = sample(*X, c, in, s); last = ref.used; base = s; if (!at(ref, top)) { lost = true; continue; } Out r2 = sample(*X, c, in, s); break; } catch (std::exception const &) { lost = true; } } if (lost) { vc::count("no_hadronisation", 1); continue; }
        int wz = -1, wa = -1; for (size_t k = last - 2; k < last; ++k) { std::vector<double> s = base; s[k] += 0.003; Out o = sample(*X, c, in, s); if (!at(o, top)) continue; if (std::fabs(o.z - ref.z) > 1e-9) wz = int(k); double dl = 0; for (int i = 1; i < 4; ++i) dl += sq(o.r.secondary_momenta[0][i] - ref.r.secondary_momenta[0][i]); if (std::sqrt(dl) > 1e-9 * E) wa = int(k); } if (wz < 0 || wa < 0 || wz == wa) { vc::count("no_hadronisation", 1); continue; }
        double worst = 0; bool had = false; int M = vc::thorough() ? 400 : 100; for (int k = -4; k < M + 4; ++k) { double u = k < 0 ? std::pow(10, 2 * k + 1) * 1e-1 : k >= M ? 1 - std::pow(10, -2.0 * (k - M) - 3) : (k + 0.5) / M; std::vector<double> s = base; s[wz] = u; Out o; try { o = sample(*X, c, in, s); } catch (std::exception const &) { continue; } if (o.used != last) { vc::count("fragmentation_redrawn", 1); double md = meson_mass(meson), P = std::sqrt(sq(E * top.y) + 2 * c.M * E * top.y * top.xi - MC * MC); double zz = -1; { double a = 0, b = 1; for (int q = 0; q < 60; ++q) { double m = 0.5 * (a + b); (law().below(m) < u ? a : b) = m; } zz = a; } double W = E * top.y + c.M - std::sqrt(sq(zz * P) + md * md), R = (1 - zz) * P; VC_EXPECT(W * W - R * R < 0.05 * (1 + sq(c.M + E * top.y) * 0.02), "redrawn-needlessly", h, " z=", zz, " recoil mass squared ", W * W - R * R); continue; } had = true; judge(*X, c, in, meson, o, vc::cat(h, " fragmentation word ", u)); worst = std::max(worst, std::fabs(law().below(o.z) - u)); VC_EXPECT(std::fabs(law().below(o.z) - u) <= 2e-3, "fragmentation-law", h, ": word ", u, " gives z=", o.z, ", below which lies ", law().below(o.z), " of the Peterson function"); vc::count("fragmentations", 1); } if (had) vc::note(vc::cat(h, " worst ", worst));
        for (auto &dir : DIRS) { InteractionRecord q = incoming(c, p, meson, E, dir); double n0 = std::sqrt(sq(dir[0]) + sq(dir[1]) + sq(dir[2])); V3 ax = {dir[0] / n0, dir[1] / n0, dir[2] / n0}; V3 t0{}; int N = 8; int sense = 0; for (int k = 0; k < N; ++k) { std::vector<double> s = base; s[wa] = double(k) / N; Out o = sample(*X, c, q, s); std::string hh = vc::cat(h, " direction (", dir[0], ",", dir[1], ",", dir[2], ") azimuth ", k, "/", N); judge(*X, c, q, meson, o, hh); VC_EXPECT(at(o, top), "direction-changes-kinematics", hh);
                P4 kk = o.r.secondary_momenta[0]; double l = along(kk, ax); V3 t = {kk[1] - l * ax[0], kk[2] - l * ax[1], kk[3] - l * ax[2]}; double tn = std::sqrt(sq(t[0]) + sq(t[1]) + sq(t[2])); if (tn < 1e-6 * E) break; for (auto &v : t) v /= tn; if (k == 0) { t0 = t; continue; } double cs = t[0] * t0[0] + t[1] * t0[1] + t[2] * t0[2]; V3 cr = {t0[1] * t[2] - t0[2] * t[1], t0[2] * t[0] - t0[0] * t[2], t0[0] * t[1] - t0[1] * t[0]}; double sn = cr[0] * ax[0] + cr[1] * ax[1] + cr[2] * ax[2], phi = std::atan2(sn, cs), want = 2 * M_PI * k / N; if (!sense) sense = phi > 0 ? 1 : -1; double e = std::remainder(sense * phi - want, 2 * M_PI); VC_EXPECT(std::fabs(e) < 1e-4, "azimuth", hh, ": ", phi); } } } } } }
// ---- lists, persistence, equality, refusals ----
static std::string content(CrossSection const &X) { std::string o; for (auto &s : X.GetPossibleSignatures()) { o += vc::cat(int(s.primary_type), "+", int(s.target_type), ">"); for (PT t : s.secondary_types) o += vc::cat(int(t), ","); } return o; }
static void lists() {
    std::vector<VP> targets = {{PT::Nucleon}, {PT::PPlus, PT::Neutron}, {PT::HNucleus, PT::O16Nucleus, PT::Nucleon}}; for (int kind = 0; kind < 2; ++kind) for (int m = 1; m < 64; ++m) for (auto &ts : targets) for (int how = 0; how < 4; ++how) { Cfg c = configs(kind)[0]; c.prim.clear(); for (int i = 0; i < 6; ++i) if (m >> i & 1) c.prim.push_back(NUS[i]); c.targ = ts; auto X = build(c, how); std::string h = vc::cat(name(c), " primaries ", m, " targets ", ts.size(), " built ", how); ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; auto all = X->GetPossibleSignatures(); std::set<std::vector<int>> want, got;
        for (PT p : c.prim) for (PT t : ts) for (PT D : mesons(p)) want.insert({int(p), int(t), int(product(c, p)), int(PT::Hadrons), int(D)}); auto flat = [](InteractionSignature const &s) { std::vector<int> v = {int(s.primary_type), int(s.target_type)}; for (PT q : s.secondary_types) v.push_back(int(q)); return v; }; for (auto &s : all) got.insert(flat(s)); VC_EXPECT(got == want && all.size() == want.size(), "signatures", h, ": ", all.size(), " expected ", want.size());
        for (PT p : NUS) for (PT t : {PT::Nucleon, PT::PPlus, PT::HNucleus, PT::Fe56Nucleus}) { std::set<std::vector<int>> w, g; for (auto &s : want) if (s[0] == int(p) && s[1] == int(t)) w.insert(s); auto v = X->GetPossibleSignaturesFromParents(p, t); for (auto &s : v) g.insert(flat(s)); VC_EXPECT(g == w && v.size() == w.size(), "signatures-of-parents", h, " primary ", int(p), " target ", int(t)); }
        auto P = X->GetPossiblePrimaries(); auto T = X->GetPossibleTargets(), T2 = X->GetPossibleTargetsFromPrimary(c.prim[0]); VC_EXPECT(SP(P.begin(), P.end()) == SP(c.prim.begin(), c.prim.end()) && P.size() == c.prim.size(), "primaries", h); VC_EXPECT(SP(T.begin(), T.end()) == SP(ts.begin(), ts.end()) && T == T2 && T.size() == ts.size(), "targets", h); } }
static double try_diff(Q const &A, double E, double x, double y, double m) { try { return A.DifferentialCrossSection(E, x, y, m); } catch (std::exception const &) { return -1; } }
static void same(Q const &A, Q const &B, Cfg const &c, std::string const &h) { VC_EXPECT(content(A) == content(B), "persist-signatures", h); for (PT p : c.prim) for (double E : energies(c)) { double a = A.TotalCrossSection(p, E), b = B.TotalCrossSection(p, E); VC_EXPECT(a == b && std::isfinite(a), "persist-total", h, ": ", a, " ", b); for (double x : {0.03, 0.2, 0.5, 0.9}) for (double y : {0.05, 0.4, 0.8}) { double f = try_diff(A, E, x, y, lepton_mass(c, p)), g = try_diff(B, E, x, y, lepton_mass(c, p)); vc::step(); VC_EXPECT(f == g && std::isfinite(f), "persist-differential", h, ": ", f, " ", g); } }
    for (PT p : c.prim) { InteractionRecord in = incoming(c, p, 1, energies(c)[3], DIRS[0]); std::vector<double> w; for (int i = 0; i < 400; ++i) w.push_back(std::fmod(0.37 + 0.6180339887498949 * i, 1)); InteractionRecord r[2]; int st[2] = {0, 0}; for (int i = 0; i < 2; ++i) try { r[i] = sample(i ? B : A, c, in, w).r; } catch (std::verif_engine::exhausted const &) { st[i] = 2; } catch (std::exception const &) { st[i] = 1; } VC_EXPECT(st[0] == st[1] && (st[0] || (r[0].secondary_momenta == r[1].secondary_momenta && r[0].interaction_parameters == r[1].interaction_parameters)), "persist-sampler", h); } VC_EXPECT(A.DensityVariables() == B.DensityVariables() && A.DensityVariables().size() == 2, "persist-variables", h); }
static void persistence() {
    std::vector<std::pair<Cfg, std::shared_ptr<Q>>> all; for (int kind = 0; kind < 2; ++kind) { Cfg c = configs(kind)[0]; auto add = [&](std::function<void(Cfg &)> f) { Cfg d = c; f(d); all.push_back({d, build(d, int(all.size()) % 4)}); }; add([](Cfg &) {}); add([](Cfg &d) { d.table = 1; }); add([](Cfg &d) { d.Q2 = 2; }); add([](Cfg &d) { d.M = 0.9; }); add([](Cfg &d) { d.unit = "m"; }); add([](Cfg &d) { d.prim.pop_back(); }); add([](Cfg &d) { d.targ = {PT::PPlus}; }); add([](Cfg &d) { d.targ = {PT::PPlus, PT::Nucleon}; }); }
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) { ++vc::R.states; vc::trace(); VC_EXPECT((*all[i].second == *all[j].second) == (i == j), "equality", name(all[i].first), " targets ", all[i].first.targ.size(), " and ", name(all[j].first), " targets ", all[j].first.targ.size()); }
    for (auto &q : all) for (int how = 0; how < 4; ++how) VC_EXPECT(*q.second == *build(q.first, how), "equality", name(q.first), " built differently");
    for (auto &q : all) for (int how = 0; how < 4; ++how) { ++vc::R.states; vc::trace(); ++vc::R.evaluations; std::string h = vc::cat(name(q.first), " archive ", how); std::stringstream s; std::shared_ptr<CrossSection> x = q.second, b; if (how % 2 == 0) { { cereal::BinaryOutputArchive a(s); a(x); } cereal::BinaryInputArchive a(s); a(b); } else { { cereal::JSONOutputArchive a(s); a(x); } cereal::JSONInputArchive a(s); a(b); }
        if (how >= 2) { std::stringstream t; { cereal::BinaryOutputArchive a(t); a(b); } b.reset(); cereal::BinaryInputArchive a(t); a(b); } VC_EXPECT(bool(b) && *b == *q.second, "persist-equal", h); auto y = std::dynamic_pointer_cast<Q>(b); if (y) same(*q.second, *y, q.first, h); } }
static void keys() {
    for (int m = 0; m < 8; ++m) for (int type = 1; type <= 2; ++type) for (int how = 0; how < 2; ++how) { Cfg c = configs(0)[0]; Table t = diff_table(c.table); if (m & 1) t.keys["TARGETMASS"] = "0.95"; if (m & 2) t.keys["INTERACTION"] = vc::cat(type); if (m & 4) t.keys["Q2MIN"] = "0.4"; c.M = m & 1 ? 0.95 : ISO; c.Q2 = m & 4 ? 0.4 : 1; c.kind = m & 2 ? type - 1 : 0; std::string h = vc::cat(name(c), " keys ", m, " type ", type); vc::note(h); ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; auto X = how ? keyed<SP>(c, t) : keyed<VP>(c, t), Y = build(c, 0); VC_EXPECT(content(*X) == content(*Y), "keys-signatures", h);
        for (PT p : c.prim) for (double E : energies(c)) for (double x : {0.01, 0.06, 0.3, 0.8}) for (double y : {0.02, 0.1, 0.5, 0.9}) { int in = region(c, p, E, x, y); if (in < 0 || in > 1) continue; double g = try_diff(*X, E, x, y, lepton_mass(c, p)), w = in ? diff(c, E, x, y) : 0; VC_EXPECT(in ? close(g, w, 1e-9) : g == 0, "keys-differential", h, " E=", E, " xi=", x, " y=", y, ": ", g, " expected ", w); } } }
static void refusals() {
    auto refused = [](std::function<void()> f) { try { f(); return false; } catch (std::exception const &) { return true; } };
    for (int kind = 0; kind < 2; ++kind) for (int how = 0; how < 4; ++how) { Cfg c = configs(kind)[0]; std::string h = vc::cat(name(c), " built ", how); auto bad = [&](char const *what, std::function<void(Cfg &)> f) { ++vc::R.states; vc::trace(); vc::step(); Cfg d = c; f(d); VC_EXPECT(refused([&] { build(d, how); }), "accepted", h, ": ", what); };
        bad("unit", [](Cfg &d) { d.unit = "barn"; }); bad("no unit", [](Cfg &d) { d.unit = ""; }); for (PT p : {PT::EMinus, PT::PPlus, PT::N4}) bad("primary", [&](Cfg &d) { d.prim.push_back(p); }); for (int t : {-1, 2, 3, 7}) bad("interaction type", [&](Cfg &d) { d.kind = t; }); VC_EXPECT(!refused([&] { build(c, how); }), "refused", h);
        for (int e = 0; e < 6; ++e) { Table d = diff_table(0), t = total_table(0); std::string fd = scratch("d"), ft = scratch("t"); if (e == 0) t = diff_table(0); if (e == 1) d = total_table(0); put(fd, e == 2 ? "nothing" : e == 3 ? d.text().substr(0, 20) : d.text()); put(ft, e == 4 ? "nothing" : t.text()); if (e == 5) unlink(ft.c_str()); ++vc::R.states; vc::trace(); VC_EXPECT(refused([&] { Q(fd, ft, kind + 1, ISO, 1., c.prim, c.targ, "cm"); }), "bad-file-accepted", h, " case ", e); unlink(fd.c_str()); unlink(ft.c_str()); } }
    { Cfg c = configs(0)[0]; auto X = build(c, 0); for (PT p : NUS) for (int m = 0; m < 8; ++m) { ++vc::R.states; InteractionRecord in = incoming(c, p, 0, 100, {0, 0, 1}); VP s; if (m & 1) s.push_back(in.signature.secondary_types[0]); if (m & 2) s.push_back(PT::Hadrons); if (m & 4) s.push_back(mesons(p)[0]); while (s.size() < 3) s.push_back(s.empty() ? PT::Hadrons : s.back()); in.signature.secondary_types = s; std::vector<double> w; for (int i = 0; i < 500; ++i) w.push_back(std::fmod(0.37 + 0.6180339887498949 * i, 1)); if (m == 7) continue; VC_EXPECT(refused([&] { sample(*X, c, in, w); }), "malformed-signature-sampled", name(c), " primary ", int(p), " parts ", m); } }
    for (int kind = 0; kind < 2; ++kind) for (auto &c : configs(kind)) for (double f : {-0.2, 1.2}) { Table t = diff_table(c.table); double E = std::pow(10, f < 0 ? t.lo[0] + f : t.hi[0] + f - 1); auto X = build(c, 0); InteractionRecord in = incoming(c, PT::NuMu, 0, E, {0, 0, 1}); ++vc::R.states; vc::trace(); VC_EXPECT(refused([&] { sample(*X, c, in, {0.5, 0.5}); }), "sampled-outside-table", name(c), " E=", E); } }
int main(int argc, char **argv) {
    std::vector<vc::Case> c; for (int k = 0; k < 2; ++k) { c.push_back({vc::cat("values-", k), [k] { values(k); }}); for (int p = 0; p < 3; ++p) c.push_back({vc::cat("sampling-", k, "-", p), [k, p] { sampling(k, p); }}); } c.push_back({"lists", lists}); c.push_back({"persistence", persistence}); c.push_back({"keys", keys}); c.push_back({"refusals", refusals});
    return vc::run(argc, argv, c);
}
