// P18: scattering samplers and cross sections -- for every random choice on the grid, every model setting, target, energy and
// direction: conservation with the target at rest, mass shell, density = differential/total, chain acceptance, lists.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/ElasticScattering.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/DarkNewsCrossSection.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include <array>
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace siren::interactions; using namespace siren::dataclasses;
typedef std::array<double, 4> P4; typedef ParticleType PT; typedef std::array<double, 3> V3;
static double const GF = 1.16639e-5, CM2 = 2.568189461147501e27, ME = 0.000511;
static double sq(double x) { return x * x; }
static double p3(P4 const &a) { return std::sqrt(a[1]*a[1] + a[2]*a[2] + a[3]*a[3]); }
static std::vector<V3> const DIRS = {{0,0,1}, {0,0,-1}, {1,0,0}, {-1,0,0}, {0,1,0}, {0,-1,0}, {0.6,0.48,0.64}, {-0.3,0.5,-0.8124038404635961}, {1e-9,0,-1}};
static InteractionRecord incoming(InteractionSignature const &s, double m, double M, double E, V3 d, double hel) {
    InteractionRecord r; r.signature = s; r.primary_mass = m; r.target_mass = M; double n = std::sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]), p = std::sqrt((E - m) * (E + m));
    r.primary_momentum = {E, p * d[0] / n, p * d[1] / n, p * d[2] / n}; r.primary_helicity = hel; r.target_helicity = 0.5; r.interaction_vertex = {1, 2, 3}; return r;
}
static InteractionRecord sample(CrossSection const &X, InteractionRecord const &in) {
    CrossSectionDistributionRecord x(in); X.SampleFinalState(x, draw::rng()); InteractionRecord out = in; x.Finalize(out); vc::step(); return out;
}
static std::string desc(InteractionRecord const &r) { std::string s = vc::cat((int)r.signature.primary_type, "+", (int)r.signature.target_type, "->"); for (auto t : r.signature.secondary_types) s += vc::cat((int)t, ","); return vc::cat(s, " P=(", r.primary_momentum[0], ",", r.primary_momentum[1], ",", r.primary_momentum[2], ",", r.primary_momentum[3], ") M=", r.target_mass, " h=", r.primary_helicity); }
// One two-to-two process whose sampler walks one kinematic variable v.
struct Proc {
    std::string key; CrossSection const *X; InteractionRecord in; int lepton; double m3, m4, h3, h4;
    std::function<double(InteractionRecord const &)> var; // v of a final state
    std::function<double(double)> f; double total;         // differential and total cross section, expected
    double lo, hi; std::vector<std::pair<std::string, std::function<double(double)>>> params; bool normalised;
};
static std::vector<double> rep(double u, size_t n) { return std::vector<double>(n, u); }
static void kinematics(Proc const &p, InteractionRecord const &r, std::string const &where) {
    P4 s = {-r.target_mass, 0, 0, 0}; double E = p.in.primary_momentum[0], S = E + r.target_mass;
    VC_EXPECT(r.secondary_momenta.size() == 2 && r.secondary_masses.size() == 2 && r.secondary_helicities.size() == 2, p.key + ":count", where); if (r.secondary_momenta.size() != 2) return;
    for (int i = 0; i < 2; ++i) { double m = i == p.lepton ? p.m3 : p.m4, h = i == p.lepton ? p.h3 : p.h4; P4 const &k = r.secondary_momenta[i]; for (int j = 0; j < 4; ++j) s[j] += k[j];
        VC_EXPECT(std::fabs((k[0] - p3(k)) * (k[0] + p3(k)) - sq(m)) <= 1e-9 * S * S, p.key + ":mass-shell", where, " secondary ", i, " E=", k[0], " |p|=", p3(k), " m=", m);
        VC_EXPECT(std::fabs(sq(r.secondary_masses[i]) - sq(m)) <= 1e-9 * S * S, p.key + ":mass", where, " secondary ", i, " recorded ", r.secondary_masses[i], " expected ", m);
        VC_EXPECT(r.secondary_helicities[i] == h, p.key + ":helicity", where, " secondary ", i, " got ", r.secondary_helicities[i], " expected ", h); }
    for (int j = 0; j < 4; ++j) VC_EXPECT(std::fabs(s[j] - p.in.primary_momentum[j]) <= 1e-8 * S, p.key + ":conservation", where, " component ", j, " sum=", s[j], " incoming=", p.in.primary_momentum[j]);
    VC_EXPECT(r.primary_momentum == p.in.primary_momentum && r.primary_mass == p.in.primary_mass && r.target_mass == p.in.target_mass && r.interaction_vertex == p.in.interaction_vertex && r.signature == p.in.signature, p.key + ":incoming-untouched", where);
}
static void check(Proc const &p) {
    std::string w = desc(p.in); int n = vc::thorough() ? 64 : 16, nphi = vc::thorough() ? 16 : 8; CrossSection const &X = *p.X;
    VC_EXPECT(vc::close(X.TotalCrossSection(p.in), p.total, 2e-3), p.key + ":total", w, " total ", X.TotalCrossSection(p.in), " expected ", p.total);
    VC_EXPECT(X.TotalCrossSectionAllFinalStates(p.in) >= X.TotalCrossSection(p.in) * (1 - 1e-12), p.key + ":all-final-states", w);
    // how many words does a run consume, and is the last one the azimuth
    draw::script(rep(0.5, 400)); sample(X, p.in); size_t N = std::verif_engine::pos; VC_EXPECT(N > 1 && N < 400, p.key + ":choices", w, " consumed ", N);
    struct Pt { double u, v, f; }; std::vector<Pt> pts; double I = 0, lastv = 0;
    for (int i = -1; i <= n; ++i) { double u = i < 0 ? 0 : i == n ? 1 : (i + 0.5) / n; std::string where = vc::cat(w, " u=", u); vc::note(p.key + " " + where);
        auto sc = rep(u, 400); draw::script(sc); InteractionRecord r = sample(X, p.in); size_t Nu = std::verif_engine::pos; vc::trace(); kinematics(p, r, where); if (r.secondary_momenta.size() != 2) return; double v = p.var(r);
        VC_EXPECT(v >= p.lo * (1 - 1e-6) - 1e-12 * p.hi && v <= p.hi * (1 + 1e-9) + 1e-12 * p.hi, p.key + ":range", where, " v=", v, " outside [", p.lo, ",", p.hi, "]");
        for (auto const &q : p.params) VC_EXPECT(r.interaction_parameters.count(q.first) && vc::close(r.interaction_parameters.at(q.first), q.second(v), 1e-6, 1e-13), p.key + ":parameters", where, " ", q.first, " recorded ", r.interaction_parameters.count(q.first) ? r.interaction_parameters.at(q.first) : -1, " expected ", q.second(v));
        vc::state(vc::cat(p.key, w, i)); if (i < 0 || i == n) continue;
        double want = p.f(v), got = X.DifferentialCrossSection(r), tol = 1e-5 + 1e-13 / std::max(v / p.hi, 1e-300);
        if (tol < 0.1) { VC_EXPECT(vc::close(got, want, tol), p.key + ":differential", where, " v=", v, " differential ", got, " expected ", want);
            VC_EXPECT(vc::close(X.FinalStateProbability(r), want / p.total, tol + 2e-3), p.key + ":density", where, " v=", v, " density ", X.FinalStateProbability(r), " expected ", want / p.total); }
        pts.push_back({u, v, want});
        // azimuth: the last word
        if (i % 5 == 2 && Nu <= 400) { std::vector<double> ph; for (int j = 0; j < nphi; ++j) { auto s2 = rep(u, Nu); s2.back() = (j + 0.5) / nphi; draw::script(s2); InteractionRecord q = sample(X, p.in); vc::trace(); VC_EXPECT(vc::close(p.var(q), v, 1e-6, 1e-12), p.key + ":azimuth-independent", where); kinematics(p, q, where);
            P4 const &k = q.secondary_momenta[p.lepton], &P = p.in.primary_momentum; double pp = p3(P); V3 z = {P[1]/pp, P[2]/pp, P[3]/pp}, x, y; int a = std::fabs(z[0]) < 0.6 ? 0 : std::fabs(z[1]) < 0.6 ? 1 : 2; V3 e = {0,0,0}; e[a] = 1; for (int c = 0; c < 3; ++c) x[c] = e[c] - z[a] * z[c];
            y = {z[1]*x[2]-z[2]*x[1], z[2]*x[0]-z[0]*x[2], z[0]*x[1]-z[1]*x[0]}; double X1 = k[1]*x[0]+k[2]*x[1]+k[3]*x[2], Y1 = k[1]*y[0]+k[2]*y[1]+k[3]*y[2]; if (std::hypot(X1, Y1) < 1e-4 * p3(k)) { ph.clear(); break; } ph.push_back(std::atan2(Y1, X1) / (2 * M_PI)); }
            std::vector<char> hit(nphi, 0); for (double t : ph) { double c = (t - ph[0]) * nphi; c -= std::floor(c / nphi + 1e-6) * nphi; VC_EXPECT(std::fabs(c - std::lround(c)) < 0.02, p.key + ":azimuth-law", where, " azimuth step ", c); hit[std::lround(c) % nphi] = 1; }
            if (!ph.empty()) VC_EXPECT(std::count(hit.begin(), hit.end(), 1) == nphi, p.key + ":azimuth-law", where, " azimuth cells hit ", std::count(hit.begin(), hit.end(), 1), " of ", nphi); }
    }
    (void)I; (void)lastv;
    if (p.normalised) { double S = draw::quad([&](double t) { double v = std::exp(t); return v * p.f(v); }, std::log(std::max(p.lo, p.hi * 1e-14)), std::log(p.hi), 400); VC_EXPECT(vc::close(S, X.TotalCrossSection(p.in), 3e-3), p.key + ":total-is-integral", w, " integral of the differential ", S, " total ", X.TotalCrossSection(p.in)); }
    // proposal density in v, from the map u -> v; target law f
    std::sort(pts.begin(), pts.end(), [](Pt const &a, Pt const &b) { return a.v < b.v; });
    auto q = [&](size_t i) { size_t a = i ? i - 1 : 0, b = std::min(i + 1, pts.size() - 1); return std::fabs((pts[b].u - pts[a].u) / (pts[b].v - pts[a].v)); }; (void)q;
    auto at = [&](double u) { draw::script(rep(u, 400)); return p.var(sample(X, p.in)); };
    struct Node { double u, v, w; }; std::vector<Node> nodes; for (double u : {0.06, 0.2, 0.37, 0.55, 0.7, 0.8, 0.9, 0.97}) { double e = 1e-3, v = at(u), d = (at(u + e) - at(u - e)) / (2 * e); if (!(std::fabs(d) > 0)) continue; nodes.push_back({u, v, p.f(v) * std::fabs(d)}); }
    std::sort(nodes.begin(), nodes.end(), [](Node const &a, Node const &b) { return a.w < b.w; }); if (nodes.size() < 3) return; Node low = nodes.front();
    for (size_t A = 1; A < nodes.size(); ++A) for (size_t B = 1; B < A; ++B) { double want = nodes[B].w / nodes[A].w; if (want < 2e-3 || want > 0.995 || low.w > 0.99 * nodes[B].w || low.w <= 0) continue; if (std::fabs(nodes[A].v - nodes[B].v) < 1e-9 * p.hi) continue;
        auto accepted = [&](double v) { std::vector<double> sc = {nodes[A].u, nodes[B].u, v}; for (int k = 0; k < 60; ++k) { sc.push_back(low.u); sc.push_back(1); } draw::script(sc); double g = p.var(sample(X, p.in)); vc::trace(); return std::fabs(std::log(g / nodes[B].v)) < std::fabs(std::log(g / nodes[A].v)); };
        double lo = 0, hi = 1; for (int k = 0; k < 14; ++k) { double mid = 0.5 * (lo + hi); (accepted(mid) ? lo : hi) = mid; }
        VC_EXPECT(std::fabs(lo - want) < 0.003 + 0.02 * want, p.key + ":acceptance", w, " from v=", nodes[A].v, " to v=", nodes[B].v, ": accepted with probability ", lo, ", the reported density needs ", want); vc::state(vc::cat(p.key, w, A, ",", B)); }
    // an upward move is always taken
    for (size_t A = 1; A < nodes.size(); ++A) for (size_t B = A + 1; B < nodes.size(); ++B) { if (nodes[B].w < 1.02 * nodes[A].w || low.w > 0.99 * nodes[A].w) continue; std::vector<double> sc = {nodes[A].u, nodes[B].u}; for (int k = 0; k < 60; ++k) { sc.push_back(low.u); sc.push_back(1); } draw::script(sc); double g = p.var(sample(X, p.in)); vc::trace(); VC_EXPECT(std::fabs(std::log(g / nodes[B].v)) < 1e-3 + std::fabs(std::log(low.v / nodes[B].v)) * 1e-3, p.key + ":upward", w, " move from ", nodes[A].v, " to ", nodes[B].v, " ended at ", g); }
}
// every list a model publishes says the same thing
static void lists(std::string const &key, CrossSection const &X, std::set<PT> const &prim, std::set<PT> const &targ, std::function<std::vector<std::vector<PT>>(PT, PT)> const &finals) {
    auto S = [](std::vector<PT> const &v) { return std::set<PT>(v.begin(), v.end()); };
    VC_EXPECT(S(X.GetPossiblePrimaries()) == prim && X.GetPossiblePrimaries().size() == prim.size(), key + ":primaries", "list of ", X.GetPossiblePrimaries().size());
    VC_EXPECT(S(X.GetPossibleTargets()) == targ && X.GetPossibleTargets().size() == targ.size(), key + ":targets", "list of ", X.GetPossibleTargets().size());
    auto all = X.GetPossibleSignatures(); std::multiset<std::string> allS, want; auto str = [](InteractionSignature const &s) { std::string o = vc::cat((int)s.primary_type, "+", (int)s.target_type, "->"); for (auto t : s.secondary_types) o += vc::cat((int)t, ","); return o; };
    for (auto const &s : all) allS.insert(str(s));
    std::vector<PT> probe = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar, PT::EMinus, PT::N4, PT::Gamma, PT::unknown};
    std::vector<PT> tprobe = {PT::EMinus, PT::Nucleon, PT::PPlus, PT::HNucleus, PT::C12Nucleus, PT::Ar40Nucleus, PT::EPlus, PT::unknown};
    for (PT p : probe) { VC_EXPECT(!prim.count(p) || S(X.GetPossibleTargetsFromPrimary(p)) == targ, key + ":targets-from-primary", (int)p);
        for (PT t : tprobe) { std::multiset<std::string> g, e; for (auto const &s : X.GetPossibleSignaturesFromParents(p, t)) g.insert(str(s)); if (prim.count(p) && targ.count(t)) for (auto const &f : finals(p, t)) { InteractionSignature s; s.primary_type = p; s.target_type = t; s.secondary_types = f; e.insert(str(s)); want.insert(str(s)); }
            VC_EXPECT(g == e, key + ":signatures-from-parents", (int)p, " on ", (int)t, ": offers ", g.size(), " signatures, expected ", e.size()); vc::state(vc::cat(key, (int)p, ",", (int)t)); vc::trace(); } }
    VC_EXPECT(allS == want, key + ":signatures", "offers ", allS.size(), " expected ", want.size());
}
static void elastic() {
    std::vector<std::set<PT>> sets = {{PT::NuE, PT::NuMu}, {PT::NuE}, {PT::NuMu}};
    for (auto const &st : sets) { ElasticScattering X(st); lists("elastic-lists", X, st, {PT::EMinus}, [](PT p, PT t) { return std::vector<std::vector<PT>>{{p, t}}; });
        for (auto const &o : sets) { ElasticScattering Y(o); VC_EXPECT((X == Y) == (o == st), "elastic:equality", "sets of ", st.size(), " and ", o.size()); } }
    ElasticScattering X; for (PT bad : {PT::NuTau, PT::NuEBar}) { InteractionSignature s; s.primary_type = bad; s.target_type = PT::EMinus; s.secondary_types = {bad, PT::EMinus}; bool threw = false; try { X.TotalCrossSection(incoming(s, 0, ME, 1, DIRS[0], -0.5)); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "elastic:unsupported", (int)bad); }
    for (PT p : {PT::NuE, PT::NuMu}) for (double E : {2e-3, 0.05, 3.0, 400.0}) for (size_t d = 0; d < DIRS.size(); ++d) for (bool swap : {false, true}) { if (d != 6 && (E != 3.0 || swap)) continue;
        InteractionSignature s; s.primary_type = p; s.target_type = PT::EMinus; s.secondary_types = {p, PT::EMinus}; if (swap) std::swap(s.secondary_types[0], s.secondary_types[1]);
        Proc q; q.key = "elastic"; q.X = &X; q.in = incoming(s, 0, ME, E, DIRS[d], -0.5); q.lepton = swap ? 1 : 0; q.m3 = 0; q.m4 = ME; q.h3 = -0.5; q.h4 = 0.5; q.lo = 1e-15; q.hi = 2 * E / (2 * E + ME); int ei = swap ? 0 : 1;
        q.var = [E, ei](InteractionRecord const &r) { P4 const &k = r.secondary_momenta[ei]; double p2 = k[1]*k[1] + k[2]*k[2] + k[3]*k[3]; return p2 / (k[0] + ME) / E; };
        double L = p == PT::NuE ? 0.7276 : -0.2730, R = 0.2334, c = GF * GF * (2 * ME * E + ME * ME) / M_PI / CM2; q.f = [=](double y) { return c * (L*L + R*R*(1-y)*(1-y) - L*R*ME*y/E); };
        double Y = q.hi; q.total = c * (L*L*Y + R*R*(1 - std::pow(1 - Y, 3))/3 - L*R*ME*Y*Y/(2*E)); q.normalised = true;
        q.params = {{"energy", [E](double) { return E; }}, {"bjorken_y", [](double y) { return y; }}}; check(q);
        for (double y : {0.0, 0.3 * Y, Y}) VC_EXPECT(vc::close(X.DifferentialCrossSection(p, E, y), q.f(y), 1e-9), "elastic:formula", desc(q.in), " y=", y); VC_EXPECT(vc::close(X.TotalCrossSection(p, E, PT::EMinus), q.total, 2e-3), "elastic:total", desc(q.in)); }
}
static siren::utilities::Interpolator2D<double> diffTable(double scale, std::vector<double> const &Es, std::vector<double> const &ys) { siren::utilities::TableData2D<double> t; for (double E : Es) for (double y : ys) { t.x.push_back(E); t.y.push_back(y); t.f.push_back(scale * E * (0.1 + 1 / (y + 0.02))); } return siren::utilities::Interpolator2D<double>(t); }
static siren::utilities::Interpolator1D<double> totTable(double scale, std::vector<double> const &Es) { siren::utilities::TableData1D<double> t; for (double E : Es) { t.x.push_back(E); t.f.push_back(scale * E * (4 + E)); } return siren::utilities::Interpolator1D<double>(t); }
struct Range { double lo, hi; };
static Range ylimits(double E, double m, double M) { long double s = (long double)M * M + 2 * (long double)E * M, rs = sqrtl(s), E3 = (s + (long double)m * m - (long double)M * M) / (2 * rs), q = sqrtl(std::max((s - ((long double)m + M) * ((long double)m + M)) * (s - ((long double)m - M) * ((long double)m - M)), 0.0L)) / (2 * rs), g = (E + M) / rs, gb = E / rs; return {(double)(1 - (g * E3 + gb * q) / E), (double)(1 - (g * E3 - gb * q) / E)}; }
static void dipole_limits() {
    for (double m : {1e-3, 0.03, 0.3, 1.2}) for (double M : {0.938272, 11.1748, 37.21, 0.05}) for (double t : {1.0001, 1.1, 1.5, 3.0, 30.0, 1e3, 1e5}) { double E = (m + m * m / (2 * M)) * t; Range r = ylimits(E, m, M); double a = HNLDipoleFromTable::DipoleyMin(E, m, M), b = HNLDipoleFromTable::DipoleyMax(E, m, M); vc::state(vc::cat(m, M, t)); vc::step(); vc::trace();
        VC_EXPECT(vc::close(a, r.lo, 1e-4, 1e-14) || (t == 1.0001 && vc::close(a, r.lo, 1e-3)), "dipole:ymin", "E=", E, " m=", m, " M=", M, " ymin=", a, " expected ", r.lo); VC_EXPECT(vc::close(b, r.hi, t == 1.0001 ? 1e-4 : 1e-6), "dipole:ymax", "E=", E, " m=", m, " M=", M, " ymax=", b, " expected ", r.hi); }
}
static void dipole(int cfg) {
    bool z = cfg & 1, inv = cfg & 2, inel = cfg & 4; double m = 0.1;
    std::vector<double> Es = {0.05, 0.2, 1, 3, 10, 40}, ys; for (double y : {1e-6, 1e-4, 1e-2, 0.1, 0.3, 0.6, 0.9, 1.0}) ys.push_back(y); if (z) ys.insert(ys.begin(), 0);
    struct T { PT t; double M, sc; int Z; }; std::vector<T> ts = {{PT::HNucleus, 0.938272, 1, 1}, {PT::C12Nucleus, 11.1748, 20, 6}, {PT::Ar40Nucleus, 37.21, 150, 18}};
    std::map<PT, siren::utilities::Interpolator2D<double>> D; std::map<PT, siren::utilities::Interpolator1D<double>> TT; for (auto const &t : ts) { D[t.t] = diffTable(t.sc, Es, ys); TT[t.t] = totTable(t.sc, Es); }
    std::set<PT> six = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar};
    auto build = [&](double mass, double d, HNLDipoleFromTable::HelicityChannel ch, bool a, bool b, bool c, std::set<PT> const &pr, int ntab = 3) { auto X = std::make_shared<HNLDipoleFromTable>(mass, d, ch, a, b, c, pr); for (int i = 0; i < ntab; ++i) { X->AddDifferentialCrossSection(ts[i].t, D[ts[i].t]); X->AddTotalCrossSection(ts[i].t, TT[ts[i].t]); } return X; };
    auto conv = HNLDipoleFromTable::HelicityChannel::Conserving, flip = HNLDipoleFromTable::HelicityChannel::Flipping;
    if (cfg == 0) { std::vector<std::shared_ptr<HNLDipoleFromTable>> v; for (int copy = 0; copy < 2; ++copy) { v.push_back(build(m, 1e-6, conv, true, true, true, six)); v.push_back(build(0.2, 1e-6, conv, true, true, true, six)); v.push_back(build(m, 2e-6, conv, true, true, true, six)); v.push_back(build(m, 1e-6, flip, true, true, true, six)); v.push_back(build(m, 1e-6, conv, false, true, true, six)); v.push_back(build(m, 1e-6, conv, true, false, true, six)); v.push_back(build(m, 1e-6, conv, true, true, false, six)); v.push_back(build(m, 1e-6, conv, true, true, true, {PT::NuMu})); v.push_back(build(m, 1e-6, conv, true, true, true, six, 2)); }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { VC_EXPECT((*v[i] == *v[j]) == (i % 9 == j % 9), "dipole:equality", "settings ", i % 9, " and ", j % 9); vc::trace(); }
        lists("dipole-lists", *v[0], six, {PT::HNucleus, PT::C12Nucleus, PT::Ar40Nucleus}, [](PT p, PT t) { return std::vector<std::vector<PT>>{{(int)p > 0 ? PT::N4 : PT::N4Bar, t}}; }); lists("dipole-lists-one", *v[7], {PT::NuMu}, {PT::HNucleus, PT::C12Nucleus, PT::Ar40Nucleus}, [](PT, PT t) { return std::vector<std::vector<PT>>{{PT::N4, t}}; });
        HNLDipoleFromTable A(m, 1e-6, conv), B(m, 1e-6, conv, true, true), Cc(m, 1e-6, conv, true, true, true), Dd(m, 1e-6, conv, six), Ee(m, 1e-6, conv, true, true, six); VC_EXPECT(A == B && B == Cc && Cc == Dd && Dd == Ee, "dipole:constructors", "default settings differ between constructors"); }
    for (double coup : {1e-6, 3e-6}) for (auto ch : {conv, flip}) { auto X = build(m, coup, ch, z, inv, inel, six);
        for (auto const &t : ts) for (PT p : {PT::NuMu, PT::NuEBar}) for (double E : {0.12, 0.5, 5.0, 30.0}) for (double h : {-0.5, 0.5}) for (size_t d = 0; d < DIRS.size(); ++d) {
            if ((d != 6 || coup > 2e-6 || ch == flip || h > 0) && (E != 5.0 || p != PT::NuMu)) continue; if (d != 6 && (coup > 2e-6 || ch == flip || h > 0 || t.Z == 6)) continue; if ((coup > 2e-6) + (ch == flip) + (h > 0) > 1) continue;
            InteractionSignature s; s.primary_type = p; s.target_type = t.t; s.secondary_types = {p == PT::NuMu ? PT::N4 : PT::N4Bar, t.t}; bool swap = d == 4; if (swap) std::swap(s.secondary_types[0], s.secondary_types[1]);
            Range r = ylimits(E, m, t.M); double unit = inv ? 1 / CM2 : 1, np = inel && t.t != PT::HNucleus ? t.Z : 0;
            Proc q; q.key = vc::cat("dipole", z ? "-z" : "-y"); q.X = X.get(); q.in = incoming(s, 0, t.M, E, DIRS[d], h); q.lepton = swap ? 1 : 0; q.m3 = m; q.m4 = t.M; q.h3 = q.h4 = std::copysign(0.5, h * (ch == conv ? 1 : -1)); q.lo = std::max(r.lo, z ? 0 : ys.front()); q.hi = std::min(r.hi, z ? 1 : ys.back()); q.normalised = false;
            auto tab = [=, &D](PT k, double y) { double v = z ? (y - r.lo) / (r.hi - r.lo) : y; v = std::min(std::max(v, ys.front()), ys.back()); return D.at(k)(E, v); };
            q.f = [=](double y) { return sq(coup) * unit * (tab(t.t, y) + (np ? np * tab(PT::HNucleus, y) : 0)); }; q.total = sq(coup) * unit * (TT[t.t](E) + np * TT[PT::HNucleus](E));
            int li = q.lepton; q.var = [E, li](InteractionRecord const &x) { return 1 - x.secondary_momenta[li][0] / E; }; q.params = {{"energy", [E](double) { return E; }}, {"bjorken_y", [](double y) { return y; }}}; check(q);
            for (double f : {0.01, 0.3, 0.9}) { double y = q.lo + f * (q.hi - q.lo); VC_EXPECT(vc::close(X->DifferentialCrossSection(p, E, t.t, t.M, y), q.f(y), 1e-4), "dipole:formula", desc(q.in), " y=", y, " got ", X->DifferentialCrossSection(p, E, t.t, t.M, y), " expected ", q.f(y)); }
            for (double y : {r.lo * 0.99 - 1e-9, r.hi * 1.001}) VC_EXPECT(X->DifferentialCrossSection(p, E, t.t, t.M, y) == 0, "dipole:support", desc(q.in), " y=", y, " outside [", r.lo, ",", r.hi, "] has ", X->DifferentialCrossSection(p, E, t.t, t.M, y)); }
        // limits of validity
        for (auto const &t : ts) { InteractionSignature s; s.primary_type = PT::NuMu; s.target_type = t.t; s.secondary_types = {PT::N4, t.t}; double thr = m + m * m / (2 * t.M);
            InteractionRecord b = incoming(s, 0, t.M, 0.97 * thr, DIRS[0], -0.5); VC_EXPECT(vc::close(X->InteractionThreshold(b), thr, 1e-12), "dipole:threshold", t.Z); VC_EXPECT(X->TotalCrossSection(b) == 0, "dipole:below-threshold-total", t.Z, " ", X->TotalCrossSection(b));
            bool threw = false; draw::script(rep(0.5, 400)); try { sample(*X, b); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "dipole:below-threshold-sample", t.Z);
            InteractionRecord a = incoming(s, 0, t.M, 41, DIRS[0], -0.5); threw = false; try { X->TotalCrossSection(a); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "dipole:above-table-total", t.Z); threw = false; try { sample(*X, a); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "dipole:above-table-sample", t.Z);
            VC_EXPECT(X->DifferentialCrossSection(PT::NuMu, 41, t.t, t.M, 0.3) == 0, "dipole:above-table-differential", t.Z);
            threw = false; try { X->TotalCrossSection(PT::EMinus, 5, t.t); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "dipole:unsupported-primary", t.Z); threw = false; try { X->TotalCrossSection(PT::NuMu, 5, PT::Fe56Nucleus); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "dipole:unsupported-target", t.Z); } }
}
static void dipole_files() {
    char tmp[] = "/tmp/vcscatXXXXXX"; std::string dir = mkdtemp(tmp); auto conv = HNLDipoleFromTable::HelicityChannel::Conserving;
    struct N { int Z, A; PT t; }; for (N n : {N{1, 1, PT::HNucleus}, N{6, 12, PT::C12Nucleus}, N{18, 40, PT::Ar40Nucleus}}) for (std::string m : {"0.001", "0.25", "1"}) for (bool junk : {false, true}) {
        std::string df = vc::cat(dir, "/dxsec_Z_", n.Z, "_A_", n.A, "_mHNL_", m, "_hf.dat"), tf = vc::cat(dir, "/xsec_Z_", n.Z, "_A_", n.A, "_mHNL_", m, "_hf.dat"); std::vector<double> Es = {1, 2, 5}, ys = {0.1, 0.4, 0.9};
        siren::utilities::TableData2D<double> a; siren::utilities::TableData1D<double> b; { std::ofstream f(df), g(tf); f.precision(17); g.precision(17); if (junk) { f << "# header\n\n"; g << "  # header\n\n"; } for (double E : Es) { double v = 3 * E + n.Z; b.x.push_back(E); b.f.push_back(v); g << (junk ? "\t " : "") << E << " " << v << (junk ? "  # note\r" : "") << "\n"; for (double y : ys) { double u = E / y + n.A; a.x.push_back(E); a.y.push_back(y); a.f.push_back(u); f << (junk ? "  " : "") << E << "\t" << y << " " << u << (junk ? " \r" : "") << "\n"; if (junk) f << "   \n"; } } }
        double mass = std::stod(m); HNLDipoleFromTable X(mass, 1e-6, conv), Y(mass, 1e-6, conv); X.AddDifferentialCrossSectionFile(df, n.t); X.AddTotalCrossSectionFile(tf, n.t); siren::utilities::Interpolator2D<double> ia(a); siren::utilities::Interpolator1D<double> ib(b); Y.AddDifferentialCrossSection(n.t, ia); Y.AddTotalCrossSection(n.t, ib);
        VC_EXPECT(X == Y, "dipole-files:content", df, junk ? " with comments" : "", ": the loaded tables differ from the written ones"); vc::trace(); vc::step(); vc::state(vc::cat(df, junk));
        for (int bad = 0; bad < 4; ++bad) for (bool diff : {true, false}) { HNLDipoleFromTable B(bad == 0 ? mass * 1.01 : mass, 1e-6, conv); std::string fn = diff ? df : tf; PT t = n.t; if (bad == 1) t = n.t == PT::HNucleus ? PT::C12Nucleus : PT::HNucleus; if (bad == 2) fn += ".missing"; bool threw = false; try { if (bad == 3) { if (diff) B.AddDifferentialCrossSectionFile(fn, t); else B.AddTotalCrossSectionFile(fn, t); } else if (diff) B.AddDifferentialCrossSectionFile(fn, t); else B.AddTotalCrossSectionFile(fn, t); } catch (std::exception const &) { threw = true; }
            VC_EXPECT(threw == (bad != 3), "dipole-files:refusal", fn, " case ", bad, threw ? " refused" : " accepted"); if (threw) VC_EXPECT(B.GetPossibleTargets().empty(), "dipole-files:refusal-leaves-nothing", fn); vc::trace(); }
    }
    std::string c = "rm -r '" + dir + "'"; if (system(c.c_str())) {}
}
static void dummy() {
    DummyCrossSection X; std::set<PT> six = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar}; lists("dummy-lists", X, six, {PT::Nucleon}, [](PT p, PT t) { return std::vector<std::vector<PT>>{{p, t}}; });
    int n = vc::thorough() ? 24 : 10; double M = 0.9389;
    for (PT p : six) for (double E : {0.5, 20.0, 1e5}) for (size_t d = 0; d < DIRS.size(); ++d) { if (d != 6 && (p != PT::NuMu || E != 20.0)) continue; InteractionSignature s; s.primary_type = p; s.target_type = PT::Nucleon; s.secondary_types = {p, PT::Nucleon}; InteractionRecord in = incoming(s, 0, M, E, DIRS[d], -0.5); std::string w = desc(in); double tot = E / 1e5 / (1e8 * 6.0221415e23);
        VC_EXPECT(vc::close(X.TotalCrossSection(in), tot, 1e-9) && vc::close(X.TotalCrossSection(p, E, PT::Nucleon), tot, 1e-9), "dummy:total", w); VC_EXPECT(vc::close(X.TotalCrossSectionAllFinalStates(in), tot, 1e-9), "dummy:all-final-states", w, " ", X.TotalCrossSectionAllFinalStates(in));
        for (int i = -1; i <= n; ++i) for (int j = -1; j <= n; ++j) for (double ph : {0.1, 0.6}) { double x = i < 0 ? 1e-5 : i == n ? 1 : (i + 0.5) / n, y = j < 0 ? 1e-5 : j == n ? 0.99999 : (j + 0.5) / n; bool edge = i < 0 || j < 0 || i == n || j == n; bool phys = M * x * y / (2 * E) <= 1 - y; if (edge && !phys) continue; double fx = 0.3, fy = 0.2; // a forbidden pair must be redrawn
            draw::script(phys ? std::vector<double>{x, y, ph} : std::vector<double>{x, y, fx, fy, ph}); InteractionRecord r = sample(X, in); vc::trace(); if (!phys) { x = fx; y = fy; } std::string where = vc::cat(w, " x=", x, " y=", y, phys ? "" : " after a forbidden pair"); double m4 = std::sqrt(M * M + 2 * M * E * y * (1 - x));
            Proc q; q.key = "dummy"; q.in = in; q.lepton = 0; q.m3 = 0; q.m4 = m4; q.h3 = -0.5; q.h4 = 0.5; kinematics(q, r, where); if (r.secondary_momenta.size() != 2) return; P4 const &k = r.secondary_momenta[0]; double Q2 = 0; P4 g; for (int c = 0; c < 4; ++c) g[c] = in.primary_momentum[c] - k[c]; Q2 = p3(g) * p3(g) - g[0] * g[0];
            VC_EXPECT(vc::close(g[0] / E, draw::uval(y), 1e-7, 1e-9) && vc::close(Q2, 2 * M * E * x * y, 1e-5, 1e-8 * E * E), "dummy:bjorken", where, " y=", g[0] / E, " Q2=", Q2, " expected ", 2 * M * E * x * y); VC_EXPECT(r.interaction_parameters.size() == 3 && r.interaction_parameters["energy"] == E && vc::close(r.interaction_parameters["bjorken_x"], x, 1e-12, 1e-12) && vc::close(r.interaction_parameters["bjorken_y"], y, 1e-12, 1e-12), "dummy:parameters", where);
            VC_EXPECT(X.FinalStateProbability(r) == 1, "dummy:density", where, " ", X.FinalStateProbability(r)); vc::state(vc::cat(w, i, ",", j)); } }
}
struct Mock : DarkNewsCrossSection {
    double m1, M, m3, m4; int kind; PT tgt = PT::Ar40Nucleus; mutable PT askedPrimary, askedTarget;
    Mock(double m1, double M, double m3, double m4, int kind) : m1(m1), M(M), m3(m3), m4(m4), kind(kind) {}
    std::pair<double, double> lim(double E) const { long double s = sq(m1) + sq(M) + 2 * (long double)E * M, rs = sqrtl(s), e1 = (s + sq(m1) - sq(M)) / (2 * rs), e3 = (s + sq(m3) - sq(m4)) / (2 * rs), q1 = sqrtl(e1 * e1 - sq(m1)), q3 = sqrtl(e3 * e3 - sq(m3)); return {(double)(2 * (e1 * e3 - q1 * q3) - sq(m1) - sq(m3)), (double)(2 * (e1 * e3 + q1 * q3) - sq(m1) - sq(m3))}; }
    double shape(double E, double Q2) const { return kind == 0 ? 1e-40 * E : kind == 1 ? 1e-40 * E / sq(0.5 + Q2) : 1e-41 * std::exp(-Q2 / 0.3); }
    double DifferentialCrossSection(PT p, PT t, double E, double Q2) const override { if (p != PT::NuMu || t != tgt) return -1; return shape(E, Q2); }
    double TotalCrossSection(PT p, double E, PT t) const override { if (p != PT::NuMu || t != tgt) return -1; auto l = lim(E); double a = l.first, b = l.second; return kind == 0 ? 1e-40 * E * (b - a) : kind == 1 ? 1e-40 * E * (1 / (0.5 + a) - 1 / (0.5 + b)) : 1e-41 * 0.3 * (std::exp(-a / 0.3) - std::exp(-b / 0.3)); }
    using DarkNewsCrossSection::DifferentialCrossSection; using DarkNewsCrossSection::TotalCrossSection;
    double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    double Q2Min(InteractionRecord const &r) const override { return std::max(lim(r.primary_momentum[0]).first, 1e-6); } double Q2Max(InteractionRecord const &r) const override { return lim(r.primary_momentum[0]).second * (1 - 1e-9); }
    double TargetMass(PT const &) const override { return M; } std::vector<double> SecondaryMasses(std::vector<PT> const &) const override { return {m3, m4}; } std::vector<double> SecondaryHelicities(InteractionRecord const &r) const override { return {r.primary_helicity * 0.7, 0.25}; }
    std::vector<PT> GetPossibleTargets() const override { return {tgt}; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return {tgt}; } std::vector<PT> GetPossiblePrimaries() const override { return {PT::NuMu}; }
    InteractionSignature sig() const { InteractionSignature s; s.primary_type = PT::NuMu; s.target_type = tgt; s.secondary_types = {PT::N4, tgt}; return s; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { return {sig()}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT t) const override { if (p == PT::NuMu && t == tgt) return {sig()}; return {}; }
};
static void darknews(int kind) {
    for (double m1 : {0.0, 0.05}) for (double M : {0.938272, 37.21}) for (double m3 : {0.0, 0.15, 0.6}) for (double x4 : {0.0, 0.2}) { if (x4 > 0 && M > 1) continue; Mock X(m1, M, m3, M + x4, kind); double thr = (sq(m3 + M + x4) - sq(m1) - sq(M)) / (2 * M);
        for (double E : {1.3 * thr + 0.2, 5.0, 60.0}) for (size_t d = 0; d < DIRS.size(); ++d) { if (d != 6 && E != 5.0) continue; if (E < 1.2 * thr) continue; Proc q; q.key = "darknews"; q.X = &X; q.in = incoming(X.sig(), m1, M, E, DIRS[d], -0.5); q.lepton = 0; q.m3 = m3; q.m4 = M + x4; q.h3 = -0.35; q.h4 = 0.25; q.lo = X.Q2Min(q.in); q.hi = X.Q2Max(q.in); if (q.hi < 4 * q.lo) continue;
            q.f = [&X, E](double Q2) { return X.shape(E, Q2); }; q.total = X.TotalCrossSection(PT::NuMu, E, X.tgt); q.normalised = q.lo == X.lim(E).first; double M2 = M, x = M + x4; q.var = [M2, x, E](InteractionRecord const &r) { P4 g; for (int c = 0; c < 4; ++c) g[c] = r.primary_momentum[c] - r.secondary_momenta[0][c]; (void)M2; (void)x; (void)E; return p3(g) * p3(g) - g[0] * g[0]; };
            check(q); } }
    // nothing silently stands in for what the Python side has to supply
    struct Bare : Mock { Bare() : Mock(0, 1, 0, 1, 0) {} double DifferentialCrossSection(PT p, PT t, double E, double Q2) const override { return DarkNewsCrossSection::DifferentialCrossSection(p, t, E, Q2); } double TotalCrossSection(PT p, double E, PT t) const override { return DarkNewsCrossSection::TotalCrossSection(p, E, t); } using DarkNewsCrossSection::TotalCrossSection; double base(int k, InteractionRecord const &r) const { switch (k) { case 0: return DarkNewsCrossSection::DifferentialCrossSection(PT::NuMu, PT::PPlus, 1, 1); case 1: return DarkNewsCrossSection::TotalCrossSection(PT::NuMu, 1, PT::PPlus); case 2: return DarkNewsCrossSection::InteractionThreshold(r); case 3: return DarkNewsCrossSection::Q2Min(r); case 4: return DarkNewsCrossSection::Q2Max(r); case 5: return DarkNewsCrossSection::TargetMass(PT::PPlus); case 6: return DarkNewsCrossSection::SecondaryMasses({}).size(); default: return DarkNewsCrossSection::SecondaryHelicities(r).size(); } } } B;
    for (int k = 0; k < 8; ++k) { bool threw = false; try { B.base(k, incoming(B.sig(), 0, 1, 5, DIRS[0], 1)); } catch (siren::utilities::PythonImplementationError const &) { threw = true; } VC_EXPECT(threw, "darknews:unimplemented", k); vc::trace(); }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c = {{"elastic", elastic, 0}, {"dipole-limits", dipole_limits, 0}, {"dipole-files", dipole_files, 0}, {"dummy", dummy, 0}};
    for (int k = 0; k < 8; ++k) c.push_back({vc::cat("dipole-", k), [k] { dipole(k); }, 0}); for (int k = 0; k < 3; ++k) c.push_back({vc::cat("darknews-", k), [k] { darknews(k); }, 0});
    return vc::run(argc, argv, c);
}
