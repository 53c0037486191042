// P25: where interactions are placed. For every detector, direction, set of interactions and random words, the vertex lies on
// the stretch the distribution describes, its law is the one of an interaction along that stretch, and the reported density
// and bounds are those of that law.
#include "draw.h"
#include "world3.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/Decay.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include "SIREN/distributions/primary/vertex/ColumnDepthPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/RangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
#include "SIREN/distributions/primary/vertex/PointSourcePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryBoundedVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryPhysicalVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/FixedTargetPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/CylinderVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/SphereVolumePositionDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryBoundedVertexDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryPhysicalVertexDistribution.h"
#include <limits>
using namespace w3; using namespace siren::distributions; using namespace siren::interactions; using namespace siren::dataclasses; typedef ParticleType PT;
using siren::utilities::SIREN_random; using siren::utilities::InjectionFailure;
static const double INFTY = std::numeric_limits<double>::infinity(), MASS = 0.4; static const PT PRIM = PT::NuMu;
// a cross section on one target whose value depends on everything it is told
struct FX : CrossSection { PT t; double s; FX(PT t, double s) : t(t), s(s) {}
    static double val(double s, double E, double tm) { return s * std::sqrt(E) * (1 + 0.01 * tm); }
    bool equal(CrossSection const &o) const override { auto x = dynamic_cast<FX const *>(&o); return x && x->t == t && x->s == s; }
    double TotalCrossSection(InteractionRecord const &r) const override { if (r.signature.primary_type != PRIM || r.signature.target_type != t || !(std::fabs(r.primary_mass - MASS) <= 1e-9)) return 1e30; return val(s, r.primary_momentum[0], r.target_mass); }
    double TotalCrossSectionAllFinalStates(InteractionRecord const &r) const override { return TotalCrossSection(r); }
    double DifferentialCrossSection(InteractionRecord const &) const override { return 0; } double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<SIREN_random>) const override {}
    std::vector<PT> GetPossibleTargets() const override { return {t}; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return {t}; } std::vector<PT> GetPossiblePrimaries() const override { return {PRIM}; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT, PT) const override { return {}; }
    double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; } };
struct FD : Decay { double w; FD(double w) : w(w) {} bool equal(Decay const &o) const override { auto x = dynamic_cast<FD const *>(&o); return x && x->w == w; }
    double TotalDecayWidthAllFinalStates(InteractionRecord const &r) const override { return r.signature.primary_type == PRIM ? w : 1e30; } double TotalDecayWidth(PT) const override { return w; } double TotalDecayWidth(InteractionRecord const &) const override { return w; } double DifferentialDecayWidth(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<SIREN_random>) const override {} std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT) const override { return {}; } double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; } };
struct Inter { std::string name; std::vector<std::pair<PT, double>> x; double length; };   // length: decay length at E=2 in metres
static const double E0 = 2.0;
static const double LT = 2e-4, NIL = 1e-18;   // depths below NIL per metre are a rounding of nothing (a step of one ulp across a face into the vacuum)
static std::vector<Inter> inters() {
    double s = 1e-27; PT H = PT::HNucleus, O = PT::O16Nucleus, Fe = PT::Fe56Nucleus, C = PT::C12Nucleus;
    return {{"thin", {{H, 1e-9 * s}, {Fe, 3e-9 * s}}, INFTY}, {"rare", {{H, 1e-3 * s}, {O, 3e-2 * s}, {H, 2e-3 * s}}, INFTY}, {"medium", {{Fe, 4 * s}, {O, 20 * s}, {H, 0.2 * s}}, INFTY}, {"thick", {{Fe, 60 * s}, {H, 5 * s}, {C, 300 * s}}, INFTY},
        {"one target", {{C, 2 * s}}, INFTY}, {"decay", {}, 7}, {"slow decay", {}, 1e9}, {"both", {{Fe, 2 * s}, {H, 0.1 * s}}, 5}, {"nothing", {{H, 0}}, INFTY}};
}
struct Setup { Det D; std::shared_ptr<InteractionCollection> ic; Inter in; double E; std::vector<PT> t; std::vector<double> x; double dl; };
static Setup setup(Det const &D, Inter const &in, double E) {
    Setup s; s.D = D; s.in = in; s.E = E; std::vector<std::shared_ptr<CrossSection>> xs; std::vector<std::shared_ptr<Decay>> ds; double g0 = std::sqrt(E0 * E0 - MASS * MASS) / MASS; s.dl = INFTY;
    for (auto &q : in.x) { xs.push_back(std::make_shared<FX>(q.first, q.second)); s.t.push_back(q.first); s.x.push_back(FX::val(q.second, E, D.d->GetTargetMass(q.first))); }
    if (std::isfinite(in.length)) { double w = g0 / in.length * siren::utilities::Constants::hbarc; ds.push_back(std::make_shared<FD>(0.25 * w)); ds.push_back(std::make_shared<FD>(0.75 * w)); s.dl = in.length * std::sqrt(E * E - MASS * MASS) / MASS / g0; }
    s.ic = std::make_shared<InteractionCollection>(PRIM, xs, ds); return s;
}
// a line in the detector frame: p + u*dir
struct Ray { Setup const &S; Vector3D p, dir; double B; std::vector<Seg> seg; bool ok;
    Vector3D go, gd;                                       // in the geometry frame, from u = -B
    Ray(Setup const &S, Vector3D p_, Vector3D dir_, double B) : S(S), p(p_), dir(dir_), B(B) { dir.normalize(); Frame const &f = S.D.f; Vector3D q = p - dir * B; go = f.rot.rotate(q, false) + f.origin; gd = f.rot.rotate(dir, false); ok = segments(S.D.M, go, gd, 2 * B, seg); }
    double weight(int v) const { auto pf = per_target(S.D, v, S.t); double s = 0; for (size_t i = 0; i < pf.size(); ++i) s += pf[i] * S.x[i]; return s; }
    double integral(double a, double b, std::function<double(int)> const &w) const { double t = 0; a += B; b += B; for (auto &g : seg) { double x = std::max(a, g.a), y = std::min(b, g.b); int v = g.v; if (y > x) t += w(v) * quad([&](double z) { return S.D.M.rho(v, go + gd * z); }, x, y); } return t; }
    double depth(double a, double b) const { return 100 * integral(a, b, [&](int v) { return weight(v); }) + (b - a) / S.dl; }
    double column(double a, double b) const { return 100 * integral(a, b, [](int) { return 1.0; }); }
    double rate(double u) const { bool c; Vector3D q = go + gd * (u + B); int v = S.D.M.at(q, c); if (!c) return -1; return 100 * weight(v) * S.D.M.rho(v, q) + 1 / S.dl; }
    bool outer(double &lo, double &hi) const { lo = 1e300; hi = -1e300; for (auto &s : seg) if (s.v >= 0) lo = std::min(lo, s.a - B), hi = std::max(hi, s.b - B); return lo < hi; }
    bool face(double u) const { bool c; S.D.M.at(go + gd * (u + B), c); return !c; }
    // where the column depth before u first reaches X, or the outer bound
    double back(double u, double X) const { double lo, hi; if (!outer(lo, hi)) return u; double a = lo - 0.5; if (u <= a) return u; if (column(a, u) <= X) return -1e300; double b = u; for (int i = 0; i < 60; ++i) { double m = 0.5 * (a + b); (column(m, u) > X ? a : b) = m; } return 0.5 * (a + b); }
};
// a stretch [a,b] of a ray; empty if b <= a
struct Stretch { double a, b; bool sure = true; };
static Stretch clip(Ray const &r, double a, double b) { double lo, hi; if (!r.outer(lo, hi)) return {a, b, std::isfinite(b)}; Stretch s{std::max(a, lo), std::min(b, hi)}; return s; }
struct Fid { std::string name; std::shared_ptr<Geometry> g; Margin m; };
static bool hull(Fid const &f, Vector3D const &p, Vector3D const &d, double B, double &lo, double &hi, bool &sure) {   // first and last point of the line in the volume
    const int N = 4000; double h = 2 * B / N; lo = 1e300; hi = -1e300; sure = true; auto F = [&](double u) { Vector3D q = p + d * u; return f.m(q.GetX(), q.GetY(), q.GetZ()); };
    double best = -1e300; bool prev = F(-B) > 0; for (int i = 1; i <= N; ++i) { double u = -B + i * h; double c = F(u); best = std::max(best, c); bool in = c > 0; if (in != prev) { double a = u - h, b = u; for (int k = 0; k < 60; ++k) { double m = 0.5 * (a + b); if ((F(m) > 0) == prev) a = m; else b = m; } lo = std::min(lo, a); hi = std::max(hi, a); } prev = in; }
    if (lo > hi) { sure = best < -2 * h; return false; } return true;
}
static Stretch bounded(Ray const &r, double from, double max, Fid const *f) {   // from the point at u=from, at most max, in the detector, and if it is met in the fiducial volume
    Stretch s = clip(r, from, from + max); if (f) { double lo, hi; bool sure; if (hull(*f, r.p, r.dir, r.B, lo, hi, sure)) { if (std::fabs(hi - from) < 1e-3 || std::fabs(lo - from) < 1e-3 || std::fabs(lo - from - max) < 1e-3 || std::fabs(hi - from - max) < 1e-3) s.sure = false; if (lo < from + max && hi > from) { s.a = std::max(lo, from); s.b = std::min(hi, from + max); } } else s.sure = s.sure && sure; }
    return s;
}
static std::string describe(Setup const &S) { return vc::cat(S.D.name, "; ", S.in.name, " E=", S.E); }
static InteractionRecord event(Setup const &S, Vector3D const &dir, Vector3D const &init, Vector3D const &vertex) { InteractionRecord r = draw::event(S.E, dir.GetX(), dir.GetY(), dir.GetZ(), MASS, PRIM); r.primary_initial_position = (std::array<double, 3>)init; r.interaction_vertex = (std::array<double, 3>)vertex; return r; }
static double frac(Ray const &r, Stretch const &s, double u) { double T = r.depth(s.a, s.b), d = r.depth(s.a, u); return -std::expm1(-d) / -std::expm1(-T); }
static double pdf(Ray const &r, Stretch const &s, double u) { double T = r.depth(s.a, s.b), d = r.depth(s.a, u); return r.rate(u) * std::exp(-d) / -std::expm1(-T); }
typedef std::function<double(InteractionRecord const &)> Density; typedef std::function<std::tuple<Vector3D, Vector3D>(InteractionRecord const &)> Bounds;
// density and bounds along one line against the stretch; scale: what else the density contains
static void along(Ray const &r, Stretch const &s, Vector3D const &init, Density const &den, Bounds const &bnd, double scale, std::string const &h, std::string const &k, std::function<double(double)> law = nullptr) {
    if (!r.ok || !s.sure) { vc::count("line touching a face: not judged"); return; }
    double lo, hi; bool any = r.outer(lo, hi); double a = s.a, b = s.b; bool empty = !(b - a > 1e-6);
    std::vector<double> us; if (!empty) for (double f : {0.03, 0.2, 0.47, 0.71, 0.985}) us.push_back(a + f * (b - a));
    std::vector<double> out = {(empty ? (any ? lo : 0) : a) - 0.7, (empty ? (any ? hi : 0) : b) + 0.7}; double T = empty ? 0 : law ? 1 : r.depth(a, b); if (!empty && r.S.in.name != "nothing" && T < NIL * (1 + b - a)) { vc::count("stretch without matter: not judged"); return; }
    for (double u : us) { if (r.face(u)) continue; ++vc::R.evaluations; vc::step(2); InteractionRecord e = event(r.S, r.dir, init, r.p + r.dir * u); double g = den(e), w = law ? law(u) * scale : T > 0 ? pdf(r, s, u) * scale : 0; VC_EXPECT(near(g, w, 2e-4 * (1 + T), 1e-30), k + "-density", h, " at ", u, " in [", a, ",", b, "]: ", g, " expected ", w, " depth ", T);
        auto q = bnd(e); VC_EXPECT(norm(std::get<0>(q) - (r.p + r.dir * a)) < (k == "column" ? 2e-4 : 1e-5) && norm(std::get<1>(q) - (r.p + r.dir * b)) < 1e-5, k + "-bounds", h, " at ", u, ": ", sv(std::get<0>(q)), sv(std::get<1>(q)), " expected ", sv(r.p + r.dir * a), sv(r.p + r.dir * b)); }
    for (double u : out) { ++vc::R.evaluations; vc::step(); InteractionRecord e = event(r.S, r.dir, init, r.p + r.dir * u); double g = den(e); VC_EXPECT(g == 0, k + "-density-outside", h, " at ", u, " outside [", a, ",", b, "]: ", g); auto q = bnd(e); bool zero = norm(std::get<0>(q)) == 0 && norm(std::get<1>(q)) == 0, same = !empty && norm(std::get<0>(q) - (r.p + r.dir * a)) < 2e-4 && norm(std::get<1>(q) - (r.p + r.dir * b)) < 1e-5; VC_EXPECT(zero || same || empty, k + "-bounds-outside", h, " at ", u, ": ", sv(std::get<0>(q)), sv(std::get<1>(q))); }
}
// a full grid of words, in any order, must give each cell of the product of uniform laws exactly once
struct Cells { int n, dim; std::set<std::vector<long>> seen; long bad = 0, total = 0; std::string first; double tol;
    Cells(int n, int dim, double tol) : n(n), dim(dim), tol(tol) {}
    void add(std::vector<double> const &f, std::string const &w) { ++total; std::vector<long> c; bool ok = true; for (double x : f) { double y = x * n - 0.5; long i = std::lround(y); if (!(std::fabs(y - i) <= tol * n)) ok = false; c.push_back(((i % n) + n) % n); } if (!ok || !seen.insert(c).second) { ++bad; if (first.empty()) { first = w; for (double x : f) first += vc::cat(" ", x); } } }
    void close(std::string const &k, std::string const &h) { VC_EXPECT(bad == 0, k + "-law", h, ": ", bad, " of ", total, " draws fall outside the grid of the stated law, first ", first); } };
static PrimaryDistributionRecord primary(Setup const &S, Vector3D const &dir, Vector3D const *init, bool momentum) {
    PrimaryDistributionRecord r(PRIM); r.SetMass(MASS); double p = std::sqrt(S.E * S.E - MASS * MASS); if (momentum) r.SetThreeMomentum({p * dir.GetX(), p * dir.GetY(), p * dir.GetZ()}); else { r.SetEnergy(S.E); r.SetDirection((std::array<double, 3>)dir); } if (init) r.SetInitialPosition((std::array<double, 3>)*init); return r; }
static void product(int n, int k, std::function<void(std::vector<double> const &)> const &f) { std::vector<int> i(k, 0); for (;;) { std::vector<double> u; for (int q : i) u.push_back((q + 0.5) / n); f(u); int j = 0; while (j < k && ++i[j] == n) i[j++] = 0; if (j == k) return; } }
// one draw; false: no interaction possible (refused)
static bool drawp(VertexPositionDistribution const &d, Setup const &S, std::vector<double> const &u, PrimaryDistributionRecord &r, Vector3D &init, Vector3D &v) {
    draw::script(u); vc::step(); try { d.Sample(draw::rng(), S.D.d, S.ic, r); } catch (InjectionFailure const &) { return false; } init = Vector3D(r.GetInitialPosition()); v = Vector3D(r.GetInteractionVertex()); return true; }
static Density dens(WeightableDistribution const &d, Setup const &S) { return [&](InteractionRecord const &e) { return d.GenerationProbability(S.D.d, S.ic, e); }; }
template <class T> static Bounds bnds(T const &d, Setup const &S) { return [&](InteractionRecord const &e) { return d.InjectionBounds(S.D.d, S.ic, e); }; }
// perpendicular coordinates
static void perp(Vector3D const &d, Vector3D &e1, Vector3D &e2) { Vector3D a = std::fabs(d.GetX()) < 0.6 ? Vector3D(1, 0, 0) : Vector3D(0, 1, 0); e1 = siren::math::vector_product(d, a); e1.normalize(); e2 = siren::math::vector_product(d, e1); }
// disk distributions: a disk through the detector origin perpendicular to the direction, a stretch around it
static void disk(VertexPositionDistribution const &d, Setup const &S, Vector3D const &dir, double radius, double B, std::function<Stretch(Ray const &)> const &st, std::string const &k, std::function<double(Stretch const &, double)> const &law, std::function<double(Stretch const &, double)> const &cum) {
    std::string h = describe(S) + " along " + sv(dir); vc::note(k + " " + h); ++vc::R.states; vc::trace(); const int n = 3; Vector3D e1, e2; perp(dir, e1, e2); Cells cells(n, 3, LT); double a0 = -1; bool complete = true; auto covered = [&] { for (int i = 0; i < 12; ++i) for (int j = 0; j < 6; ++j) { double q = radius * j / 5, w = i * M_PI / 6; Ray t(S, e1 * (q * std::cos(w)) + e2 * (q * std::sin(w)), dir, B); double lo, hi; if (!t.ok || !t.outer(lo, hi)) return false; } return true; }; double area = M_PI * radius * radius;
    product(n, 3, [&](std::vector<double> const &u) { PrimaryDistributionRecord r = primary(S, dir, nullptr, u[0] < 0.4); Vector3D init, v; bool got = drawp(d, S, u, r, init, v);
        Vector3D guess; if (got) guess = v - dir * (v * dir); else { complete = false; return; } if (!(norm(v) < 1e6 && norm(init) < 1e6)) { VC_EXPECT(!covered(), k + "-far", h, " vertex at ", sv(v)); complete = false; return; }
        Ray ray(S, guess, dir, B); if (!ray.ok) { complete = false; return; } Stretch s = st(ray); if (!s.sure) { complete = false; return; } double x = v * dir; ++vc::R.evaluations;

        double T = cum ? 1 : ray.depth(s.a, s.b); if (T > 0 && T < NIL * (1 + s.b - s.a)) { complete = false; return; } if (!(T > 0) && S.in.name != "nothing") { complete = false; return; } if (!(T > 0)) { VC_EXPECT(false, k + "-no-interaction", h, " a vertex although nothing can interact in [", s.a, ",", s.b, "]"); return; }
        bool ok = x >= s.a - 1e-5 && x <= s.b + 1e-5; VC_EXPECT(ok, k + "-vertex", h, " vertex at ", x, " outside [", s.a, ",", s.b, "]"); VC_EXPECT(norm(init - (guess + dir * s.a)) < (k == "column" ? 2e-4 : 1e-5), k + "-start", h, " starts at ", sv(init), " expected ", sv(guess + dir * s.a)); VC_EXPECT(norm(guess) < radius * (1 + 1e-9), k + "-disk", h); if (!ok) { complete = false; return; }
        double ang = std::atan2(guess * e2, guess * e1) / (2 * M_PI); ang -= std::floor(ang); if (a0 < 0) a0 = ang; double rel = ang - a0 + 0.5 / n; rel -= std::floor(rel); double q = norm(guess) / radius; cells.add({rel, q * q, cum ? cum(s, x) : frac(ray, s, x)}, vc::cat("words ", u[0], " ", u[1], " ", u[2], ":")); });
    if (complete) cells.close(k, h); else vc::count("disk with a line touching a face or without interactions: single draws judged, law not");
    for (double q : {0.0, 0.35, 0.93}) for (double w : {0.3, 2.9, 4.4}) { Vector3D p = e1 * (q * radius * std::cos(w)) + e2 * (q * radius * std::sin(w)); Ray ray(S, p, dir, B); if (!ray.ok) continue; Stretch s = st(ray); along(ray, s, p, dens(d, S), bnds(d, S), 1 / area, h, k, law ? std::function<double(double)>([=](double u) { return law(s, u); }) : nullptr); if (q == 0) break; }
    for (double w : {0.1, 3.3}) { Vector3D p = e1 * (1.01 * radius * std::cos(w)) + e2 * (1.01 * radius * std::sin(w)); for (double u : {-1.3, 0.1, 2.2}) { InteractionRecord e = event(S, dir, p, p + dir * u); ++vc::R.evaluations; VC_EXPECT(d.GenerationProbability(S.D.d, S.ic, e) == 0, k + "-outside-disk", h); auto b = d.InjectionBounds(S.D.d, S.ic, e); VC_EXPECT(norm(std::get<0>(b)) == 0 && norm(std::get<1>(b)) == 0, k + "-bounds-outside-disk", h); } }
    // the extreme words
    for (int w = 0; w < 8; ++w) { PrimaryDistributionRecord r = primary(S, dir, nullptr, w & 1); Vector3D init, v; if (!drawp(d, S, {w & 1 ? 1 : 1e-5, w >> 1 & 1 ? 1 : 1e-5, double(w >> 2)}, r, init, v) || !(norm(v) < 1e6 && norm(init) < 1e6)) continue; Vector3D p = v - dir * (v * dir); Ray ray(S, p, dir, B); if (!ray.ok) continue; Stretch s = st(ray); if (!s.sure || (!cum && ray.depth(s.a, s.b) < NIL * (1 + s.b - s.a))) continue; double x = v * dir; VC_EXPECT(x >= s.a - 1e-4 && x <= s.b + 1e-5 && norm(p) <= radius * (1 + 1e-9), k + "-extreme", h, " words ", w, ": vertex at ", x, " outside [", s.a, ",", s.b, "]"); }
}
// distributions that start from a given place
static void ranged(Setup const &S, Vector3D const &start, Vector3D const &dir, double B, Stretch const &s, Ray const &ray, std::string const &k, std::string const &h, std::function<bool(double, bool, Vector3D &, Vector3D &)> const &drawer, Density const &den, Bounds const &bnd, double start_tol = 1e-5) {
    vc::note(k + " " + h); ++vc::R.states; vc::trace(); if (!ray.ok || !s.sure) { vc::count("line touching a face: not judged"); return; }
    bool empty = !(s.b - s.a > 1e-6); double T = empty ? 0 : ray.depth(s.a, s.b); if (S.in.name != "nothing" && !empty && T < NIL * (1 + s.b - s.a)) { vc::count("stretch without matter: not judged"); return; } const int n = vc::thorough() ? 16 : 7; Cells cells(n, 1, LT); (void)B;
    if (!empty || true) for (int i = -1; i <= n; ++i) { double y = i < 0 ? 0 : i == n ? 1 : (i + 0.5) / n; Vector3D init, v; bool got = drawer(y, i & 1, init, v); ++vc::R.evaluations;
        if (!(T > 0)) { VC_EXPECT(!got, k + "-no-interaction", h, " a vertex although nothing can interact in [", s.a, ",", s.b, "]"); continue; }
        VC_EXPECT(got, k + "-refused", h, " depth ", T); if (!got) continue; double x = (v - ray.p) * dir; Vector3D off = v - ray.p - dir * x; VC_EXPECT(norm(off) < 1e-6 && x >= s.a - 1e-5 && x <= s.b + 1e-5, k + "-vertex", h, " vertex at ", x, " outside [", s.a, ",", s.b, "]"); VC_EXPECT(norm(init - start) < start_tol, k + "-start", h, " starts at ", sv(init), " expected ", sv(start)); if (i >= 0 && i < n) cells.add({frac(ray, s, std::min(std::max(x, s.a), s.b))}, vc::cat("word ", y, ":")); }
    if (T > 0) cells.close(k, h);
    along(ray, s, start, den, bnd, 1, h, k);
}
static std::vector<Vector3D> directions() { std::vector<Vector3D> v = {Vector3D(0, 0, 1), Vector3D(0, 0, -1), Vector3D(1, 0.05, 0.1), Vector3D(-0.7, 0.4, -0.6), Vector3D(0.2, -0.9, 0.35)}; for (auto &d : v) d.normalize(); return v; }
struct MyRange : RangeFunction { double k; MyRange(double k) : k(k) {} double operator()(PT const &t, double E) const override { return t == PRIM ? k * E : 1e9; } bool equal(RangeFunction const &) const override { return false; } bool less(RangeFunction const &) const override { return false; } };
struct MyDepth : DepthFunction { double k; MyDepth(double k) : k(k) {} double operator()(PT const &t, double E) const override { return t == PRIM ? k * E : 1e9; } bool equal(DepthFunction const &) const override { return false; } bool less(DepthFunction const &) const override { return false; } };
static std::vector<Fid> fids() { Placement p1(Vector3D(1, -0.5, 0.7), quat(Vector3D(0.3, 1, 0.2), 0.5)), p2(Vector3D(0, 0, 3)); return {{"box", std::make_shared<Box>(p1, 4, 3, 5), moved([](double x, double y, double z) { return boxm(x, y, z, 2, 1.5, 2.5); }, p1)}, {"shell", std::make_shared<Sphere>(p2, 3, 1.5), moved([](double x, double y, double z) { double q = std::sqrt(x * x + y * y + z * z); return std::min(3 - q, q - 1.5); }, p2)}}; }
enum { COL, RANGE, DECAY, POINT, PBOUND, PPHYS, SBOUND, SPHYS, FIXED, KINDS };
static const char *kinds[] = {"column", "range", "decayrange", "point", "bounded", "physical", "sbounded", "sphysical", "target"};
static void one(int kind, Setup const &S, double size) {
    double B = 2.5 * size + 8; auto F = fids();
    for (auto const &dir : directions()) {
        std::string base = describe(S) + " along " + sv(dir);
        switch (kind) {
        case COL: for (double R : {1.5, 0.4 * size}) for (double end : {0.3 * size, 1.4 * size}) for (double k : {40.0, 600.0, 1e6}) { ColumnDepthPositionDistribution d(R, end, std::make_shared<MyDepth>(k)); disk(d, S, dir, R, B, [&](Ray const &r) { double s = r.back(-end, k * S.E); Stretch q = clip(r, s, end); if (std::isfinite(s) && s > -1e299 && r.face(-end)) q.sure = false; double lo, hi; if (!r.outer(lo, hi)) q.sure = false; return q; }, vc::cat("column"), nullptr, nullptr); } break;
        case RANGE: for (double R : {1.5, 0.4 * size}) for (double end : {0.3 * size, 1.4 * size}) for (double k : {0.4, 3.0}) { RangePositionDistribution d(R, end, std::make_shared<MyRange>(k), {}); disk(d, S, dir, R, B, [&](Ray const &r) { return clip(r, -end - k * S.E, end); }, "range", nullptr, nullptr); } break;
        case DECAY: for (double R : {1.5, 0.4 * size}) for (double end : {0.3 * size, 1.4 * size}) for (double L : {0.05, 0.6, 9.0, 1e5, 1e18}) { double m = 0.3, p = std::sqrt(S.E * S.E - m * m), w = p / m / L * 1.973269804593025e-16, mult = L > 1e3 ? 20 / L : 1.5; auto f = std::make_shared<DecayRangeFunction>(m, w, mult, 1e300); DecayRangePositionDistribution d(R, end, f);
            auto law = [L](Stretch const &s, double u) { return std::exp(-(u - s.a) / L) / (L * -std::expm1(-(s.b - s.a) / L)); }; auto cum = [L](Stretch const &s, double u) { return std::expm1(-(u - s.a) / L) / std::expm1(-(s.b - s.a) / L); };
            VC_EXPECT(vc::close(f->DecayLength(PRIM, S.E), L, 1e-9) && vc::close((*f)(PRIM, S.E), L * mult, 1e-9), "decayrange-function", L); DecayRangeFunction lim(m, w, mult, 0.5 * L * mult); VC_EXPECT(vc::close(lim(PRIM, S.E), 0.5 * L * mult, 1e-9), "decayrange-limit", L);
            disk(d, S, dir, R, B, [&](Ray const &r) { Stretch q = clip(r, -end - L * mult, end); double lo, hi; if (!r.outer(lo, hi) || L * mult > 1e10) { if (!r.outer(lo, hi)) q.sure = false; } return q; }, "decayrange", law, cum); } break;
        case POINT: for (Vector3D o : {Vector3D(0.3, 0.2, -0.1), dir * (-1.3 * size) + Vector3D(0.4, 0.3, 0.2), dir * (1.5 * size)}) for (double max : {0.6 * size, 4 * size}) { PointSourcePositionDistribution d(o, max); Ray r(S, o, dir, B + 1.5 * size); Stretch s = clip(r, 0, max); double lo, hi; if (!r.outer(lo, hi)) s.sure = false; if (std::isfinite(s.a) && s.a == 0 && r.face(0)) s.sure = false;
            ranged(S, o + dir * s.a, dir, B, s, r, "point", vc::cat(base, " from ", sv(o), " at most ", max), [&](double y, bool m, Vector3D &i, Vector3D &v) { auto rec = primary(S, dir, nullptr, m); return drawp(d, S, {y}, rec, i, v); }, dens(d, S), bnds(d, S)); } break;
        case PBOUND: case PPHYS: case SBOUND: case SPHYS: for (Vector3D o : {Vector3D(0.3, 0.2, -0.1), dir * (-1.3 * size) + Vector3D(0.4, 0.3, 0.2), dir * (1.5 * size), Vector3D(-0.2 * size, 0.25 * size, 0.1 * size)}) for (int f = -1; f < 2; ++f) for (double max : {0.6 * size, INFTY}) {
            bool phys = kind == PPHYS || kind == SPHYS; if (phys && (f >= 0 || std::isfinite(max))) continue; Fid const *fid = f < 0 ? nullptr : &F[f]; Ray r(S, o, dir, B + 1.5 * size); Stretch s = bounded(r, 0, max, fid); double lo, hi; if (!r.outer(lo, hi) && (!fid || !(s.b < max))) s.sure = false; if (r.face(0)) s.sure = false;
            std::string h = vc::cat(base, " from ", sv(o), " at most ", max, fid ? " fiducial " + fid->name : "");
            if (kind == PBOUND || kind == PPHYS) { std::shared_ptr<VertexPositionDistribution> d; if (phys) d = std::make_shared<PrimaryPhysicalVertexDistribution>(); else if (!fid) d = std::isfinite(max) ? std::make_shared<PrimaryBoundedVertexDistribution>(max) : std::make_shared<PrimaryBoundedVertexDistribution>(); else d = std::isfinite(max) ? std::make_shared<PrimaryBoundedVertexDistribution>(fid->g, max) : std::make_shared<PrimaryBoundedVertexDistribution>(fid->g);
                ranged(S, o, dir, B, s, r, kinds[kind], h, [&](double y, bool m, Vector3D &i, Vector3D &v) { auto rec = primary(S, dir, &o, m); return drawp(*d, S, {y}, rec, i, v); }, dens(*d, S), bnds(*d, S)); }
            else { std::shared_ptr<SecondaryVertexPositionDistribution> d; if (phys) d = std::make_shared<SecondaryPhysicalVertexDistribution>(); else if (!fid) d = std::isfinite(max) ? std::make_shared<SecondaryBoundedVertexDistribution>(max) : std::make_shared<SecondaryBoundedVertexDistribution>(); else d = std::isfinite(max) ? std::make_shared<SecondaryBoundedVertexDistribution>(fid->g, max) : std::make_shared<SecondaryBoundedVertexDistribution>(fid->g);
                ranged(S, o, dir, B, s, r, kinds[kind], h, [&](double y, bool, Vector3D &i, Vector3D &v) {
                    InteractionRecord par; par.signature.primary_type = PT::MuMinus; par.signature.target_type = PT::HNucleus; par.signature.secondary_types = {PT::Gamma, PRIM}; par.interaction_vertex = (std::array<double, 3>)o; par.primary_initial_position = {9, 9, 9}; par.primary_mass = 0.1; par.primary_momentum = {9, 0, 0, 9}; par.secondary_masses = {0, MASS}; par.secondary_helicities = {0, 0.5}; double p = std::sqrt(S.E * S.E - MASS * MASS); par.secondary_momenta = {{1, 0, 0, 1}, {S.E, p * dir.GetX(), p * dir.GetY(), p * dir.GetZ()}};
                    par.secondary_ids.resize(2); SecondaryDistributionRecord rec(par, 1); draw::script({y}); vc::step(); try { d->Sample(draw::rng(), S.D.d, S.ic, rec); } catch (InjectionFailure const &) { return false; } InteractionRecord out; rec.Finalize(out); i = Vector3D(out.primary_initial_position); v = Vector3D(out.interaction_vertex); return true; }, dens(*d, S), bnds(*d, S)); } } break;
        case FIXED: for (int c = 0; c < 2; ++c) for (int f = -1; f < 1; ++f) for (double max : {0.6 * size, 3 * size}) {
            Placement pl(dir * (c ? -1.1 * size : 0.1 * size) + Vector3D(0.2, 0.1, 0), quat(Vector3D(0.2, 0.5, 1), 0.7)); double R = 1.2, I = c ? 0.7 : 0, Z = 1.7; Cylinder cyl(pl, R, I, Z); Fid T{"target", nullptr, moved([=](double x, double y, double z) { double q = std::hypot(x, y); return std::min({R - q, I > 0 ? q - I : 1e9, Z / 2 - std::fabs(z)}); }, pl)}; Fid const *fid = f < 0 ? nullptr : &F[f];
            std::shared_ptr<FixedTargetPositionDistribution> d = fid ? std::make_shared<FixedTargetPositionDistribution>(cyl, fid->g, max) : std::make_shared<FixedTargetPositionDistribution>(cyl, max); std::string h = vc::cat(base, c ? " hollow target" : " target", " at most ", max, fid ? " fiducial " + fid->name : ""), k = "target"; vc::note(k + " " + h); ++vc::R.states; vc::trace();
            auto chord = [&](Vector3D const &p) { const int N = 4000; double L = 2 * (B + size), h = L / N, t0 = -B - size, n = 0; auto F = [&](double t) { Vector3D q = p + dir * t; return T.m(q.GetX(), q.GetY(), q.GetZ()) > 0; }; bool in = false; double since = 0; for (int i = 1; i <= N; ++i) { double t = t0 + i * h; if (F(t) != in) { double a = t - h, b = t; for (int j = 0; j < 60; ++j) { double m = 0.5 * (a + b); if (F(m) == in) a = m; else b = m; } if (in) n += a - since; else since = a; in = !in; } } return n; };
            auto stretch = [&](Ray const &r, double &exit, bool &sure) { double lo, hi; if (!hull(T, r.p, dir, r.B, lo, hi, sure)) return Stretch{0, 0, false}; exit = hi; Stretch s = bounded(r, hi, max, fid); if (r.face(hi)) s.sure = false; double a, b; if (!r.outer(a, b)) s.sure = false; return s; };
            const int n = 3; Cells cells(n, 4, LT); bool complete = true; double a0 = -1; double V = M_PI * (R * R - I * I) * Z;
            product(n, 4, [&](std::vector<double> const &u) { auto rec = primary(S, dir, nullptr, u[3] < 0.4); Vector3D init, v; bool got = drawp(*d, S, u, rec, init, v); ++vc::R.evaluations; if (!got) { complete = false; return; }
                Ray r(S, init, dir, B + size); double exit; bool sure; Stretch s = stretch(r, exit, sure); if (!r.ok || !s.sure) { complete = false; return; } double x = (v - init) * dir; double D = r.depth(s.a, s.b); VC_EXPECT(D > 0 || S.in.name != "nothing", k + "-no-interaction", h); if (D < NIL * (1 + s.b - s.a)) { complete = false; return; } VC_EXPECT(norm(v - init - dir * x) < 1e-6 && x >= s.a - 1e-5 && x <= s.b + 1e-5, k + "-vertex", h, " vertex at ", x, " outside [", s.a, ",", s.b, "]"); 
                Vector3D l = pl.GlobalToLocalPosition(init); double q = std::hypot(l.GetX(), l.GetY()), ang = std::atan2(l.GetY(), l.GetX()) / (2 * M_PI) + 1; if (a0 < 0) a0 = ang; double rel = ang - a0 + 0.5 / n; rel -= std::floor(rel); cells.add({rel, (q * q - I * I) / (R * R - I * I), l.GetZ() / Z + 0.5, frac(r, s, std::min(std::max(x, s.a), s.b))}, vc::cat("words ", u[0], " ", u[1], " ", u[2], " ", u[3], ":")); });
            if (complete) cells.close(k, h);
            Vector3D e1, e2; perp(dir, e1, e2); Vector3D cen = pl.LocalToGlobalPosition(Vector3D(0, 0, 0));
            for (double q : {0.0, 0.4, 0.9, 2.5}) for (double w : {0.5, 2.1}) { Vector3D p = cen + e1 * (q * std::cos(w)) + e2 * (q * std::sin(w)); Ray r(S, p, dir, B + size); double exit = 0; bool sure = true; Stretch s = stretch(r, exit, sure); if (q > 2) { for (double u : {-1.0, 0.0, 2.0}) { InteractionRecord e = event(S, dir, p, p + dir * u); vc::note(k + " " + h + " off the target"); VC_EXPECT(d->GenerationProbability(S.D.d, S.ic, e) == 0, k + "-density-off", h, " at ", sv(p)); auto b = d->InjectionBounds(S.D.d, S.ic, e); VC_EXPECT(norm(std::get<0>(b)) == 0 && norm(std::get<1>(b)) == 0, k + "-bounds-off", h); } continue; }
                if (!sure || !s.sure) continue; double ch = chord(p); along(r, s, p, [&](InteractionRecord const &e) { double g = d->GenerationProbability(S.D.d, S.ic, e) * V; return g / ch; }, bnds(*d, S), 1, h, k); } } break;
        }
    }
}
// uniform in a solid, whatever the direction
static void volumes() {
    for (int pl = 0; pl < 2; ++pl) for (double I : {0.0, 1.1}) for (double Z : {0.8, 6.0}) for (int kind = 0; kind < 2; ++kind) for (auto const &dir : directions()) {
        Placement P = pl ? Placement(Vector3D(1, -2, 0.5), quat(Vector3D(1, 0.3, 0.2), 1.1)) : Placement(); double R = 2.3; std::shared_ptr<VertexPositionDistribution> d; Margin m; double V;
        if (kind) { d = std::make_shared<SphereVolumePositionDistribution>(Sphere(P, R, I)); V = 4 * M_PI / 3 * (R * R * R - I * I * I); m = moved([=](double x, double y, double z) { double q = std::sqrt(x * x + y * y + z * z); return std::min(R - q, I > 0 ? q - I : 1e9); }, P); }
        else { d = std::make_shared<CylinderVolumePositionDistribution>(Cylinder(P, R, I, Z)); V = M_PI * (R * R - I * I) * Z; m = moved([=](double x, double y, double z) { double q = std::hypot(x, y); return std::min({R - q, I > 0 ? q - I : 1e9, Z / 2 - std::fabs(z)}); }, P); }
        Fid T{"", nullptr, m}; std::string k = kind ? "sphere" : "cylinder", h = vc::cat(k, " inner ", I, " height ", Z, pl ? " placed" : "", " along ", sv(dir)); ++vc::R.states; vc::trace(); vc::note(h); Setup S; S.E = 2; const int n = vc::thorough() ? 9 : 5; Cells cells(n, 3, 1e-6); double a0 = -1;
        product(n, 3, [&](std::vector<double> const &u) { auto rec = primary(S, dir, nullptr, u[0] < 0.4); Vector3D init, v; drawp(*d, S, u, rec, init, v); ++vc::R.evaluations; Vector3D l = P.GlobalToLocalPosition(v); double q = std::hypot(l.GetX(), l.GetY()), ang = std::atan2(l.GetY(), l.GetX()) / (2 * M_PI) + 1; if (a0 < 0) a0 = ang; double rel = ang - a0 + 0.5 / n; rel -= std::floor(rel); double rr = norm(l);
            if (kind) cells.add({rel, (rr * rr * rr - I * I * I) / (R * R * R - I * I * I), l.GetZ() / rr / 2 + 0.5}, "draw"); else cells.add({rel, (q * q - I * I) / (R * R - I * I), l.GetZ() / Z + 0.5}, "draw");
            double lo, hi; bool sure; bool hit = hull(T, v, dir, 12, lo, hi, sure); if (hit) { VC_EXPECT(norm(init - (v + dir * lo)) < 1e-5, k + "-start", h, " from ", sv(init), " expected ", sv(v + dir * lo)); InteractionRecord e = event(S, dir, init, v); auto b = d->InjectionBounds(nullptr, nullptr, e); VC_EXPECT(norm(std::get<0>(b) - (v + dir * lo)) < 1e-5 && norm(std::get<1>(b) - (v + dir * hi)) < 1e-5, k + "-bounds", h); } });
        cells.close(k, h);
        for (double x = -3.1; x < 4; x += 0.61) for (double y = -3.3; y < 4; y += 0.57) for (double z = -3.7; z < 4; z += 0.53) { double g = m(x, y, z); if (std::fabs(g) < 1e-6) continue; ++vc::R.evaluations; double got = d->GenerationProbability(nullptr, nullptr, event(S, dir, Vector3D(0, 0, 0), Vector3D(x, y, z))); VC_EXPECT(g > 0 ? vc::close(got, 1 / V, 1e-12) : got == 0, k + "-density", h, " at ", x, " ", y, " ", z, ": ", got, " expected ", g > 0 ? 1 / V : 0); }
        Vector3D e1, e2; perp(dir, e1, e2); Vector3D far = P.LocalToGlobalPosition(Vector3D(0, 0, 0)) + e1 * 5; auto b = d->InjectionBounds(nullptr, nullptr, event(S, dir, far, far)); VC_EXPECT(norm(std::get<0>(b)) == 0 && norm(std::get<1>(b)) == 0, k + "-bounds-off", h);
    }
}
// depth of a charged lepton's range
static void lepton() {
    for (double E : {1e-3, 0.1, 1.0, 30.0, 1e3, 1e6, 1e9}) for (int s = 0; s < 8; ++s) { LeptonDepthFunction f; double a = f.GetMuAlpha(), b = f.GetMuBeta(), c = f.GetTauAlpha(), e = f.GetTauBeta(), M = f.GetMaxDepth(); if (s & 1) { a = 2e-3; b = 3e-6; f.SetMuParams(a, b); } if (s & 2) { c = 12; e = 4e-7; f.SetTauParams(c, e); } if (s & 4) { M = 2e5; f.SetMaxDepth(M); }
        ++vc::R.states; for (PT t : {PT::NuE, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar}) { vc::step(); ++vc::R.evaluations; double w = std::log1p(E * b / a) / b; if (t == PT::NuTau || t == PT::NuTauBar) w += std::log1p(E * e / c) / e; w = std::min(w, M); VC_EXPECT(vc::close(f(t, E), w, 1e-6), "lepton-depth", "E=", E, " setting ", s, ": ", f(t, E), " expected ", w); } }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> cases; static auto W = worlds(); static auto I = inters();
    for (size_t w = 0; w < W.size(); ++w) for (int k = 0; k < KINDS; ++k) for (int part = 0; part < 3; ++part) cases.push_back({vc::cat(W[w].name, "_", kinds[k], "_", part), [=] {
        std::vector<int> p; for (size_t i = 0; i < W[w].v.size(); ++i) p.push_back((i * 2 + w) % W[w].v.size()); std::set<int> q(p.begin(), p.end()); if (q.size() < p.size()) for (size_t i = 0; i < p.size(); ++i) p[i] = i;
        int i0 = 0; for (int f = 0; f < 3; ++f) { if (!vc::thorough() && f != int((w + k) % 3)) continue; Det D = build(W[w], p, frames()[f]); for (size_t i = part; i < I.size(); i += 3) { if (k == DECAY && i > 0) continue; if (!vc::thorough() && W[w].v.size() > 3 && i % 2) continue; one(k, setup(D, I[i], i0++ % 2 ? 2.0 : 3.5), W[w].size); } } }, 600});
    cases.push_back({"volumes", volumes, 600}); cases.push_back({"lepton", lepton, 600});
    return vc::run(argc, argv, cases);
}
