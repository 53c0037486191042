// P08: energies are drawn from exactly the density the distribution reports.
#include "draw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/utilities/Constants.h"
#include <fstream>
using namespace draw; using namespace siren::distributions;
typedef std::vector<double> V;
static double sample(PrimaryEnergyDistribution const &d, std::vector<double> const &us) {
    script(us); PrimaryDistributionRecord r(ParticleType::NuMu);
    static_cast<PrimaryInjectionDistribution const &>(d).Sample(rng(), nullptr, nullptr, r); vc::step();
    return r.GetEnergy();
}
static double rho(WeightableDistribution const &d, double E) { return density(d, event(E)); }
static int N() { return vc::thorough() ? 4096 : 512; }
static std::shared_ptr<PrimaryEnergyDistribution> cl(PrimaryEnergyDistribution const &d) { return std::dynamic_pointer_cast<PrimaryEnergyDistribution>(d.clone()); }

static void mono() {
    for (double E : {1e-3, 1.0, 10.0, 1e6}) {
        Monoenergetic d(E); std::string h = vc::cat("Monoenergetic(", E, ")"); vc::state(h); vc::trace();
        for (double u : grid(16)) VC_EXPECT(sample(d, {u}) == E, "mono-sample", h);
        VC_EXPECT(rho(d, E) == 1.0, "mono-density", h);
        for (double k : {0.5, 0.99, 0.9999, 1.0001, 1.01, 2.0}) VC_EXPECT(rho(d, E * k) == 0.0, "mono-density-elsewhere", h, " at ", k, " E");
    }
}
static void powerlaw() {
    for (double g : {-2.0, -1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.7, 3.0}) for (auto b : std::vector<std::pair<double, double>>{{1, 10}, {0.1, 1e3}, {1, 1e6}, {5, 5.5}, {1e3, 1e3}}) {
        PowerLaw d(g, b.first, b.second); std::string h = vc::cat("PowerLaw(", g, ",", b.first, ",", b.second, ")"); vc::note(h); vc::state(h); vc::trace();
        if (b.first == b.second) { for (double u : grid(8)) VC_EXPECT(sample(d, {u}) == b.first, "powerlaw-point", h); VC_EXPECT(rho(d, b.first) == 1, "powerlaw-point-density", h); continue; }
        auto prim = [&](double E) { return g == 1 ? std::log(E) : std::pow(E, 1 - g) / (1 - g); };
        double lo = prim(b.first), hi = prim(b.second), last = 0;
        auto c = cl(d);
        for (double u : grid(N())) {
            double E = sample(d, {u}), want = (prim(E) - lo) / (hi - lo);
            VC_EXPECT(E >= b.first * (1 - 1e-12) && E <= b.second * (1 + 1e-12), "powerlaw-support", h, " u=", u, " E=", E);
            VC_EXPECT(vc::close(want, uval(u), 1e-8, 1e-9), "powerlaw-quantile", h, " u=", u, " E=", E, " cdf=", want);
            VC_EXPECT(E >= last, "powerlaw-monotone", h, " u=", u); last = E;
            double r = rho(d, E), rr = std::pow(E, -g) / (hi - lo);
            if (E >= b.first && E <= b.second) VC_EXPECT(vc::close(r, rr, 1e-9), "powerlaw-density", h, " E=", E, " density ", r, " expected ", rr);
            VC_EXPECT(sample(*c, {u}) == E, "powerlaw-clone", h);
        }
        for (double E : {b.first * 0.5, b.first * 0.999, b.second * 1.001, b.second * 3}) VC_EXPECT(rho(d, E) == 0, "powerlaw-density-outside", h, " E=", E, " density ", rho(d, E));
        // physical normalisation
        VC_EXPECT(!d.IsNormalizationSet(), "powerlaw-norm-unset", h);
        for (double E : {b.first, 0.5 * (b.first + b.second), b.second}) { d.SetNormalizationAtEnergy(7.5, E); VC_EXPECT(d.IsNormalizationSet() && vc::close(d.GetNormalization() * rho(d, E), 7.5, 1e-9), "powerlaw-norm-at-energy", h, " E=", E); }
        d.SetNormalization(3.25); VC_EXPECT(d.IsNormalizationSet() && d.GetNormalization() == 3.25, "powerlaw-norm", h);
    }
}
static void pidar() {
    PiDARNuEDistribution d; double const M = siren::utilities::Constants::muonMass, hi = M / 2; vc::state("PiDAR"); vc::trace();
    auto cdf = [&](double E) { double x = 2 * E / M; return x * x * x * (4 - 3 * x); };   // normalised spectrum 12 x^2 (1-x), x = 2E/M
    double last = 0;
    for (double u : grid(N())) {
        double E = sample(d, {u}); vc::state(vc::cat("PiDAR u=", u));
        VC_EXPECT(E >= 0 && E <= hi, "pidar-support", "u=", u, " E=", E);
        VC_EXPECT(cdf(std::max(0.0, E - 3e-6)) <= uval(u) + 1e-12 && cdf(std::min(hi, E + 3e-6)) >= uval(u) - 1e-9, "pidar-quantile", "u=", u, " E=", E, " cdf=", cdf(E));
        VC_EXPECT(E >= last, "pidar-monotone", "u=", u); last = E;
        double x = 2 * E / M; VC_EXPECT(vc::close(rho(d, E), 12 * x * x * (1 - x) * 2 / M, 1e-9, 1e-12), "pidar-density", "E=", E);
    }
    for (double E : {hi * 1.0001, hi * 2, -0.01}) VC_EXPECT(rho(d, E) == 0, "pidar-density-outside", "E=", E);
}
// Metropolis chain in the reference: initial point uniform, proposals uniform, accept with min(1, ratio)
struct Moy { double p[7]; };
static double moyal(double const *p, double E) { double x = (E - p[2]) / p[3]; return p[4] / p[3] * std::exp(-(x + std::exp(-x)) / 2) / std::sqrt(2 * M_PI) + p[6] / p[5] * std::exp(-E / p[5]); }
static void moyals() {
    for (auto &P : std::vector<Moy>{{{0.5, 5, 1.5, 0.3, 1, 0.8, 0.4}}, {{0.1, 6.4, 0.05, 0.2, 10, 2, 1}}, {{1, 2, 1.2, 0.1, 1, 1, 0}}, {{2, 20, 4, 1, 3, 5, 7}}, {{0.3, 4, 1, 0.25, 0.5, 0.9, 0.5}}}) {
        double const *p = P.p; std::string h = vc::cat("Moyal(", p[0], ",", p[1], ",", p[2], ",", p[3], ",", p[4], ",", p[5], ",", p[6], ")"); vc::note(h); vc::state(h); vc::trace();
        ModifiedMoyalPlusExponentialEnergyDistribution d(p[0], p[1], p[2], p[3], p[4], p[5], p[6]), dn(p[0], p[1], p[2], p[3], p[4], p[5], p[6], true);
        double I = quad([&](double E) { return moyal(p, E); }, p[0], p[1], 2000);
        for (int i = 0; i <= 64; ++i) { double E = p[0] + (p[1] - p[0]) * i / 64; VC_EXPECT(vc::close(rho(d, E), moyal(p, E) / I, 1e-5), "moyal-density", h, " E=", E, " ", rho(d, E), " expected ", moyal(p, E) / I); }
        for (double E : {p[0] * 0.99, p[1] * 1.01}) VC_EXPECT(rho(d, E) == 0, "moyal-density-outside", h, " E=", E);
        VC_EXPECT(!d.IsNormalizationSet() && dn.IsNormalizationSet() && vc::close(dn.GetNormalization(), I, 1e-5), "moyal-normalization", h);
        // exhaustive over the first decisions: initial point, two proposals and acceptance words from a small alphabet, later decisions equidistributed
        V al = vc::thorough() ? V{0, 0.08, 0.21, 0.4, 0.63, 0.87, 1} : V{0, 0.1, 0.35, 0.7, 1};
        size_t depth = 5, total = 1; for (size_t i = 0; i < depth; ++i) total *= al.size();
        std::map<double, V> accept;
        for (size_t code = 0; code < total; ++code) {
            V us; size_t c = code; for (size_t i = 0; i < depth; ++i) { us.push_back(al[c % al.size()]); c /= al.size(); }
            double E = sample(d, us); size_t used = Eng::pos;
            // replay on the reference chain with the same words
            size_t k = 0; uint64_t tail = 0; auto next = [&]() { if (k < us.size()) return uval(us[k++]); ++k; tail += 0x9E3779B97F4A7C15ull; return std::ldexp(double(tail >> 11), -53); };
            double cur = p[0] + (p[1] - p[0]) * next(), dc = moyal(p, cur);
            for (int j = 0; j <= 40; ++j) { double t = p[0] + (p[1] - p[0]) * next(), dt = moyal(p, t); if (dt / dc > 1 || next() < dt / dc) { cur = t; dc = dt; } }
            vc::state(vc::cat(h, code)); vc::trace();
            VC_EXPECT(E >= p[0] && E <= p[1], "moyal-support", h, " script ", code, " E=", E);
            VC_EXPECT(vc::close(E, cur, 1e-9), "moyal-chain", h, " script ", code, " E=", E, " reference chain ", cur, " words ", used, "/", k);
        }
    }
}
struct Tab { V e, f; };
static std::string show(V const &v) { std::string s; for (double d : v) s += vc::cat(d, " "); return s; }
static void tables(int part) {
    std::vector<Tab> ts; V es[4] = {{1, 2, 3, 4, 5}, {0, 0.5, 1.5, 2.5, 7}, {1, 2, 4, 8, 16}, {10, 11, 14, 18, 30}};
    // all assignments of the flux values to the five nodes (at least two adjacent non-zero)
    V F{0, 1, 3}; V const &e = es[part];
    for (int code = 0; code < 243; ++code) { V f; int c = code, nz = 0; for (int i = 0; i < 5; ++i) { f.push_back(F[c % 3]); nz += c % 3 != 0; c /= 3; } if (nz >= 2) ts.push_back({e, f}); }
    std::string file = vc::cat(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp", "/flux-", getpid(), ".txt");
    int idx = 0;
    for (auto &t : ts) for (int bounds = 0; bounds < 3; ++bounds) {
        ++idx;
        double lo = e.front(), hi = e.back();
        if (bounds == 1) { lo = e[0] + 0.6 * (e[1] - e[0]); hi = e[3] + 0.3 * (e[4] - e[3]); }
        if (bounds == 2) { lo = e[1]; hi = e[3]; if (t.f[1] + t.f[2] + t.f[3] == 0) continue; }
        std::string h = vc::cat("table E=", show(t.e), " flux=", show(t.f), " in [", lo, ",", hi, "]"); vc::note(h); vc::state(h); vc::trace();
        std::shared_ptr<TabulatedFluxDistribution> d, dn;
        auto mk = [&](bool norm) { return bounds ? std::make_shared<TabulatedFluxDistribution>(lo, hi, t.e, t.f, norm, false) : std::make_shared<TabulatedFluxDistribution>(t.e, t.f, norm, false); };
        d = mk(false); dn = mk(true);
        // what the table says between its nodes: log-log for tables even in log E, linear otherwise; linear next to zero entries
        bool lg = part == 2;
        auto flux = [&](double E) { size_t i = 0; while (i + 2 < e.size() && E > e[i + 1]) ++i; double a = t.f[i], b = t.f[i + 1];
            if (lg && a > 0 && b > 0) return a * std::pow(b / a, std::log(E / e[i]) / std::log(e[i + 1] / e[i])); return a + (b - a) * (E - e[i]) / (e[i + 1] - e[i]); };
        bool irregular = part == 3;   // the table may choose either; use the object's own value between nodes
        auto shape = [&](double E) { return irregular ? d->SampleUnnormedPDF(E) : flux(E); };
        V nodes{lo}; for (double x : e) if (x > lo && x < hi) nodes.push_back(x); nodes.push_back(hi);
        // the library integrates its table by the trapezoid rule on the nodes
        double I = 0; { V ie{lo}; for (double x : e) if (x > lo && x < hi) ie.push_back(x); ie.push_back(hi); auto lin = [&](double E) { size_t i = 0; while (i + 2 < e.size() && E > e[i + 1]) ++i; return t.f[i] + (t.f[i+1] - t.f[i]) * (E - e[i]) / (e[i+1] - e[i]); }; for (size_t i = 1; i < ie.size(); ++i) I += 0.5 * (lin(ie[i]) + lin(ie[i - 1])) * (ie[i] - ie[i - 1]); }
        VC_EXPECT(vc::close(d->GetIntegral(), I, 1e-9), "table-integral", h, " integral ", d->GetIntegral(), " expected ", I);
        VC_EXPECT(!d->IsNormalizationSet() && dn->IsNormalizationSet() && vc::close(dn->GetNormalization(), I, 1e-9), "table-normalization", h);
        for (size_t i = 0; i < e.size(); ++i) { double x = e[i]; VC_EXPECT(vc::close(d->SampleUnnormedPDF(x), t.f[i], 1e-9, 1e-9), "table-node-flux", h, " E=", x, " gives ", d->SampleUnnormedPDF(x)); }
        for (int i = 0; i <= 40; ++i) { double E = lo + (hi - lo) * i / 40; if (E > hi) E = hi; VC_EXPECT(vc::close(rho(*d, E), shape(E) / I, 1e-7, 1e-9), "table-density", h, " E=", E, " ", rho(*d, E), " expected ", shape(E) / I); }
        for (double E : {lo - 0.01, hi + 0.01, hi * 2}) VC_EXPECT(rho(*d, E) == 0, "table-density-outside", h, " E=", E);
        // cumulative distribution at the nodes
        V cum{0}; for (size_t i = 1; i < nodes.size(); ++i) cum.push_back(cum.back() + 0.5 * (shape(nodes[i]) + shape(nodes[i - 1])) * (nodes[i] - nodes[i - 1]));
        double tot = cum.back();
        double last = -1;
        for (double u : grid(vc::thorough() ? 512 : 96)) {
            double E = sample(*d, {u}); double uu = uval(u);
            VC_EXPECT(E >= lo * (1 - 1e-9) - 1e-12 && E <= hi * (1 + 1e-9), "table-support", h, " u=", u, " E=", E);
            VC_EXPECT(E >= last - 1e-9, "table-monotone", h, " u=", u, " E=", E); last = E;
            // the sampled energy must lie in the table cell that contains this quantile
            size_t i = 1; while (i + 1 < nodes.size() && cum[i] / tot < uu - 1e-9) ++i;
            size_t j = i; while (j + 1 < nodes.size() && cum[j] / tot < uu + 1e-9) ++j;
            bool inside = E >= nodes[i - 1] - 1e-6 && E <= nodes[j] + 1e-6;
            VC_EXPECT(inside, "table-quantile-cell", h, " u=", u, " E=", E, " cell ", nodes[i - 1], "..", nodes[j]);
            // with probability inside the cell proportional to the position the energy may not fall where the flux is zero on both sides
            if (u > 0 && u < 1) { size_t k = 1; while (k + 1 < nodes.size() && nodes[k] < E) ++k; bool dead = shape(nodes[k]) + shape(nodes[k - 1]) <= 0 && E > nodes[k - 1] + 1e-3 && E < nodes[k] - 1e-3; VC_EXPECT(!dead, "table-dead-cell", h, " u=", u, " E=", E); }
        }
        // node quantiles exactly
        for (size_t i = 1; i + 1 < nodes.size(); ++i) { double u = cum[i] / tot; if (u <= 0 || u >= 1) continue; double E = sample(*d, {u}); bool flat = (i + 1 < nodes.size() && cum[i + 1] == cum[i]) || cum[i] == cum[i - 1]; if (!flat) VC_EXPECT(std::fabs(E - nodes[i]) < 1e-4 * (hi - lo) + 1e-6, "table-node-quantile", h, " u=", u, " E=", E, " node ", nodes[i]); }
        V c = d->GetCDF(), cn = d->GetCDFEnergyNodes();
        VC_EXPECT(c.size() == cn.size() && !c.empty() && c.front() == 0 && vc::close(c.back(), 1, 1e-9), "table-cdf", h, " ", c.size(), " values for ", cn.size(), " energies");
        VC_EXPECT(d->GetEnergyNodes() == t.e, "table-nodes", h);
        for (size_t i = 0; i < c.size() && i < cn.size(); ++i) VC_EXPECT(std::fabs(d->InverseCDF(c[i]) - cn[i]) < 1e-6 * hi, "table-cdf-inverse", h);
        // changing the bounds afterwards is the same as constructing with them
        auto l = std::make_shared<TabulatedFluxDistribution>(t.e, t.f, false, false); l->SetEnergyBounds(lo, hi);
        auto cp = cl(*d);
        for (double u : grid(12)) { VC_EXPECT(vc::close(sample(*l, {u}), sample(*d, {u}), 1e-9, 1e-9), "table-late-bounds", h, " u=", u); VC_EXPECT(sample(*cp, {u}) == sample(*d, {u}), "table-clone", h); }
        for (double x : nodes) VC_EXPECT(vc::close(rho(*l, x), rho(*d, x), 1e-9, 1e-12) && vc::close(rho(*cp, x), rho(*d, x), 1e-12), "table-late-bounds-density", h);
        if (idx % 9 == 0) {   // the same table from a file, with comments and blank lines
            { std::ofstream o(file); o.precision(17); o << "# energy flux\n\n"; for (size_t i = 0; i < e.size(); ++i) o << (i % 2 ? "  " : "") << e[i] << "\t" << t.f[i] << (i % 2 ? " # c\n" : "\r\n") << (i == 2 ? "\n#x\n" : ""); }
            auto g = bounds ? std::make_shared<TabulatedFluxDistribution>(lo, hi, file, false, false) : std::make_shared<TabulatedFluxDistribution>(file, false, false);
            VC_EXPECT(*g == *d && vc::close(g->GetIntegral(), I, 1e-9) && g->GetEnergyNodes() == t.e, "table-file", h);
            for (double u : grid(5)) VC_EXPECT(vc::close(sample(*g, {u}), sample(*d, {u}), 1e-9, 1e-9), "table-file-sample", h);
        }
    }
    unlink(file.c_str());
    bool threw = false; try { TabulatedFluxDistribution x(file + ".missing"); } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw, "table-missing-file", "missing file accepted");
}
static void romberg() {   // smooth table, default (Romberg) integration
    for (int n : {20, 50}) for (int k = 0; k < 3; ++k) {
        V e, f; for (int i = 0; i <= n; ++i) { double x = 1 + 4.0 * i / n; e.push_back(x); f.push_back(k == 0 ? 2 : k == 1 ? x : std::exp(-x) + 0.3); }
        std::string h = vc::cat("smooth table ", n, " kind ", k); vc::state(h); vc::trace();
        TabulatedFluxDistribution d(e, f), t(e, f, false, false), b(1.5, 4.0, e, f);
        double I = quad([&](double E) { return d.SampleUnnormedPDF(E); }, 1, 5, n);
        VC_EXPECT(vc::close(d.GetIntegral(), I, 1e-3) && vc::close(t.GetIntegral(), I, 1e-3), "romberg-integral", h, " ", d.GetIntegral(), " ", t.GetIntegral(), " expected ", I);
        VC_EXPECT(vc::close(b.GetIntegral(), quad([&](double E) { return d.SampleUnnormedPDF(E); }, 1.5, 4.0, 400), 1e-3), "romberg-integral-bounds", h);
        auto cdf = [&](double E) { return quad([&](double x) { return rho(d, x); }, 1, E, 60); };
        for (double u : grid(64)) { double E = sample(d, {u}); VC_EXPECT(std::fabs(cdf(E) - uval(u)) < 2e-3, "romberg-quantile", h, " u=", u, " E=", E, " cdf ", cdf(E)); }
    }
}
static void rngs() {   // the shared random source itself
    auto r = rng();
    for (double u : grid(64)) for (auto b : std::vector<std::pair<double, double>>{{0, 1}, {-2, 3}, {5, 5}, {3, -2}}) {
        script({u}); double x = r->Uniform(b.first, b.second); vc::step(); vc::state(vc::cat("Uniform ", u, " ", b.first, " ", b.second));
        double lo = std::min(b.first, b.second), hi = std::max(b.first, b.second);
        VC_EXPECT(vc::close(x, lo + (hi - lo) * uval(u), 1e-12, 1e-12) && x >= lo && x <= hi, "uniform", "u=", u, " in ", lo, "..", hi, " gives ", x);
    }
    for (double n : {-3.0, -2.0, 0.0, 1.0, 2.5}) for (auto b : std::vector<std::pair<double, double>>{{1, 2}, {0.5, 10}, {2, 1}, {1, 1}}) for (double u : grid(64)) {
        script({u}); double x = r->PowerLaw(b.first, b.second, n); vc::step(); std::string h = vc::cat("PowerLaw ", b.first, "..", b.second, " n=", n, " u=", u); vc::state(h); vc::trace();
        double lo = std::min(b.first, b.second), hi = std::max(b.first, b.second), P = n + 1;
        double want = (std::pow(x, P) - std::pow(lo, P)) / (std::pow(hi, P) - std::pow(lo, P));
        VC_EXPECT(x >= lo * (1 - 1e-12) && x <= hi * (1 + 1e-12), "random-powerlaw-support", h, " gives ", x);
        if (lo < hi) VC_EXPECT(vc::close(want, uval(u), 1e-7, 1e-9), "random-powerlaw", h, " gives ", x, " cdf ", want);
    }
    for (uint64_t s : {1ull, 7ull, 123456789ull, ~0ull}) { siren::utilities::SIREN_random a(s), b(99); Eng::scripted = false; VC_EXPECT(a.get_seed() == s, "seed", s); b.set_seed(s); VC_EXPECT(b.get_seed() == s, "set-seed", s); for (int i = 0; i < 10; ++i) VC_EXPECT(a.Uniform() == b.Uniform(), "seed-reproducible", s); Eng::scripted = true; }
}
int main(int c, char **v) {
    return vc::run(c, v, {{"monoenergetic", mono, 0}, {"power-law", powerlaw, 0}, {"pion-decay-at-rest", pidar, 0}, {"moyal", moyals, 0}, {"table-linear", [] { tables(0); }, 0}, {"table-irregular", [] { tables(1); }, 0},
        {"table-log", [] { tables(2); }, 0}, {"table-irregular-positive", [] { tables(3); }, 0}, {"table-romberg", romberg, 0}, {"random-source", rngs, 0}});
}
