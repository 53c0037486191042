// P13: density profiles: point value, derivative, line integral and inverse line integral are mutually consistent.
#include "vc.h"
#include <memory>
#include <sstream>
#include <functional>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Polynomial.h"
#include "SIREN/detector/DensityDistribution.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/RadialAxisExponentialDensityDistribution.h"
#include "SIREN/detector/DensityDistribution1D.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
using namespace siren::detector; using siren::math::Vector3D;
typedef std::vector<double> V;
struct P { double x, y, z; };
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P operator*(double s, P a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P a, P b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Vector3D v(P a) { return Vector3D(a.x, a.y, a.z); }
static std::string str(P a) { return vc::cat("(", a.x, ",", a.y, ",", a.z, ")"); }
struct D { std::string name; std::shared_ptr<DensityDistribution> d; std::function<double(P)> f; bool radial; P p0; bool smooth; };
static std::vector<D> all() {
    std::vector<D> r;
    struct Pr { std::string n; std::function<double(double)> f; V c; double s, a, x0; int kind; };
    std::vector<Pr> ps; for (V c : std::vector<V>{{2}, {1, 0.25}, {3, -0.5, 0.125}, {0.5, 0, 0, 0.0625}, {}}) ps.push_back({"poly" + vc::cat(c.size(), c.empty() ? 0 : c[0]), [c](double x) { double s = 0, p = 1; for (double a : c) { s += a * p; p *= x; } return s; }, c, 0, 0, 0, 1});
    for (auto q : std::vector<V>{{0.5, 1, 0}, {-0.5, 2, 1}, {-0.125, 0.75, -3}}) ps.push_back({vc::cat("exp", q[0], ",", q[1], ",", q[2]), [q](double x) { return q[1] * std::exp(q[0] * (x - q[2])); }, {}, q[0], q[1], q[2], 2});
    std::vector<std::pair<P, P>> cart = {{{1, 0, 0}, {0, 0, 0}}, {{0, 0, 1}, {1, 2, 3}}, {{0.6, 0, -0.8}, {-1, 0.5, 0}}, {{0, 2, 0}, {0, 1, 0}}}; std::vector<P> rad = {{0, 0, 0}, {1, -2, 0.5}};
    for (double c : {0.0, 1.0, 2.5}) r.push_back({vc::cat("constant ", c), std::make_shared<ConstantDensityDistribution>(c), [c](P) { return c; }, false, {0, 0, 0}, true});
    for (auto &p : ps) {
        for (auto &a : cart) { CartesianAxis1D ax(v(a.first), v(a.second)); std::shared_ptr<DensityDistribution> d; if (p.kind == 1) d = std::make_shared<CartesianAxisPolynomialDensityDistribution>(ax, PolynomialDistribution1D(p.c)); else d = std::make_shared<CartesianAxisExponentialDensityDistribution>(ax, ExponentialDistribution1D(p.s, p.a, p.x0));
            auto f = p.f; P n = a.first, o = a.second; r.push_back({"cartesian " + str(n) + str(o) + " " + p.n, d, [=](P x) { return f(dot(n, x + -1.0 * o)); }, false, o, true}); }
        for (auto &o : rad) { RadialAxis1D ax(v(o)); std::shared_ptr<DensityDistribution> d; if (p.kind == 1) d = std::make_shared<RadialAxisPolynomialDensityDistribution>(ax, PolynomialDistribution1D(p.c)); else d = std::make_shared<RadialAxisExponentialDensityDistribution>(ax, ExponentialDistribution1D(p.s, p.a, p.x0));
            auto f = p.f; P q = o; r.push_back({"radial " + str(q) + " " + p.n, d, [=](P x) { P w = x + -1.0 * q; return f(std::sqrt(dot(w, w))); }, true, q, true}); }
    }
    return r;
}
static double quad(std::function<double(double)> const &f, double a, double b, int n = 200) {
    static double const X[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, W[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    double s = 0, h = (b - a) / n; for (int i = 0; i < n; ++i) { double c = a + (i + 0.5) * h; for (int k = 0; k < 4; ++k) s += W[k] * (f(c + 0.5 * h * X[k]) + f(c - 0.5 * h * X[k])); } return 0.5 * h * s;
}
static std::vector<P> dirs() { std::vector<P> r; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) { double n = std::sqrt(x * x + y * y + z * z); r.push_back({x / n, y / n, z / n}); } r.push_back({0.8, 0, 0.6}); r.push_back({1e-9, 1, 0}); r.push_back({-3e-17, 0, 1}); r.push_back({std::sqrt(1 - 1e-6), 1e-3, 0}); return r; }
static std::vector<P> pts() { return {{0, 0, 0}, {1, 2, 3}, {-1.5, 0.25, 2}, {0.5, -2, -0.75}}; }
static void one(D &t) {
    for (auto &x : pts()) {
        double e = t.d->Evaluate(v(x)); vc::step();
        VC_EXPECT(vc::close(e, t.f(x), 1e-11, 1e-12), "density-value", t.name, " at ", str(x), " ", e, " expected ", t.f(x));
        for (auto &u : dirs()) {
            std::string h = t.name + " from " + str(x) + " along " + str(u); vc::note(h); vc::state(h);
            P w = x + -1.0 * t.p0; double imp2 = dot(w, w) - dot(w, u) * dot(w, u); bool centre = t.radial && imp2 < 1e-6;    // passes through the centre of a radial profile: kink
            // derivative along the direction
            double s = 1e-4, fd = (t.f(x + -2 * s * u) - 8 * t.f(x + -s * u) + 8 * t.f(x + s * u) - t.f(x + 2 * s * u)) / (12 * s);
            if (!(t.radial && dot(w, w) < 1e-6)) { double g = t.d->Derivative(v(x), v(u)); vc::step(); VC_EXPECT(std::fabs(g - fd) <= 1e-7 * (1 + std::fabs(fd)), "density-derivative", h, " ", g, " expected ", fd); }
            for (double L : {0.01, 1.0, 3.5, 10.0}) {
                auto g = [&](double q) { return t.f(x + q * u); };
                double want; if (centre) { double c = -dot(w, u); want = (c > 0 && c < L) ? quad(g, 0, c) + quad(g, c, L) : quad(g, 0, L); } else want = quad(g, 0, L);
                double rt = t.radial ? 1e-3 : 5e-6, tol = rt * std::fabs(want) + 1e-9, scale = std::fabs(want); vc::trace();
                double i1 = t.d->Integral(v(x), v(u), L), i2 = t.d->Integral(v(x), v(x + L * u)); vc::step(2);
                VC_EXPECT(std::fabs(i1 - want) <= tol, "density-integral", h, " length ", L, ": ", i1, " expected ", want);
                VC_EXPECT(std::fabs(i2 - want) <= tol, "density-integral-points", h, " length ", L, ": ", i2, " expected ", want);
                // what the antiderivatives differ by is the integral
                double ad = t.d->AntiDerivative(v(x + L * u), v(u)) - t.d->AntiDerivative(v(x), v(u)), am = std::fabs(t.d->AntiDerivative(v(x), v(u)));
                VC_EXPECT(std::isfinite(ad) && std::fabs(ad - want) <= rt * (scale + am + std::fabs(t.d->AntiDerivative(v(x + L * u), v(u)))) + 1e-9, "density-antiderivative", h, " length ", L, ": ", ad, " expected ", want);
                // inverse: every fraction of the integral is reached at the distance that accumulates it; more than the integral is refused
                bool positive = true; for (int k = 0; k <= 64; ++k) if (g(L * k / 64) < 1e-3) positive = false;
                for (double c : {0.0, 0.75}) for (double fr : {0.01, 0.5, 0.93, 1.05, 3.0}) {
                    if (c == 0 && !positive) continue;
                    bool mono = true; for (int k = 0; k <= 64; ++k) if (g(L * k / 64) + c < 1e-3) mono = false; if (!mono) continue;
                    double T = want + c * L, target = fr * T; 
                    for (int variant = 0; variant < 2; ++variant) { if (variant == 0 && c != 0) continue;
                        double dd = variant ? t.d->InverseIntegral(v(x), v(u), c, target, L) : t.d->InverseIntegral(v(x), v(u), target, L); vc::step();
                        if (fr > 1) { VC_EXPECT(dd == -1, "density-inverse-beyond", h, " max ", L, " constant ", c, " fraction ", fr, ": ", dd); continue; }
                        bool ok = dd >= 0 && dd <= L + 1e-5; double back = ok ? quad(g, 0, dd) + c * dd : 0, fmax = 0; for (int k = 0; k <= 16; ++k) fmax = std::max(fmax, g(L * k / 16) + c);
                        if (ok && centre) { double k = -dot(w, u); if (k > 0 && k < dd) back = quad(g, 0, k) + quad(g, k, dd) + c * dd; }
                        VC_EXPECT(ok && std::fabs(back - target) <= (rt + 5e-6) * std::fabs(T) + 1e-5 * fmax, "density-inverse", h, " max ", L, " constant ", c, " integral ", target, ": distance ", dd, " accumulates ", back);
                    } }
            }
        }
    }
}
static void laws() {
    auto a = all(), b = all();
    for (size_t i = 0; i < a.size(); ++i) {
        std::shared_ptr<DensityDistribution> c(a[i].d->clone()), m = a[i].d->create(), l; std::stringstream ss;
        { cereal::BinaryOutputArchive ar(ss); ar(a[i].d); } { cereal::BinaryInputArchive ar(ss); ar(l); }
        std::stringstream js; { cereal::JSONOutputArchive ar(js); ar(a[i].d); } std::shared_ptr<DensityDistribution> j; { cereal::JSONInputArchive ar(js); ar(j); } vc::step(4);
        int k = 0; for (auto *o : {c.get(), m.get(), l.get(), j.get()}) { ++k; VC_EXPECT(*o == *a[i].d && !(*o != *a[i].d), "density-copy-equal", a[i].name, " copy ", k);
            for (auto &x : pts()) for (auto &u : {P{0, 0, 1}, P{0.6, 0.8, 0}}) { VC_EXPECT(o->Evaluate(v(x)) == a[i].d->Evaluate(v(x)) && o->Derivative(v(x), v(u)) == a[i].d->Derivative(v(x), v(u)) && o->Integral(v(x), v(u), 2.0) == a[i].d->Integral(v(x), v(u), 2.0), "density-copy-behaviour", a[i].name, " copy ", k); } }
        for (size_t q = 0; q < b.size(); ++q) { vc::state(vc::cat(i, "vs", q)); vc::trace(); VC_EXPECT((*a[i].d == *b[q].d) == (i == q) && (*a[i].d != *b[q].d) == (i != q), "density-equality", a[i].name, " vs ", b[q].name); }
    }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> cs = {{"laws", laws, 100}}; auto n = all().size();
    for (size_t i = 0; i < n; ++i) cs.push_back({vc::cat("profile-", i), [i] { auto a = all(); one(a[i]); }, 400});
    return vc::run(argc, argv, cs);
}
