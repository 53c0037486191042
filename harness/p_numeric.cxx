// P12: numerical helpers (integration, polynomials, bracketed root finding) return what they promise.
#include "vc.h"
#include <memory>
#include <stdexcept>
#include "SIREN/math/Polynomial.h"
#include "SIREN/utilities/Integration.h"
using siren::math::Polynom; using namespace siren::utilities;
typedef std::vector<double> V;
static double ev(V const &c, double x) { long double s = 0, p = 1; for (double a : c) { s += a * p; p *= x; } return double(s); }
static double mag(V const &c, double x) { double s = 0, p = 1; for (double a : c) { s += std::fabs(a * p); p *= std::fabs(x); } return s; }
static std::string str(V const &c) { std::string s = "["; for (double a : c) s += vc::cat(a, " "); return s + "]"; }
static void enumerate(size_t maxlen, V const &al, std::function<void(V const &)> f) { for (size_t n = 0; n <= maxlen; ++n) { size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= al.size(); for (size_t k = 0; k < tot; ++k) { V c; size_t q = k; for (size_t i = 0; i < n; ++i) { c.push_back(al[q % al.size()]); q /= al.size(); } f(c); } } }
static void polynomials() {
    V xs = {-3, -1, -0.5, 0, 0.25, 1, 2.5}, sh = {-2, -0.75, -1e-3, 0, 1e-3, 0.5, 1, 3}; size_t len = vc::thorough() ? 6 : 5;
    enumerate(len, {-2, 0, 0.5, 3}, [&](V const &c) {
        std::string h = "polynomial " + str(c); vc::note(h); vc::state(h); vc::trace();
        Polynom p(c); std::unique_ptr<Polynom> q(p.clone());
        VC_EXPECT(p.GetCoefficient() == c && p == *q && !(p != *q), "poly-copy", h);
        for (size_t i = 0; i < c.size(); ++i) { V d = c; d[i] += 1; VC_EXPECT(p != Polynom(d) && !(p == Polynom(d)), "poly-equality", h); }
        { V d = c; d.push_back(1); VC_EXPECT(p != Polynom(d), "poly-equality-length", h); }
        Polynom der = p.GetDerivative(), anti = p.GetAntiderivative(1.25); auto fn = q->GetFunction();
        V dc; for (size_t i = 1; i < c.size(); ++i) dc.push_back(c[i] * i); V ac = {1.25}; for (size_t i = 0; i < c.size(); ++i) ac.push_back(c[i] / (i + 1));
        for (double x : xs) { vc::step(4); double e = 1e-12 * (1 + mag(c, x)) * 10;
            VC_EXPECT(std::fabs(p.evaluate(x) - ev(c, x)) <= e, "poly-evaluate", h, " x=", x, " ", p.evaluate(x));
            VC_EXPECT(fn(x) == p.evaluate(x), "poly-function", h, " x=", x);
            VC_EXPECT(std::fabs(der.evaluate(x) - ev(dc, x)) <= 1e-11 * (1 + mag(dc, x)), "poly-derivative", h, " x=", x, " ", der.evaluate(x));
            VC_EXPECT(std::fabs(anti.evaluate(x) - ev(ac, x)) <= 1e-11 * (1 + mag(ac, x)), "poly-antiderivative", h, " x=", x, " ", anti.evaluate(x)); }
        for (double s : sh) { Polynom a(c), b(c); a.shift(s); b.scale(s); vc::step(2);
            for (double x : xs) { VC_EXPECT(std::fabs(a.evaluate(x) - ev(c, x + s)) <= 1e-9 * (1 + mag(c, std::fabs(x) + std::fabs(s))), "poly-shift", h, " shift ", s, " x=", x, " ", a.evaluate(x), " expected ", ev(c, x + s));
                VC_EXPECT(std::fabs(b.evaluate(x) - ev(c, x * s)) <= 1e-11 * (1 + mag(c, x * s)), "poly-scale", h, " scale ", s, " x=", x, " ", b.evaluate(x)); } }
        Polynom t(V{7}); t = p; VC_EXPECT(t == p, "poly-assign", h);
    });
}
static void roots() {
    // all products of (x - r) over small root sets, all brackets with a sign change, several starting points
    V rs = {-2, -0.5, 0, 0.3, 1.7}, gr = {-3, -1, -0.6, -0.1, 0, 0.1, 0.31, 1, 2, 4};
    for (int m = 1; m < 32; ++m) for (double lead : {1.0, -2.5, 1e-3}) {
        V c = {lead}, in; for (int i = 0; i < 5; ++i) if (m >> i & 1) { in.push_back(rs[i]); V n(c.size() + 1, 0.0); for (size_t k = 0; k < c.size(); ++k) { n[k + 1] += c[k]; n[k] -= rs[i] * c[k]; } c = n; }
        auto f = [&](double x) { double v = lead; for (double r : in) v *= x - r; return v; };
        auto df = [&](double x) { double s = 0; for (size_t i = 0; i < in.size(); ++i) { double v = lead; for (size_t k = 0; k < in.size(); ++k) if (k != i) v *= x - in[k]; s += v; } return s; };
        for (double a : gr) for (double b : gr) if (a < b) for (double q : {0.0, 0.3, 0.5, 1.0}) for (double acc : {1e-6, 1e-10}) {
            double x0 = a + q * (b - a); std::string h = vc::cat("roots ", str(in), " lead ", lead, " in [", a, ",", b, "] from ", x0, " acc ", acc); vc::note(h); vc::state(h); vc::trace(); vc::step();
            double fa = f(a), fb = f(b); bool threw = false; double r = 0;
            try { r = siren::math::NewtonRaphson(f, df, a, b, x0, 101, acc); } catch (siren::math::MathException const &) { threw = true; }
            VC_EXPECT(threw == (fa * fb > 0), "root-bracket", h, threw ? " refused" : " accepted"); if (threw) continue;
            double best = 1e9; for (double t : in) if (t >= a && t <= b) best = std::min(best, std::fabs(r - t));
            VC_EXPECT(r >= a - acc && r <= b + acc, "root-outside", h, " returned ", r);
            VC_EXPECT(best < 20 * acc, "root-wrong", h, " returned ", r, ", off by ", best);
        }
    }
}
static void trapezoid() {
    V al = {-1, 0, 0.5, 2}, gaps = {0.25, 1, 3};
    for (size_t n = 0; n <= (vc::thorough() ? 5u : 4u); ++n) { size_t gt = 1, vt = 1; for (size_t i = 0; i + 1 < n; ++i) gt *= 3; for (size_t i = 0; i < n; ++i) vt *= 4;
        for (size_t g = 0; g < gt; ++g) for (size_t v = 0; v < vt; ++v) {
            V x, y; size_t q = g, w = v; double p = -1; for (size_t i = 0; i < n; ++i) { if (i) { p += gaps[q % 3]; q /= 3; } x.push_back(p); y.push_back(al[w % 4]); w /= 4; }
            std::string h = vc::cat("x ", str(x), " y ", str(y)); vc::note(h); vc::state(h); vc::trace(); vc::step();
            auto integral = [&](double lo, double hi) { double s = 0; for (size_t i = 1; i < n; ++i) { double a = std::max(lo, x[i - 1]), b = std::min(hi, x[i]); if (a >= b) continue; auto at = [&](double t) { return y[i - 1] + (y[i] - y[i - 1]) * (t - x[i - 1]) / (x[i] - x[i - 1]); }; s += 0.5 * (at(a) + at(b)) * (b - a); } return s; };
            double full = n ? integral(x.front(), x.back()) : 0; VC_EXPECT(vc::close(trapezoidIntegrate(x, y), full, 1e-12, 1e-12), "trapezoid-full", h, " ", trapezoidIntegrate(x, y), " expected ", full);
            V b = {-5, 20}; for (size_t i = 0; i < n; ++i) { b.push_back(x[i]); if (i) { b.push_back(0.75 * x[i - 1] + 0.25 * x[i]); b.push_back(0.5 * (x[i - 1] + x[i])); } }
            for (double lo : b) for (double hi : b) if (lo <= hi) { double r = trapezoidIntegrate(x, y, lo, hi), e = integral(lo, hi); vc::step(); VC_EXPECT(vc::close(r, e, 1e-12, 1e-12), "trapezoid-bounds", h, " in [", lo, ",", hi, "] ", r, " expected ", e); }
            V yy = y; yy.push_back(0); int refused = 0; try { trapezoidIntegrate(x, yy); } catch (std::runtime_error const &) { ++refused; } try { trapezoidIntegrate(x, yy, 0, 1); } catch (std::runtime_error const &) { ++refused; } VC_EXPECT(refused == 2, "trapezoid-size-mismatch", h);
        } }
}
struct F { std::string n; std::function<double(double)> f, P; };
static std::vector<F> funcs() {
    std::vector<F> r;
    for (double a : {-2.0, 0.0, 1.0}) for (double b : {-1.0, 0.0, 3.0}) for (int k : {1, 2, 3, 5, 8}) r.push_back({vc::cat(a, "+", b, "x^", k), [=](double x) { return a + b * std::pow(x, k); }, [=](double x) { return a * x + b * std::pow(x, k + 1) / (k + 1); }});
    for (double k : {-2.0, -0.5, 1.0, 3.0}) r.push_back({vc::cat("exp ", k), [=](double x) { return std::exp(k * x); }, [=](double x) { return std::exp(k * x) / k; }});
    for (double k : {0.5, 2.0, 7.0}) r.push_back({vc::cat("2+sin ", k), [=](double x) { return 2 + std::sin(k * x); }, [=](double x) { return 2 * x - std::cos(k * x) / k; }});
    r.push_back({"1/(1+x^2)", [](double x) { return 1 / (1 + x * x); }, [](double x) { return std::atan(x); }});
    return r;
}
static void romberg() {
    V ends = {-2, -1, 0, 0.5, 1, 3};
    for (auto &F_ : funcs()) for (double a : ends) for (double b : ends) if (a < b) for (double tol : {1e-3, 1e-6, 1e-9}) {
        std::string h = vc::cat(F_.n, " on [", a, ",", b, "] tol ", tol); vc::note(h); vc::state(h); vc::trace(); vc::step();
        double want = F_.P(b) - F_.P(a), scale = 0; for (int i = 0; i <= 20; ++i) scale = std::max(scale, std::fabs(F_.f(a + (b - a) * i / 20))); scale *= b - a;
        try { double r = rombergIntegrate(F_.f, a, b, tol); VC_EXPECT(std::fabs(r - want) <= 20 * tol * std::fabs(want) + 1e-12 * scale, "romberg", h, " ", r, " expected ", want); vc::count("converged"); }
        catch (std::runtime_error const &) { VC_EXPECT(std::fabs(want) < 1e-6 * scale, "romberg-refused", h, " expected ", want); }
        TrapezoidalIntegrator<std::function<double(double)>> t(F_.f, a, b);
        for (unsigned d : {0u, 2u, 1u, 4u}) { double r = t.integrate(d); unsigned n = 1u << std::max(d, d == 1 ? 2u : d); double s = 0, dx = (b - a) / n; for (unsigned i = 0; i < n; ++i) s += 0.5 * dx * (F_.f(a + i * dx) + F_.f(a + (i + 1) * dx)); VC_EXPECT(vc::close(r, s, 1e-11, 1e-12 * scale), "trapezoid-rule", h, " detail ", d, " ", r, " expected ", s); }
    }
    bool threw = false; try { rombergIntegrate([](double x) { return x; }, 0, 1, -1); } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw, "romberg-negative-tolerance", "");
}
static void simpson() {
    auto fs = funcs(); V ends = {-1, 0, 0.5, 2};
    for (size_t i = 0; i < fs.size(); i += 3) for (size_t j = 1; j < fs.size(); j += 4) for (double a : ends) for (double b : ends) if (a < b) for (double tol : {1e-3, 1e-5}) {
        double c = -0.5, d = b * 0.75 + 1; auto g = [&](double x, double y) { return fs[i].f(x) * fs[j].f(y) + 3 * x * y; };
        double want = (fs[i].P(b) - fs[i].P(a)) * (fs[j].P(d) - fs[j].P(c)) + 0.75 * (b * b - a * a) * (d * d - c * c), scale = 0; for (int p = 0; p <= 8; ++p) for (int q = 0; q <= 8; ++q) scale = std::max(scale, std::fabs(g(a + (b - a) * p / 8, c + (d - c) * q / 8))); scale *= (b - a) * (d - c);
        if (std::fabs(want) < 1e-2 * scale) continue;       // heavy cancellation: relative tolerance is not meaningful
        std::string h = vc::cat(fs[i].n, " * ", fs[j].n, " on [", a, ",", b, "]x[", c, ",", d, "] tol ", tol); vc::note(h); vc::state(h); vc::trace(); vc::step();
        double r = 0; bool threw = false; try { r = simpsonIntegrate2D(g, a, b, c, d, tol); } catch (std::runtime_error const &) { threw = true; }
        VC_EXPECT(!threw && std::fabs(r - want) <= tol * scale + 1e-12, "simpson", h, " ", r, " expected ", want);
        // the rule is exact for cubics whatever the numbers of intervals
        auto cub = [&](double x, double y) { return (1 + x * x * x) * (2 - y * y + y * y * y); }; double cw = ((b - a) + (std::pow(b, 4) - std::pow(a, 4)) / 4) * (2 * (d - c) - (d * d * d - c * c * c) / 3 + (std::pow(d, 4) - std::pow(c, 4)) / 4);
        for (unsigned n1 : {2u, 4u, 10u}) for (unsigned n2 : {2u, 6u}) { double v = simpsonIntegrate2D(cub, a, b, c, d, tol, n1, n2); VC_EXPECT(vc::close(v, cw, 1e-9, 1e-9), "simpson-cubic", h, " intervals ", n1, "x", n2, " ", v, " expected ", cw); }
    }
}
int main(int argc, char **argv) { return vc::run(argc, argv, {{"polynomials", polynomials, 300}, {"roots", roots, 300}, {"trapezoid", trapezoid, 300}, {"romberg", romberg, 300}, {"simpson", simpson, 300}}); }
