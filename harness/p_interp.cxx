// P11: table interpolation.
#include "vc.h"
#include "SIREN/utilities/Interpolator.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <algorithm>
using namespace siren::utilities;
typedef std::vector<double> V;
static bool evenly(V const &x) { double d = (x.back() - x.front()) / (x.size() - 1); for (size_t i = 1; i < x.size(); ++i) if (std::fabs(x[i] - x[i-1] - d) > 1e-6 * d) return false; return true; }
static V logs(V x) { for (auto &v : x) v = std::log(v); return x; }
// -1: no rule (either is allowed)
static int rule(V const &x) { if (x.front() > 0 && evenly(logs(x))) return 1; if (evenly(x)) return 0; if (x.front() <= 0) return 0; return -1; }
static size_t cell(V const &x, double q) { size_t i = 0; while (i + 2 < x.size() && q > x[i + 1]) ++i; return i; }
static double lerp(double a, double b, double t) { return a + (b - a) * t; }
static double ref1(V const &x, V const &f, bool lg, double q) {
    size_t i = cell(x, q); double a = f[i], b = f[i + 1], r;
    if (lg && a > 0 && b > 0) r = std::exp(lerp(std::log(a), std::log(b), (std::log(q) - std::log(x[i])) / (std::log(x[i + 1]) - std::log(x[i]))));
    else r = lerp(a, b, (q - x[i]) / (x[i + 1] - x[i]));
    return std::max(r, 0.0);
}
static V const GRIDS[] = {
    {0, 1, 2, 3}, {-1, 0, 1}, {1, 2, 4, 8}, {0.01, 0.1, 1, 10}, {0, 1, 3}, {-2, 0, 0.5, 4}, {1, 2, 5, 9}, {1, 3}, {0, 2}, {-3, -1}, {1e-3, 5e-3, 1, 2e4}, {-4, -3, -1.5, 7}, {1, 1.1, 1.2, 1.3}, {5, 6, 8, 9, 13}};
static V queries(V const &x) {
    V q;
    for (size_t i = 0; i < x.size(); ++i) { q.push_back(x[i]); double s = std::max(std::fabs(x[i]), 1e-3); q.push_back(x[i] + 1e-9 * s); q.push_back(x[i] - 1e-9 * s); }
    for (size_t i = 0; i + 1 < x.size(); ++i) for (double t : {0.1, 0.25, 0.5, 0.7, 0.95}) q.push_back(lerp(x[i], x[i + 1], t));
    double r = x.back() - x.front(); if (x.front() > 0) { q.push_back(x.front() * 0.7); q.push_back(x.back() * 1.3); } q.push_back(x.back() + 0.1 * r); if (x.front() <= 0) { q.push_back(x.front() - 0.1 * r); q.push_back(x.front() - 2 * r); }
    return q;
}
static std::string show(V const &v) { std::string s = "["; for (double d : v) s += vc::cat(d, " "); return s + "]"; }
static bool ok1(double got, double want, double scale) { return vc::close(got, want, 1e-7, 1e-7 * scale); }

static void one(int g) {
    V const &x = GRIDS[g]; size_t n = x.size(); V const F{0, 1, 2.5, 40};
    V q = queries(x);
    size_t total = 1; for (size_t i = 0; i < n; ++i) total *= F.size();
    for (size_t code = 0; code < total; ++code) {
        V f; size_t c = code; for (size_t i = 0; i < n; ++i) { f.push_back(F[c % F.size()]); c /= F.size(); }
        std::vector<int> perm(n); for (size_t i = 0; i < n; ++i) perm[i] = i;
        int np = 0;
        do {
            if (np++ && !vc::thorough() && code % 7 != 3) break;
            if (np > 24) break;
            TableData1D<double> t; for (int p : perm) { t.x.push_back(x[p]); t.f.push_back(f[p]); }
            std::string h = vc::cat("x=", show(t.x), " f=", show(t.f)); vc::note(h); vc::state(h); vc::trace();
            Interpolator1D<double> I(t);
            int r = rule(x); if (r >= 0) VC_EXPECT(I.IsLog() == bool(r), "log-choice", h, " IsLog=", I.IsLog());
            bool lg = I.IsLog();
            VC_EXPECT(vc::close(I.MinX(), x.front(), 1e-9, 1e-12) && vc::close(I.MaxX(), x.back(), 1e-9, 1e-12) && vc::close(I.RangeX(), x.back() - x.front(), 1e-9, 1e-12), "range", h);
            // a copy, an assigned copy and a reloaded table must behave the same
            Interpolator1D<double> C(I), A; A = I; Interpolator1D<double> L;
            if (np == 1) { std::stringstream ss; { cereal::BinaryOutputArchive o(ss); o(I); } { cereal::BinaryInputArchive in(ss); in(L); } VC_EXPECT(L == I && !(L < I) && !(I < L), "reload-equal", h); }
            for (double v : q) {
                if (lg && v <= 0) continue;
                double want = ref1(x, f, lg, v), got = I(v); vc::step();
                size_t i = cell(x, v); double scale = std::max(std::fabs(f[i]), std::fabs(f[i + 1]));
                char const *where = v < x.front() ? "below" : v > x.back() ? "above" : std::find(x.begin(), x.end(), v) != x.end() ? "node" : "inside";
                char const *zero = (f[i] > 0 && f[i + 1] > 0) ? "" : ":zero";
                VC_EXPECT(ok1(got, want, scale), vc::cat("value:", where, lg ? ":log" : ":lin", zero), h, " at ", v, " gives ", got, " expected ", want);
                if (np == 1) VC_EXPECT(C(v) == got && A(v) == got && L(v) == got, "copy-differs", h, " at ", v);
            }
        } while (std::next_permutation(perm.begin(), perm.end()));
    }
}
static double ref2(V const &x, V const &y, std::vector<V> const &f, bool lx, bool ly, double qx, double qy) {
    size_t i = cell(x, qx), j = cell(y, qy);
    double a = f[i][j], b = f[i][j + 1], c = f[i + 1][j], d = f[i + 1][j + 1];
    bool anyz = !(a > 0 && b > 0 && c > 0 && d > 0);
    bool uselog = (lx || ly) && !anyz;
    auto fr = [&](bool lg, double lo, double hi, double v) { return lg ? (std::log(v) - std::log(lo)) / (std::log(hi) - std::log(lo)) : (v - lo) / (hi - lo); };
    bool lin = (lx || ly) && anyz;
    double u = fr(lx && !lin, x[i], x[i + 1], qx), w = fr(ly && !lin, y[j], y[j + 1], qy);
    auto g = [&](double v) { return uselog ? std::log(v) : v; };
    double r = lerp(lerp(g(a), g(b), w), lerp(g(c), g(d), w), u);
    if (uselog) r = std::exp(r);
    return std::max(r, 0.0);
}
static V const G2X[] = {{0, 1, 2}, {1, 2, 4}, {1, 2, 5}, {-1, 0.5, 1}, {1, 3}};
static void two(int g) {
    V const &x = G2X[g / 5], &y = G2X[g % 5]; V const F{0, 1, 3.5};
    size_t n = x.size() * y.size();
    size_t total = 1; for (size_t i = 0; i < n; ++i) total *= F.size();
    size_t stride = vc::thorough() ? 1 : total > 1000 ? 7 : 1;   // quick: every 7th assignment (7 is coprime to 3: all local corner patterns occur)
    if (stride > 1) vc::R.exhaustive = false;
    for (size_t code = 0; code < total; code += stride) {
        std::vector<V> f(x.size(), V(y.size())); size_t c = code; TableData2D<double> t;
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) { f[i][j] = F[c % 3] * (1 + 0.1 * i + 0.03 * j); c /= 3; t.x.push_back(x[i]); t.y.push_back(y[j]); t.f.push_back(f[i][j]); }
        if (code % 2) { std::reverse(t.x.begin(), t.x.end()); std::reverse(t.y.begin(), t.y.end()); std::reverse(t.f.begin(), t.f.end()); }
        std::string h = vc::cat("x=", show(x), " y=", show(y), " f code ", code); vc::note(h); vc::state(h); vc::trace();
        Interpolator2D<double> I(t); Interpolator2D<double> C(I);
        int rx = rule(x), ry = rule(y);
        if (rx >= 0) VC_EXPECT(I.IsLogX() == bool(rx), "log-choice-x", h); if (ry >= 0) VC_EXPECT(I.IsLogY() == bool(ry), "log-choice-y", h);
        VC_EXPECT(vc::close(I.MinX(), x.front(), 1e-9, 1e-12) && vc::close(I.MaxX(), x.back(), 1e-9, 1e-12) && vc::close(I.MinY(), y.front(), 1e-9, 1e-12) && vc::close(I.MaxY(), y.back(), 1e-9, 1e-12), "range2", h);
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) {
            double got = I(x[i], y[j]); vc::step();
            VC_EXPECT(ok1(got, f[i][j], 4.5), "value2:node", h, " at ", x[i], ",", y[j], " gives ", got, " expected ", f[i][j]);
            VC_EXPECT(C(x[i], y[j]) == got, "copy2-differs", h);
        }
        for (size_t i = 0; i + 1 < x.size(); ++i) for (size_t j = 0; j + 1 < y.size(); ++j) for (double u : {0.2, 0.6}) for (double w : {0.3, 0.9}) {
            double qx = lerp(x[i], x[i + 1], u), qy = lerp(y[j], y[j + 1], w);
            double got = I(qx, qy), want = ref2(x, y, f, I.IsLogX(), I.IsLogY(), qx, qy); vc::step();
            VC_EXPECT(ok1(got, want, 4.5), I.IsLogX() || I.IsLogY() ? "value2:inside:log" : "value2:inside:lin", h, " at ", qx, ",", qy, " gives ", got, " expected ", want);
        }
        // outside, the edge cell is continued
        double xo = x.back() + 0.2 * (x.back() - x.front()), xl = x.front() > 0 ? x.front() * 0.8 : x.front() - 0.3, yo = y.back() + 0.1 * (y.back() - y.front()), yl = y.front() > 0 ? y.front() * 0.9 : y.front() - 0.2;
        for (double qx : {xl, xo, x[0]}) for (double qy : {yl, yo, lerp(y[0], y[1], 0.4)}) {
            double got = I(qx, qy), want = ref2(x, y, f, I.IsLogX(), I.IsLogY(), qx, qy); vc::step();
            VC_EXPECT(ok1(got, want, 4.5), "value2:outside", h, " at ", qx, ",", qy, " gives ", got, " expected ", want);
        }
    }
}
int main(int c, char **v) {
    std::vector<vc::Case> cs;
    for (size_t g = 0; g < sizeof(GRIDS) / sizeof(GRIDS[0]); ++g) cs.push_back({vc::cat("table1d-grid", g), [g] { one(g); }, 0});
    for (int g = 0; g < 25; ++g) cs.push_back({vc::cat("table2d-", g), [g] { two(g); }, 0});
    return vc::run(c, v, cs);
}
