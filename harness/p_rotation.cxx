// P15: vectors, matrices, quaternions, Euler angles and placements all describe the same rotations.
#include "vc.h"
#include <array>
#include <sstream>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/math/Conversions.h"
#include "SIREN/math/EulerQuaternionConversions.h"
#include "SIREN/geometry/Placement.h"
using namespace siren::math;
using siren::geometry::Placement;
typedef std::array<double, 3> V; typedef std::array<std::array<double, 3>, 3> M;
static V v3(Vector3D const &v) { return {v.GetX(), v.GetY(), v.GetZ()}; }
static Vector3D sv(V const &a) { return Vector3D(a[0], a[1], a[2]); }
static double dot(V const &a, V const &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double len(V const &a) { return std::sqrt(dot(a, a)); }
static V cross(V const &a, V const &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static M mul(M const &a, M const &b) { M c{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) c[i][j] += a[i][k] * b[k][j]; return c; }
static V mul(M const &a, V const &b) { V c{}; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) c[i] += a[i][k] * b[k]; return c; }
static M tr(M const &a) { M c{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[i][j] = a[j][i]; return c; }
static M elem(int ax, double t) { M m{}; for (int i = 0; i < 3; ++i) m[i][i] = 1; int a = (ax + 1) % 3, b = (ax + 2) % 3; m[a][a] = m[b][b] = std::cos(t); m[a][b] = -std::sin(t); m[b][a] = std::sin(t); return m; }
static M sm(Matrix3D const &m) { return {V{m.GetXX(), m.GetXY(), m.GetXZ()}, V{m.GetYX(), m.GetYY(), m.GetYZ()}, V{m.GetZX(), m.GetZY(), m.GetZZ()}}; }
static Matrix3D ms(M const &m) { return Matrix3D(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]); }
static double diff(M const &a, M const &b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = std::fabs(a[i][j] - b[i][j]); if (!(e <= d)) d = e; } return d; }
static double diff(V const &a, V const &b) { double d = 0; for (int i = 0; i < 3; ++i) { double e = std::fabs(a[i] - b[i]); if (!(e <= d)) d = e; } return d; }
// rotation matrix of a quaternion, from the axis-angle (Rodrigues) form rather than the quaternion product
static M rod(double x, double y, double z, double w) {
    V u{x, y, z}; double s = len(u), ang = 2 * std::atan2(s, w); M m{}; for (int i = 0; i < 3; ++i) m[i][i] = 1; if (s == 0) return m;
    for (auto &c : u) c /= s; M K{V{0, -u[2], u[1]}, V{u[2], 0, -u[0]}, V{-u[1], u[0], 0}}; M K2 = mul(K, K); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] += std::sin(ang) * K[i][j] + (1 - std::cos(ang)) * K2[i][j]; return m;
}
static M rotm(Quaternion const &q, bool inv = false) { M m{}; for (int j = 0; j < 3; ++j) { V e{}; e[j] = 1; V r = v3(q.rotate(sv(e), inv)); for (int i = 0; i < 3; ++i) m[i][j] = r[i]; } return m; }
static std::string st(V const &a) { return vc::cat("(", a[0], ",", a[1], ",", a[2], ")"); }
static std::string st(Quaternion const &q) { return vc::cat("q(", q.GetX(), ",", q.GetY(), ",", q.GetZ(), ";", q.GetW(), ")"); }
static const double PI = std::acos(-1.0);

static void vectors() {
    std::vector<double> al = {-2, -0.5, 0, 1, 3}; std::vector<V> vs; for (double x : al) for (double y : al) for (double z : al) vs.push_back({x, y, z});
    vs.push_back({1e-9, 2, -3}); vs.push_back({1e5, -1e-5, 7});
    for (auto &a : vs) {
        vc::note(st(a)); vc::state("v" + st(a)); vc::trace(); Vector3D A = sv(a);
        VC_EXPECT(v3(-A) == (V{-a[0], -a[1], -a[2]}) && v3(A.inverted()) == v3(-A), "negate", st(a));
        VC_EXPECT(vc::close(A.magnitude(), len(a), 1e-14), "magnitude", st(a)); Vector3D n = A.normalized(), c(A); c.normalize();
        if (len(a) == 0) VC_EXPECT(v3(n) == a && v3(c) == a, "normalize-zero", st(a));
        else VC_EXPECT(vc::close(n.magnitude(), 1, 1e-14) && diff(v3(n), V{a[0] / len(a), a[1] / len(a), a[2] / len(a)}) < 1e-14 && v3(n) == v3(c) && v3(A) == a, "normalize", st(a));
        std::array<double, 3> ar = A; VC_EXPECT(ar == a && v3(Vector3D(ar)) == a, "array-conversion", st(a));
        { Vector3D s(A); s.CalculateSphericalCoordinates(); vc::step(); VC_EXPECT(vc::close(s.GetRadius(), len(a), 1e-14) && v3(s) == a, "spherical-radius", st(a));
          VC_EXPECT(s.GetTheta() >= 0 && s.GetTheta() <= PI + 1e-15, "spherical-range", st(a)); Vector3D t; t.SetSphericalCoordinates(s.GetRadius(), s.GetPhi(), s.GetTheta()); t.CalculateCartesianFromSpherical();
          VC_EXPECT(diff(v3(t), a) <= 1e-9 * (len(a) + 1e-12), "spherical-roundtrip", st(a), " -> ", st(v3(t)));
          if (len(a) > 0) VC_EXPECT(vc::close(std::cos(s.GetTheta()) * len(a), a[2], 1e-9, 1e-9 * len(a)) && vc::close(len(a) * std::sin(s.GetTheta()) * std::cos(s.GetPhi()), a[0], 1e-9, 1e-9 * len(a)), "spherical-angles", st(a));
          Vector3D cp(s), as, sw; as = s; Vector3D other(9, 8, 7); sw = other; sw.swap(cp); VC_EXPECT(as == s && !(as != s) && sw == s && v3(cp) == (V{9, 8, 7}) && !(as < s) && !(s < as), "copy-equality", st(a));
          Vector3D mv(std::move(as)); VC_EXPECT(mv == s, "move", st(a)); Vector3D ma; ma = std::move(mv); VC_EXPECT(ma == s, "move-assign", st(a));
          for (int bin = 0; bin < 2; ++bin) { std::stringstream ss; Vector3D r; if (bin) { { cereal::BinaryOutputArchive o(ss); o(s); } cereal::BinaryInputArchive i(ss); i(r); } else { { cereal::JSONOutputArchive o(ss); o(s); } cereal::JSONInputArchive i(ss); i(r); } VC_EXPECT(r == s, "serialize-vector", st(a)); } }
        for (auto &b : vs) { Vector3D B = sv(b); vc::step(); Vector3D p(A), m(A); p += B; m -= B;
            V sum{a[0] + b[0], a[1] + b[1], a[2] + b[2]}, dif{a[0] - b[0], a[1] - b[1], a[2] - b[2]};
            VC_EXPECT(v3(A + B) == sum && v3(p) == sum && v3(A - B) == dif && v3(m) == dif, "add-sub", st(a), st(b));
            VC_EXPECT(vc::close(A * B, dot(a, b), 1e-12, 1e-15 * len(a) * len(b)) && scalar_product(A, B) == A * B, "dot", st(a), st(b));
            VC_EXPECT(diff(v3(cross_product(A, B)), cross(a, b)) <= 1e-14 * (len(a) * len(b)) && v3(vector_product(A, B)) == v3(cross_product(A, B)), "cross", st(a), st(b));
            VC_EXPECT((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b), "compare", st(a), st(b)); }
        for (double f : {-2., 0., 0.25, 3.}) { Vector3D x(A), y(A); x *= f; V w{f * a[0], f * a[1], f * a[2]}; VC_EXPECT(v3(A * f) == w && v3(f * A) == w && v3(x) == w, "scale", st(a)); if (f != 0) { y /= f; V d{a[0] / f, a[1] / f, a[2] / f}; VC_EXPECT(diff(v3(A / f), d) <= 1e-15 * len(a) && diff(v3(y), d) <= 1e-15 * len(a), "divide", st(a)); } }
    }
    // deflection of unit vectors: angle to the old direction and right-handed azimuth
    for (auto &a0 : vs) if (len(a0) > 0) { Vector3D a = sv(a0).normalized(); for (double c : {-1., -0.999, -0.3, 0., 0.5, 0.999999, 1.}) { std::vector<V> ring; for (int k = 0; k < 8; ++k) { Vector3D d(a); double th = k * PI / 4; d.deflect(c, th); vc::step(); vc::state(vc::cat("deflect", st(a0), c, " ", k)); V dv = v3(d);
            VC_EXPECT(std::fabs(len(dv) - 1) < 1e-7 && std::fabs(dot(dv, v3(a)) - c) < 1e-7, "deflect-angle", st(a0), " cos ", c, " theta ", th, " -> ", st(dv)); ring.push_back(dv); }
        if (std::fabs(c) < 0.9999) for (int k = 0; k < 8; ++k) { V p = ring[k], q = ring[(k + 1) % 8], n = v3(a); V e{p[0] - c * n[0], p[1] - c * n[1], p[2] - c * n[2]}, f{q[0] - c * n[0], q[1] - c * n[1], q[2] - c * n[2]}; double s = std::sqrt(1 - c * c); VC_EXPECT(std::fabs(dot(cross(e, f), n) / s / s - std::sin(PI / 4)) < 1e-6 && std::fabs(dot(e, f) / s / s - std::cos(PI / 4)) < 1e-6, "deflect-azimuth", st(a0), " cos ", c, " step ", k); } } }
}
static void matrices() {
    std::vector<M> ms_; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { M m{}; m[i][j] = 1; ms_.push_back(m); m[j][i] += 2; m[0][0] += 0.5; ms_.push_back(m); }
    { double k = 1; M m; for (auto &r : m) for (auto &c : r) c = (k += 0.75) * (int(k) % 2 ? 1 : -1); ms_.push_back(m); for (auto &r : m) for (auto &c : r) c = (k *= 1.3); ms_.push_back(m); }
    ms_.push_back(elem(0, 1)); ms_.push_back(elem(1, -2)); ms_.push_back(mul(elem(2, 0.4), elem(1, 2.2)));
    for (size_t i = 0; i < ms_.size(); ++i) { M a = ms_[i]; Matrix3D A = ms(a); vc::state(vc::cat("m", i)); vc::trace(); vc::note(vc::cat("matrix ", i));
        VC_EXPECT(sm(A) == a, "matrix-access", i); for (unsigned r = 0; r < 3; ++r) for (unsigned c = 0; c < 3; ++c) { VC_EXPECT((A[{r, c}]) == a[r][c], "matrix-index", i, " ", r, c); Matrix3D B(A); B[{r, c}] = 42; M b = a; b[r][c] = 42; VC_EXPECT(sm(B) == b && (B == A) == (a == b) && (B != A) == (a != b), "matrix-index-write", i); }
        for (int f = 0; f < 3; ++f) { double s = f == 0 ? -2 : f == 1 ? 0.5 : 4; M w = a; for (auto &r : w) for (auto &c : r) c *= s; Matrix3D x(A), y(A); x *= s; y /= 1 / s; VC_EXPECT(sm(A * s) == w && sm(s * A) == w && sm(x) == w && sm(A / (1 / s)) == w && sm(y) == w, "matrix-scale", i); }
        M neg = a; for (auto &r : neg) for (auto &c : r) c = -c; VC_EXPECT(sm(-A) == neg, "matrix-negate", i);
        for (int v = 0; v < 27; ++v) { V x{v % 3 - 1., v / 3 % 3 * 2 - 1., v / 9 * 1.5}; VC_EXPECT(diff(v3(A * sv(x)), mul(a, x)) < 1e-12, "matrix-vector", i, st(x)); vc::step(); }
        Matrix3D cp(A), as; as = A; Matrix3D mv(std::move(cp)); Matrix3D sw, id; sw.swap(as); VC_EXPECT(mv == A && sw == A && as == id, "matrix-copy", i);
        for (auto &b : ms_) { Matrix3D B = ms(b), p(A); p += B; M s = a, d = a; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { s[r][c] += b[r][c]; d[r][c] -= b[r][c]; } vc::step(); VC_EXPECT(sm(A + B) == s && sm(p) == s && sm(A - B) == d, "matrix-add", i); VC_EXPECT(diff(sm(A * B), mul(a, b)) < 1e-9 && diff(sm(matrix_product(A, B)), mul(a, b)) < 1e-9, "matrix-product", i); } }
}
static void quaternions() {
    std::vector<Quaternion> qs; int L = 2; for (int x = -L; x <= L; ++x) for (int y = -L; y <= L; ++y) for (int z = -L; z <= L; ++z) for (int w = -L; w <= L; ++w) if (x || y || z || w) qs.push_back(Quaternion(x, y, z, w));
    for (double e : {1e-4, 1e-7}) { qs.push_back(Quaternion(e, 0, 0, 1)); qs.push_back(Quaternion(0, e, 1, 0)); qs.push_back(Quaternion(0, 0, 1, -e)); qs.push_back(Quaternion(1, -2 * e, e, 3)); }
    std::vector<V> ps = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}};
    for (auto &q : qs) {
        vc::note(st(q)); vc::state(st(q)); vc::trace(); M m = rod(q.GetX(), q.GetY(), q.GetZ(), q.GetW()); Quaternion u = q.normalized(), c(q); c.normalize();
        VC_EXPECT(vc::close(u.magnitude(), 1, 1e-14) && u == c && vc::close(u.magnitudesq(), 1, 1e-14) && vc::close(q.magnitudesq(), q.DotProduct(q), 1e-14) && vc::close(u.DotProduct(q), q.magnitude(), 1e-14), "q-normalize", st(q));
        VC_EXPECT(diff(rotm(q), m) < 1e-12 && diff(rotm(u), m) < 1e-12, "q-rotate", st(q)); VC_EXPECT(diff(rotm(q, true), tr(m)) < 1e-12 && diff(rotm(q.inverted()), tr(m)) < 1e-12 && diff(rotm(!q), tr(m)) < 1e-12 && diff(rotm(~q), tr(m)) < 1e-12 && diff(rotm(q.conjugated()), tr(m)) < 1e-12, "q-inverse", st(q));
        for (auto &p : ps) { Quaternion P(sv(p)); P.SetW(0.75); Quaternion r = q.rotate(P, false), ri = q.rotate(P, true); VC_EXPECT(diff(V{r.GetX(), r.GetY(), r.GetZ()}, mul(m, p)) < 1e-11 && diff(V{ri.GetX(), ri.GetY(), ri.GetZ()}, mul(tr(m), p)) < 1e-11 && vc::close(r.GetW(), 0.75, 1e-12), "q-rotate-q", st(q)); }
        VC_EXPECT(diff(sm(u.GetMatrix()), m) < 1e-12 && diff(sm(Matrix3DFromQuaternion(q)), m) < 1e-12, "q-matrix", st(q)); Quaternion b; b.SetMatrix(ms(m)); VC_EXPECT(diff(rotm(b), m) < 1e-7 && vc::close(b.magnitude(), 1, 1e-7), "q-from-matrix", st(q), " -> ", st(b));
        Quaternion one = q * q.inverted(), one2 = q.inverted() * q; VC_EXPECT(std::fabs(one.GetW() - 1) + std::fabs(one.GetX()) + std::fabs(one.GetY()) + std::fabs(one.GetZ()) < 1e-13 && std::fabs(one2.GetW() - 1) + std::fabs(one2.GetX()) + std::fabs(one2.GetY()) + std::fabs(one2.GetZ()) < 1e-13, "q-times-inverse", st(q));
        Vector3D ax; double an; u.GetAxisAngle(ax, an); Quaternion a; a.SetAxisAngle(ax, an); VC_EXPECT(vc::close(ax.magnitude(), 1, 1e-12) && diff(rotm(a), m) < 1e-11, "q-axis-angle", st(q), " axis ", st(v3(ax)), " angle ", an); auto tp = u.GetAxisAngle(); VC_EXPECT(v3(std::get<0>(tp)) == v3(ax) && std::get<1>(tp) == an, "q-axis-angle-tuple", st(q));
        Quaternion cp(q), as; as = q; Quaternion mv(std::move(cp)), sw; sw.swap(as); VC_EXPECT(mv == q && sw == q && as == Quaternion() && !(q < mv) && !(q != mv), "q-copy", st(q));
        for (int bin = 0; bin < 2; ++bin) { std::stringstream ss; Quaternion r; if (bin) { { cereal::BinaryOutputArchive o(ss); o(q); } cereal::BinaryInputArchive i(ss); i(r); } else { { cereal::JSONOutputArchive o(ss); o(q); } cereal::JSONInputArchive i(ss); i(r); } VC_EXPECT(r == q, "serialize-quaternion", st(q)); }
        for (double f : {-2., 0.5}) { Quaternion x(q); x *= f; VC_EXPECT(x == q * f && x == Quaternion(q.GetX() * f, q.GetY() * f, q.GetZ() * f, q.GetW() * f), "q-scale", st(q)); Quaternion y(q); y += f; VC_EXPECT(y == q + f && y == Quaternion(q.GetX() + f, q.GetY() + f, q.GetZ() + f, q.GetW() + f), "q-add-scalar", st(q)); }
        size_t stride = vc::thorough() ? 1 : 7; for (size_t j = 0; j < qs.size(); j += stride) { auto &p = qs[j]; vc::step(); M w = mul(m, rod(p.GetX(), p.GetY(), p.GetZ(), p.GetW())); VC_EXPECT(diff(rotm(q * p), w) < 1e-11, "q-compose", st(q), st(p)); VC_EXPECT(q + p == Quaternion(q.GetX() + p.GetX(), q.GetY() + p.GetY(), q.GetZ() + p.GetZ(), q.GetW() + p.GetW()), "q-add", st(q));
            Quaternion v = p.normalized(); double d = u.DotProduct(v); if (d > -0.999) for (double t : {0., 0.25, 0.5, 1.}) { Quaternion s = Quaternion::slerp(u, v, t); double th = std::acos(std::min(1.0, d)); VC_EXPECT(vc::close(s.magnitude(), 1, 1e-9) && std::fabs(s.DotProduct(u) - std::cos(t * th)) < 1e-7 && std::fabs(s.DotProduct(v) - std::cos((1 - t) * th)) < 1e-7, "q-slerp", st(q), st(p), " t=", t, " -> ", st(s)); Quaternion l = Quaternion::lerp(q, p, t); VC_EXPECT(vc::close(l.GetX(), q.GetX() * (1 - t) + p.GetX() * t, 1e-12, 1e-12) && vc::close(l.GetY(), q.GetY() * (1 - t) + p.GetY() * t, 1e-12, 1e-12) && vc::close(l.GetZ(), q.GetZ() * (1 - t) + p.GetZ() * t, 1e-12, 1e-12) && vc::close(l.GetW(), q.GetW() * (1 - t) + p.GetW() * t, 1e-12, 1e-12), "q-lerp", st(q)); } }
    }
    for (double an = -6.0; an <= 6.01; an += 0.5) for (auto &ax : std::vector<V>{{0, 0, 1}, {0, 0, -5}, {1, 1, 0}, {-1, 2, 0.5}}) { Quaternion q; q.SetAxisAngle(sv(ax), an); double s = std::sin(an / 2) / len(ax); vc::state(vc::cat("axis", st(ax), an)); VC_EXPECT(diff(rotm(q), rod(s * ax[0], s * ax[1], s * ax[2], std::cos(an / 2))) < 1e-12, "q-set-axis-angle", st(ax), an); }
}
struct O { EulerOrder o; const char *n; };
#define X(n) {EulerOrder::n, #n}
static std::vector<O> orders = {X(XYZs), X(XYXs), X(XZYs), X(XZXs), X(YZXs), X(YZYs), X(YXZs), X(YXYs), X(ZXYs), X(ZXZs), X(ZYXs), X(ZYZs), X(ZYXr), X(XYXr), X(YZXr), X(XZXr), X(XZYr), X(YZYr), X(ZXYr), X(YXYr), X(YXZr), X(ZXZr), X(XYZr), X(ZYZr)};
static void euler() {
    std::vector<double> an; for (int k = -4; k <= 4; ++k) an.push_back(k * PI / 4); for (double g : {0.3, -1.9, 2.8}) an.push_back(g); if (vc::thorough()) for (double g : {1e-4, -1e-7, PI / 2 + 1e-5, PI - 1e-6, 5.1, -7.7}) an.push_back(g);
    for (auto &o : orders) for (double a : an) for (double b : an) for (double g : an) {
        vc::note(vc::cat(o.n, " ", a, " ", b, " ", g)); vc::state(vc::cat(o.n, " ", a, " ", b, " ", g)); vc::trace(); vc::step();
        M A = elem(o.n[0] - 'X', a), B = elem(o.n[1] - 'X', b), C = elem(o.n[2] - 'X', g), want = o.n[3] == 's' ? mul(C, mul(B, A)) : mul(A, mul(B, C));
        EulerAngles e(o.o, a, b, g); VC_EXPECT(e.GetOrder() == o.o && e.GetAlpha() == a && e.GetBeta() == b && e.GetGamma() == g, "euler-access", o.n);
        Quaternion q = QuaternionFromEulerAngles(e), q2; q2.SetEulerAngles(e); VC_EXPECT(diff(rotm(q), want) < 1e-12 && q2 == q && vc::close(q.magnitude(), 1, 1e-13), vc::cat("euler-to-quaternion-", o.n), o.n, " ", a, " ", b, " ", g); VC_EXPECT(diff(sm(Matrix3DFromEulerAngles(e)), want) < 1e-12, vc::cat("euler-to-matrix-", o.n[3] == 's' ? "static" : "rotating"), o.n, " ", a, " ", b, " ", g);
        auto comp = [&](EulerAngles const &r) { M A = elem(o.n[0] - 'X', r.GetAlpha()), B = elem(o.n[1] - 'X', r.GetBeta()), C = elem(o.n[2] - 'X', r.GetGamma()); return o.n[3] == 's' ? mul(C, mul(B, A)) : mul(A, mul(B, C)); };
        EulerAngles rm = EulerAnglesFromMatrix3D(ms(want), o.o), rq = EulerAnglesFromQuaternion(q, o.o), rg; q.GetEulerAngles(rg, o.o); VC_EXPECT(rm.GetOrder() == o.o && rq.GetOrder() == o.o && diff(comp(rm), want) < 1e-7, "euler-from-matrix", o.n, " ", a, " ", b, " ", g, " -> ", rm.GetAlpha(), " ", rm.GetBeta(), " ", rm.GetGamma()); VC_EXPECT(diff(comp(rq), want) < 1e-7 && rg == rq, "euler-from-quaternion", o.n, " ", a, " ", b, " ", g);
        if (o.o == EulerOrder::ZXZr) { Quaternion z = QFromZXZr(a, b, g), z2; z2.SetEulerAnglesZXZr(a, b, g); VC_EXPECT(diff(rotm(z), want) < 1e-12 && z2 == z, "zxz-to-quaternion", a, " ", b, " ", g); for (double f : {1., -3.}) { EulerAngles r = ZXZrFromQ(z * f); double x, y, w; (z * f).GetEulerAnglesZXZr(x, y, w); VC_EXPECT(diff(comp(r), want) < 1e-7 && x == r.GetAlpha() && y == r.GetBeta() && w == r.GetGamma(), "zxz-from-quaternion", a, " ", b, " ", g, " -> ", r.GetAlpha(), " ", r.GetBeta(), " ", r.GetGamma()); } }
        if (o.o == EulerOrder::XYZs) { Quaternion z = QFromXYZs(a, b, g), z2; z2.SetEulerAnglesXYZs(a, b, g); VC_EXPECT(diff(rotm(z), want) < 1e-12 && z2 == z, "xyz-to-quaternion", a, " ", b, " ", g); for (double f : {1., -3.}) { EulerAngles r = XYZsFromQ(z * f); double x, y, w; (z * f).GetEulerAnglesXYZs(x, y, w); VC_EXPECT(diff(comp(r), want) < 1e-7 && x == r.GetAlpha() && y == r.GetBeta() && w == r.GetGamma(), "xyz-from-quaternion", a, " ", b, " ", g, " -> ", r.GetAlpha(), " ", r.GetBeta(), " ", r.GetGamma()); } }
    }
}
static void between() {
    std::vector<V> ds; for (int x = -3; x <= 3; ++x) for (int y = -3; y <= 3; ++y) for (int z = -3; z <= 3; ++z) if (x || y || z) ds.push_back({x * 1., y * 1., z * 1.});
    std::vector<V> g = {{0.3, -0.7, 0.11}, {1e-8, 0, 1}, {0.1, 0.2, 0.3}, {-1e-3, 5e-4, 1}, {12.5, 0.7, -3e2}}; for (auto &x : g) { ds.push_back(x); ds.push_back({-x[0], -x[1], -x[2]}); }
    auto chk = [&](V a, V b) { vc::note("between " + st(a) + st(b)); vc::state("b" + st(a) + st(b)); vc::trace(); Quaternion q = rotation_between(sv(a), sv(b)); V r = v3(q.rotate(sv(a), false)); double n = len(a), m = len(b); for (auto &c : r) c /= n; V w{b[0] / m, b[1] / m, b[2] / m};
        VC_EXPECT(std::fabs(q.magnitude() - 1) < 1e-9 && diff(r, w) < 1e-7, "rotation-between", st(a), " to ", st(b), " gives ", st(q), " which sends it to ", st(r)); vc::step(); };
    for (auto &a : ds) for (auto &b : ds) chk(a, b);
    for (auto &a : ds) for (double e : {1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-12, 1e-15}) for (int k = 0; k < 3; ++k) { V b{-a[0], -a[1], -a[2]}; b[k] += e * len(a); chk(a, b); V c = a; c[k] += e * len(a); chk(a, c); }
}
static void placements() {
    // all histories of up to 3 (thorough 4) operations on two placements, compared with a reference (position, matrix) pair
    std::vector<V> ps = {{0, 0, 0}, {1, -2, 3}, {0, 0, -7}}; std::vector<Quaternion> qs = {Quaternion(), Quaternion(0, 0, 0, -2), Quaternion(1, 1, 0, 0), Quaternion(1, -2, 3, 0.5), Quaternion(0, 1e-9, 0, 1)};
    struct R { V p; M m; bool id; }; std::vector<V> pts = {{0, 0, 0}, {1, 0, 0}, {0.5, -2, 4}};
    auto qm = [](Quaternion const &q) { return rod(q.GetX(), q.GetY(), q.GetZ(), q.GetW()); }; M I = elem(0, 0);
    auto cmp = [&](Placement const &P, R const &r, std::string const &h) { vc::trace();
        bool isid = len(r.p) == 0 && diff(r.m, I) == 0; if (isid) VC_EXPECT(P.IsIdentity(), "placement-identity", h); if (len(r.p) > 0 || diff(r.m, I) > 1e-11) VC_EXPECT(!P.IsIdentity(), "placement-identity", h);
        VC_EXPECT(v3(P.GetPosition()) == r.p && diff(rotm(P.GetQuaternion()), r.m) < 1e-12 && vc::close(P.GetQuaternion().magnitude(), 1, 1e-12), "placement-access", h);
        for (auto &x : pts) { V g = mul(r.m, x), l = mul(tr(r.m), V{x[0] - r.p[0], x[1] - r.p[1], x[2] - r.p[2]}); V gp{g[0] + r.p[0], g[1] + r.p[1], g[2] + r.p[2]};
            VC_EXPECT(diff(v3(P.LocalToGlobalPosition(sv(x))), gp) < 1e-12 && diff(v3(P.LocalToGlobalDirection(sv(x))), g) < 1e-12 && diff(v3(P.Rotate(sv(x), false)), g) < 1e-12, "placement-to-global", h, st(x)); VC_EXPECT(diff(v3(P.GlobalToLocalPosition(sv(x))), l) < 1e-12 && diff(v3(P.GlobalToLocalDirection(sv(x))), mul(tr(r.m), x)) < 1e-12 && diff(v3(P.Rotate(sv(x), true)), mul(tr(r.m), x)) < 1e-12, "placement-to-local", h, st(x));
            VC_EXPECT(diff(v3(P.GlobalToLocalPosition(P.LocalToGlobalPosition(sv(x)))), x) < 1e-12 && diff(v3(P.LocalToGlobalPosition(P.GlobalToLocalPosition(sv(x)))), x) < 1e-12, "placement-roundtrip", h, st(x)); } };
    int nops = int(ps.size() + qs.size()) + 7, depth = vc::thorough() ? 4 : 3; std::vector<int> h;
    for (int len_ = 1; len_ <= depth; ++len_) { h.assign(len_, 0); for (;;) {
        std::string s = "ops"; for (int o : h) s += vc::cat(" ", o); vc::note(s); vc::state(s);
        for (int init = 0; init < 4; ++init) { Placement a = init == 0 ? Placement() : init == 1 ? Placement(sv(ps[1])) : init == 2 ? Placement(qs[3]) : Placement(sv(ps[2]), qs[2]); R ra{init == 1 ? ps[1] : init == 3 ? ps[2] : ps[0], init == 2 ? qm(qs[3]) : init == 3 ? qm(qs[2]) : I, false}; Placement b(sv(V{5, 5, 5}), qs[2]); R rb{{5, 5, 5}, qm(qs[2]), false};
        for (int o : h) { vc::step(); int np = ps.size(), nq = qs.size(); if (o < np) { a.SetPosition(sv(ps[o])); ra.p = ps[o]; } else if (o < np + nq) { a.SetQuaternion(qs[o - np]); ra.m = qm(qs[o - np]); } else switch (o - np - nq) {
            case 0: b = a; rb = ra; break; case 1: a.swap(b); std::swap(ra, rb); break; case 2: { Placement c(a); b = std::move(c); rb = ra; break; } case 3: { Placement c(std::move(b)); b = a; a = c; std::swap(ra, rb); break; }
            case 4: { auto c = a.create(); b = *c; rb = ra; break; } case 5: { std::stringstream ss; { cereal::BinaryOutputArchive ar(ss); ar(a); } cereal::BinaryInputArchive ar(ss); ar(b); rb = ra; break; } case 6: { std::stringstream ss; { cereal::JSONOutputArchive ar(ss); ar(b); } cereal::JSONInputArchive ar(ss); ar(a); ra = rb; break; } } }
        cmp(a, ra, s); cmp(b, rb, s); bool same = v3(a.GetPosition()) == v3(b.GetPosition()) && a.GetQuaternion() == b.GetQuaternion(); if (same) VC_EXPECT(a == b && !(a != b) && !(a < b) && !(b < a), "placement-equal", s); else VC_EXPECT(a != b && !(a == b) && (a < b) != (b < a), "placement-differ", s); }
        int i = 0; while (i < len_ && ++h[i] == nops) h[i++] = 0; if (i == len_) break; } }
}
int main(int argc, char **argv) { return vc::run(argc, argv, {{"vectors", vectors, 600}, {"matrices", matrices, 600}, {"quaternions", quaternions, 600}, {"euler", euler, 600}, {"between", between, 600}, {"placements", placements, 900}}); }
