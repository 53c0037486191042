// P23: what a detector model reports at a point and along a line (sector, density, column and interaction depth, their
// inverses) is what the sectors put into it say: the highest sector containing the point, and integrals of its density.
#include <sstream>
#include "vc.h"
#include "world3.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
#include "SIREN/detector/serializable.h"
#include "SIREN/geometry/serializable.h"
using namespace w3;
static void point(Det const &D, Vector3D const &p, std::vector<IL> const &lists) {
    bool clear; int s = D.M.at(p, clear); if (!clear) return;
    std::string w = D.name + " at " + sv(p); vc::note(w); ++vc::R.states; vc::trace();
    std::string name = s < 0 ? "UNIVERSE" : D.M.v[s].name; double rho = D.M.rho(s, p); DetectorPosition q = D.P(p); DetectorModel const &d = *D.d;
    auto T = targets(); auto pf = per_target(D, s, T);
    std::set<ParticleType> ts(T.begin(), T.end()); std::vector<double> pfs; for (auto t : ts) pfs.push_back(rho * d.GetMaterials().GetTargetParticleFraction(D.mat(s), t));
    double mf = 0; for (auto t : ts) mf += d.GetMaterials().GetTargetMassFraction(D.mat(s), t);
    std::vector<ParticleType> T3(T.begin(), T.begin() + 3); std::vector<double> X3(XS.begin(), XS.begin() + 3); double id = 0; for (int i = 0; i < 3; ++i) id += 100 * rho * pf[i] * X3[i];
    auto con = d.GetMaterials().GetMaterialConstituents(D.mat(s)); std::set<ParticleType> cs(con.begin(), con.end()); const double INFL = std::numeric_limits<double>::infinity();
    auto vecnear = [&](std::vector<double> const &a, std::vector<double> const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return false; return true; };
    vc::step(9);
    VC_EXPECT(d.GetContainingSector(q).name == name, "containing-sector", w, " reports ", d.GetContainingSector(q).name, " expected ", name);
    VC_EXPECT(near(d.GetMassDensity(q), rho, 1e-9, 0), "mass-density", w, " ", d.GetMassDensity(q), " expected ", rho);
    VC_EXPECT(near(d.GetMassDensity(q, ts), rho * mf, 1e-9, 0), "mass-density-targets", w);
    VC_EXPECT(near(d.GetParticleDensity(q, T[0]), rho * pf[0], 1e-9, 0), "particle-density", w);
    VC_EXPECT(vecnear(d.GetParticleDensity(q, ts), pfs), "particle-densities", w);
    VC_EXPECT(near(d.GetInteractionDensity(q, T3, X3, INFL), id, 1e-9), "interaction-density", w, " ", d.GetInteractionDensity(q, T3, X3, INFL), " expected ", id);
    VC_EXPECT(near(d.GetInteractionDensity(q, T3, X3, 50.0), id + 1 / 50.0, 1e-9), "interaction-density-decay", w);
    VC_EXPECT(near(d.GetInteractionDensity(q, {}, {}, 50.0), 1 / 50.0, 1e-9), "interaction-density-decay-only", w);
    VC_EXPECT(d.GetAvailableTargets(q) == cs, "available-targets", w);
    for (size_t k = 0; k < lists.size(); ++k) {
        IL const &l = lists[k]; std::string wl = vc::cat(w, " using crossings seen from ", sv(l.position), " along ", sv(l.direction)); vc::step(7);
        VC_EXPECT(d.GetContainingSector(l, q).name == name, "containing-sector-along", wl, " reports ", d.GetContainingSector(l, q).name, " expected ", name);
        VC_EXPECT(near(d.GetMassDensity(l, q), rho, 1e-9, 0), "mass-density-along", wl);
        VC_EXPECT(near(d.GetMassDensity(l, q, ts), rho * mf, 1e-9, 0), "mass-density-targets-along", wl);
        VC_EXPECT(near(d.GetParticleDensity(l, q, T[0]), rho * pf[0], 1e-9, 0), "particle-density-along", wl);
        VC_EXPECT(vecnear(d.GetParticleDensity(l, q, ts), pfs), "particle-densities-along", wl);
        VC_EXPECT(near(d.GetInteractionDensity(l, q, T3, X3, 50.0), id + 1 / 50.0, 1e-9), "interaction-density-along", wl);
        VC_EXPECT(d.GetAvailableTargets(l, q) == cs, "available-targets-along", wl);
    }
}
static bool same(IL const &a, std::vector<Geometry::Intersection> b) {
    if (a.intersections.size() != b.size()) return false;
    std::vector<std::tuple<double, int, bool>> x, y; for (auto &i : a.intersections) x.push_back({i.distance, i.hierarchy, i.entering}); for (auto &i : b) y.push_back({i.distance, i.hierarchy, i.entering});
    for (size_t i = 0; i + 1 < x.size(); ++i) if (std::get<0>(x[i]) > std::get<0>(x[i + 1])) return false;
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    for (size_t i = 0; i < x.size(); ++i) if (std::get<1>(x[i]) != std::get<1>(y[i]) || std::get<2>(x[i]) != std::get<2>(y[i]) || !(std::get<0>(x[i]) == std::get<0>(y[i]) || std::fabs(std::get<0>(x[i]) - std::get<0>(y[i])) < 1e-7)) return false;
    return true;
}
static std::string sl(std::vector<Geometry::Intersection> const &l) { std::string r; for (auto &i : l) r += vc::cat(i.entering ? " +" : " -", i.hierarchy, "@", i.distance); return r; }
static const double QT = 1e-4; // radial densities are integrated by Romberg refinement, which may stop early near the kink at the centre
static void line(Det const &D, Vector3D const &o, Vector3D const &d, double Lmax) {
    DetectorModel const &m = *D.d; std::string w = D.name + " from " + sv(o) + " along " + sv(d); vc::note(w); ++vc::R.states; vc::trace(); vc::step();
    DetectorPosition q = D.P(o); DetectorDirection qd = D.D(d);
    IL l0 = m.GetIntersections(q, qd);
    std::vector<Geometry::Intersection> brute; for (auto &s : m.GetSectors()) for (auto h : s.geo->Intersections(m.ToGeo(q).get(), m.ToGeo(qd).get())) { h.hierarchy = s.level; brute.push_back(h); }
    VC_EXPECT(same(l0, brute), "crossings", w, " reports", sl(l0.intersections), " but the sectors have", sl(brute));
    Line L{D.M, o, d, {}}; if (!segments(D.M, o, d, Lmax, L.s)) { vc::count("touching lines not judged"); return; }
    // outer bounds: first and last crossing of a real sector
    IL ob = m.GetOuterBounds(q, qd); double lo = 1e300, hi = -1e300; for (auto &i : l0.intersections) if (i.hierarchy != std::numeric_limits<int>::min()) lo = std::min(lo, i.distance), hi = std::max(hi, i.distance);
    VC_EXPECT(lo > hi ? ob.intersections.empty() : (ob.intersections.size() == 2 && ob.intersections[0].distance == lo && ob.intersections[1].distance == hi), "outer-bounds", w, " reports", sl(ob.intersections));
    std::vector<IL> lists = {l0, m.GetIntersections(D.P(o - d * 3.3), qd), m.GetIntersections(D.P(o + d * 1.7), D.D(-d)), m.GetIntersections(D.P(o + d * (Lmax + 2)), qd)};
    auto T = targets(); auto one = [](int) { return 1.0; };
    struct Mode { std::vector<ParticleType> t; std::vector<double> x; double dl; char const *n; };
    const double INFL = std::numeric_limits<double>::infinity();
    std::vector<Mode> modes = {{{T[0], T[1], T[2]}, {XS[0], XS[1], XS[2]}, INFL, "targets"}, {{T[0], T[1], T[2]}, {XS[0], XS[1], XS[2]}, 30, "targets and decay"}, {{T[1]}, {XS[1]}, 30, "one target and decay"}, {{T[1]}, {XS[1]}, INFL, "one target"}, {{}, {}, 30, "decay"}};
    std::vector<std::vector<double>> weight; for (auto &md : modes) { std::vector<double> ww; for (int v = -1; v < (int)D.M.v.size(); ++v) { double s = 0; if (md.t.size()) { auto pf = per_target(D, v, md.t); for (size_t i = 0; i < pf.size(); ++i) s += pf[i] * md.x[i]; } ww.push_back(s); } weight.push_back(ww); }
    auto pfall = [&](size_t ti) { return [&, ti](int v) { return per_target(D, v, {T[ti]})[0]; }; };
    for (double f : {0.07, 0.41, 0.63, 1.0}) {
        double t = f * Lmax; Vector3D e = o + d * t; DetectorPosition qe = D.P(e); bool c; D.M.at(e, c); if (!c) continue;
        double cd = 100 * L.depth(t, one), abs = 1e-9; vc::step(3);
        std::string we = vc::cat(w, " to ", t);
        double g = m.GetColumnDepthInCGS(q, qe), b = m.GetColumnDepthInCGS(qe, q);
        VC_EXPECT(near(g, cd, QT, abs), "column-depth", we, " gives ", g, " expected ", cd); VC_EXPECT(near(b, cd, QT, abs), "column-depth-reversed", we, " gives ", b, " expected ", cd);
        VC_EXPECT(m.GetColumnDepthInCGS(q, q) == 0, "column-depth-empty", we);
        for (size_t k = 0; k < lists.size(); ++k) {
            auto &l = lists[k]; vc::step(5); double a = m.GetColumnDepthInCGS(l, q, qe), r = m.GetColumnDepthInCGS(l, qe, q);
            VC_EXPECT(near(a, cd, QT, abs) && near(r, cd, QT, abs), "column-depth-along", we, " with crossings ", k, " gives ", a, " and reversed ", r, " expected ", cd);
            auto pc = m.GetParticleColumnDepth(l, q, qe, T); bool ok = pc.size() == T.size(); for (size_t i = 0; ok && i < T.size(); ++i) ok = near(pc[i], 100 * L.depth(t, pfall(i)), QT, 1e-9); VC_EXPECT(ok, "particle-column-depth", we, " with crossings ", k);
            // inverse: the depth up to the reported distance is the requested one
            double x = m.DistanceForColumnDepthFromPoint(l, q, qd, cd), y = m.DistanceForColumnDepthToPoint(l, q, D.D(-d), cd), z = m.DistanceForColumnDepthFromPoint(l, q, D.D(-d), -cd);
            auto inv = [&](double dist, std::function<double(double)> const &dep, double want, char const *key, char const *n) { bool fine = dist >= 0 && dist <= Lmax * 1.0000001 && near(dep(dist), want, QT, 1e-9 + QT * dep(Lmax)); VC_EXPECT(fine || (dist > Lmax && std::fabs(dep(Lmax) - want) < 1e-9 + QT * want), key, we, " ", n, " with crossings ", k, " distance ", dist, " has depth ", dist >= 0 && dist <= Lmax ? dep(dist) : -1, " requested ", want, " (at distance ", t, ")"); };
            auto cdf = [&](double s) { return 100 * L.depth(s, one); };
            inv(x, cdf, cd, "distance-for-column-depth", ""); inv(y, cdf, cd, "distance-for-column-depth-to-point", ""); if (cd > 0) inv(-z, cdf, cd, "distance-for-negative-column-depth", "");
            for (size_t j = 0; j < modes.size(); ++j) {
                auto &md = modes[j]; auto &ww = weight[j]; auto dep = [&](double s) { return 100 * L.depth(s, [&](int v) { return ww[v + 1]; }) + (std::isinf(md.dl) ? 0 : s / md.dl); };
                double want = dep(t); vc::step(4);
                double i1 = m.GetInteractionDepthInCGS(l, q, qe, md.t, md.x, md.dl), i2 = k ? want : m.GetInteractionDepthInCGS(q, qe, md.t, md.x, md.dl), i3 = m.GetInteractionDepthInCGS(l, qe, q, md.t, md.x, md.dl);
                VC_EXPECT(near(i1, want, QT, 1e-12) && near(i2, want, QT, 1e-12) && near(i3, want, QT, 1e-12), "interaction-depth", we, " ", md.n, " with crossings ", k, " gives ", i1, " ", i2, " reversed ", i3, " expected ", want);
                double u = m.DistanceForInteractionDepthFromPoint(l, q, qd, want, md.t, md.x, md.dl), v = m.DistanceForInteractionDepthToPoint(l, q, D.D(-d), want, md.t, md.x, md.dl), s = m.DistanceForInteractionDepthFromPoint(l, q, D.D(-d), -want, md.t, md.x, md.dl);
                inv(u, dep, want, "distance-for-interaction-depth", md.n); inv(v, dep, want, "distance-for-interaction-depth-to-point", md.n); if (want > 0) inv(-s, dep, want, "distance-for-negative-interaction-depth", md.n);
                if (!k) inv(m.DistanceForInteractionDepthFromPoint(q, qd, want, md.t, md.x, md.dl), dep, want, "distance-for-interaction-depth", md.n);
            }
        }
        if (f == 0.41) point(D, e, lists);
    }
}
static std::vector<Vector3D> dirs() { std::vector<Vector3D> d; for (auto a : std::vector<std::array<double, 3>>{{1, 0, 0}, {0, 1, 0}, {0, 0, -1}, {-1, 0, 0}, {1, 1, 0}, {0.31, -0.77, 0.52}, {-0.5, 0.2, 0.85}, {0.9, 0.1, 0.05}}) { Vector3D v(a[0], a[1], a[2]); d.push_back(v / v.magnitude()); } return d; }
static void world(World const &w, int perm, int fr) {
    size_t n = w.v.size(); std::vector<int> p(n); for (size_t i = 0; i < n; ++i) p[i] = i;
    if (n == 3) for (int i = 0; i < perm; ++i) std::next_permutation(p.begin(), p.end());
    else if (perm) for (size_t i = 0; i < n; ++i) p[i] = perm == 1 ? int(n - 1 - i) : int((i * 5 + perm) % n);
    Det D = build(w, p, frames()[fr]); double s = w.size;
    std::vector<double> g = {-0.83 * s, -0.31 * s, 0, 0.17 * s, 0.64 * s}; if (vc::thorough()) for (double x : {-0.5, 0.4}) g.push_back(x * s);
    for (double x : g) for (double y : g) for (double z : g) point(D, Vector3D(x, y, z), {});
    std::vector<double> h = {-1.2 * s, -0.23 * s, 0.29 * s}; if (vc::thorough()) h.push_back(0.71 * s);
    for (double x : h) for (double y : h) for (double z : {-0.4 * s, 0.05 * s}) for (auto &d : dirs()) line(D, Vector3D(x, y, z), d, 2.6 * s);
}
// histories of changes with queries in between
static void verify(DetectorModel const &d, std::map<std::string, std::pair<Vol, int>> const &want, Frame const &f, std::string const &h) {
    Model M; std::vector<std::string> names; for (auto &w : want) { M.v.push_back(w.second.first); M.level.push_back(w.second.second); names.push_back(w.first); }
    VC_EXPECT(d.GetSectors().size() == want.size() + 1, "history-sector-count", h, ": ", d.GetSectors().size());
    for (auto &w : want) { bool ok = false; try { auto s = d.GetSector(w.first); ok = s.level == w.second.second && s.name == w.first && d.GetSector(w.second.second).name == w.first && *s.geo == *w.second.first.geo && *s.density == *w.second.first.rho; } catch (std::exception const &) {} VC_EXPECT(ok, "history-sector", h, ": ", w.first); }
    auto rot = f.rot, r2 = d.GetDetectorRotation(); (void)r2;
    for (double x : {-4.1, -0.3, 0.6, 2.9}) for (double y : {-2.3, 0.4}) for (double z : {0.2, 3.7}) {
        Vector3D p(x, y, z); bool c; int s = M.at(p, c); if (!c) continue; ++vc::R.evaluations;
        DetectorPosition q(rot.rotate(p - f.origin, true)); std::string n = s < 0 ? "UNIVERSE" : names[s];
        VC_EXPECT(d.GetContainingSector(q).name == n, "history-containing-sector", h, " at ", sv(p), " reports ", d.GetContainingSector(q).name, " expected ", n);
        VC_EXPECT(near(d.GetMassDensity(q), M.rho(s, p), 1e-9, 0), "history-density", h, " at ", sv(p));
        IL l = d.GetIntersections(q, DetectorDirection(rot.rotate(Vector3D(0.6, 0, 0.8), true))); size_t k = 2; for (auto &w : want) k += w.second.first.geo->Intersections(p, Vector3D(0.6, 0, 0.8)).size();
        VC_EXPECT(l.intersections.size() == k, "history-crossings", h, " from ", sv(p), ": ", l.intersections.size(), " expected ", k);
    }
}
static void histories(World const &w, int first, int depth) {
    auto &v = w.v; static const char *names[] = {"add a", "add b", "add c", "add a again", "add another name at a used level", "set {b,c}", "set {a,a}", "clear", "origin", "rotation", "binary", "json", "query"};
    std::vector<int> seq = {first};
    std::function<void()> rec = [&] {
        auto d = std::make_shared<DetectorModel>(); materials(*d); std::map<std::string, std::pair<Vol, int>> want; Frame f = frames()[0]; std::string h = w.name + ":";
        DetectorSector uni = d->GetSectors()[0];
        auto add = [&](int i, int lvl, std::string n) { DetectorSector s = sector(*d, v[i], lvl); s.name = n; bool clash = want.count(n); for (auto &x : want) clash |= x.second.second == lvl; bool threw = false; try { d->AddSector(s); } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw == clash, "history-duplicate", h, " adding ", n, " at level ", lvl, threw ? " was refused" : " was accepted"); if (!clash) want[n] = {v[i], lvl}; };
        for (int o : seq) {
            h += std::string(" ") + names[o] + ";"; vc::step(); vc::note(h);
            switch (o) {
                case 0: add(0, 5, "a"); break;
                case 1: add(1, 3, "b"); break;
                case 2: add(2, 9, "c"); break;
                case 3: add(0, 7, "a"); break;
                case 4: add(2, 5, "z"); break;
                case 5: { DetectorSector s1 = sector(*d, v[1], 8), s2 = sector(*d, v[2], 2); s1.name = "b"; s2.name = "c"; d->SetSectors({uni, s1, s2}); want = {{"b", {v[1], 8}}, {"c", {v[2], 2}}}; break; }
                case 6: { DetectorSector s1 = sector(*d, v[0], 8), s2 = sector(*d, v[1], 2); s1.name = s2.name = "a"; bool threw = false; try { d->SetSectors({uni, s1, s2}); } catch (std::runtime_error const &) { threw = true; } VC_EXPECT(threw, "history-duplicate", h); break; }
                case 7: d->ClearSectors(); d->AddSector(uni); want.clear(); break;
                case 8: f.origin = f.origin + Vector3D(1, -2, 0.5); d->SetDetectorOrigin(GeometryPosition(f.origin)); break;
                case 9: f.rot = frames()[2].rot; d->SetDetectorRotation(f.rot); break;
                case 10: case 11: { std::stringstream ss; if (o == 10) { cereal::BinaryOutputArchive a(ss); a(cereal::make_nvp("d", *d)); } else { cereal::JSONOutputArchive a(ss); a(cereal::make_nvp("d", *d)); } auto n = std::make_shared<DetectorModel>(); if (o == 10) { cereal::BinaryInputArchive a(ss); a(cereal::make_nvp("d", *n)); } else { cereal::JSONInputArchive a(ss); a(cereal::make_nvp("d", *n)); } VC_EXPECT(*n == *d, "history-archive-equal", h); d = n; break; }
                case 12: verify(*d, want, f, h); break;
            }
        }
        vc::state(h); vc::trace(); verify(*d, want, f, h);
        { auto e = std::make_shared<DetectorModel>(); materials(*e); e->SetSectors(d->GetSectors()); e->SetDetectorOrigin(GeometryPosition(f.origin)); e->SetDetectorRotation(f.rot); bool eq = *e == *d; VC_EXPECT(eq, "history-equality", h, " differs from a model built directly"); e->SetDetectorRotation(quat(Vector3D(0, 1, 1), 0.3)); VC_EXPECT(!(*e == *d), "history-equality-rotation", h, " equals a model with another orientation"); e->SetDetectorRotation(f.rot); e->SetDetectorOrigin(GeometryPosition(f.origin + Vector3D(0, 0, 1))); VC_EXPECT(!(*e == *d), "history-equality-origin", h, " equals a model with another origin"); }
        if ((int)seq.size() < depth) for (int o = 0; o < 13; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
    };
    rec();
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c; auto W = std::make_shared<std::vector<World>>(worlds());
    for (size_t i = 0; i < W->size(); ++i) { int np = (*W)[i].v.size() == 3 ? 6 : 3; for (int p = 0; p < np; ++p) c.push_back({vc::cat((*W)[i].name, "_", p), [=] { for (int f = 0; f < 3; ++f) if (vc::thorough() || f == p % 3 || f == 2) world((*W)[i], p, f); }}); }
    for (int o = 0; o < 13; ++o) c.push_back({vc::cat("history_", o), [=] { histories((*W)[1], o, vc::thorough() ? 5 : 4); }});
    return vc::run(argc, argv, c);
}
