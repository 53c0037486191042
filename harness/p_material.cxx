// P14: a material reports exactly its current composition, whatever definitions and redefinitions came before.
#include "vc.h"
#include <fstream>
#include <sstream>
#include <algorithm>
#include <memory>
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/utilities/Constants.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/types/memory.hpp>
using siren::detector::MaterialModel; typedef siren::dataclasses::ParticleType PT;
typedef std::map<int, double> Comp; typedef std::vector<double> V;
static double const NA = siren::utilities::Constants::avogadro;
static int code(int Z, int A) { return 1000000000 + Z * 10000 + A * 10; }
static std::vector<Comp> comps() { return {{{code(8, 16), 0.8881016}, {code(1, 1), 0.1118984}}, {{code(14, 28), 0.4674349}, {code(8, 16), 0.5325651}}, {{code(26, 56), 1.0}}, {{code(1, 1), 1.0}}, {{code(18, 40), 0.75}, {code(6, 12), 0.25}}, {{code(8, 16), 0.1}, {code(7, 14), 0.7}, {code(18, 40), 0.2}}}; }
static std::vector<PT> probe() { std::vector<PT> r = {PT::PPlus, PT::Neutron, PT::Nucleon, PT::EMinus, PT::NuMu}; for (auto &c : comps()) for (auto &k : c) if (std::find(r.begin(), r.end(), PT(k.first)) == r.end()) r.push_back(PT(k.first)); return r; }
static double mass(int Z, int A) { auto it = MaterialModel::atomic_masses.find(std::make_tuple(0, A - Z, Z, A)); return it->second; }
struct Want { std::map<int, std::pair<double, double>> f; std::vector<int> targets; double X0; std::map<int, double> radinv; };
static Want expected(Comp const &c) {
    Want w; double n = 0, p = 0, a = 0, x = 0;
    for (auto &k : c) { int Z = k.first / 10000 % 1000, A = k.first / 10 % 1000; double m = mass(Z, A), f = k.second; w.f[k.first] = {f, NA * f / m}; w.targets.push_back(k.first); n += f / m * (A - Z); p += f / m * Z; a += f / m * A;
        double X = 716.4 * A / (Z * (Z + 1) * std::log(287. / std::sqrt(Z))); x += f / X; w.radinv[k.first] = f / X; }
    double mn = mass(0, 1), mp = mass(1, 1), me = 5.4857990888e-4;
    if (n > 0) { w.f[int(PT::Neutron)] = {n * mn, n * NA}; w.targets.push_back(int(PT::Neutron)); } if (a > 0) { w.f[int(PT::Nucleon)] = {a * (mn + mp) / 2, a * NA}; w.targets.push_back(int(PT::Nucleon)); }
    if (p > 0) { w.f[int(PT::PPlus)] = {p * mp, p * NA}; w.f[int(PT::EMinus)] = {p * me, p * NA}; w.targets.push_back(int(PT::PPlus)); w.targets.push_back(int(PT::EMinus)); }
    std::sort(w.targets.begin(), w.targets.end()); w.X0 = 1 / x; return w;
}
static void audit(MaterialModel const &m, std::vector<std::pair<std::string, Comp>> const &now, std::string const &h) {
    auto pr = probe();
    for (size_t id = 0; id < now.size(); ++id) {
        auto &n = now[id].first; Want w = expected(now[id].second);
        VC_EXPECT(m.HasMaterial(n) && m.HasMaterial(int(id)) && m.GetMaterialId(n) == int(id) && m.GetMaterialName(id) == n, "material-names", h, " material ", n);
        auto ts = m.GetMaterialTargets(id), cs = m.GetMaterialConstituents(id); std::vector<int> t, c; for (auto x : ts) t.push_back(int(x)); for (auto x : cs) c.push_back(int(x)); std::sort(t.begin(), t.end()); std::sort(c.begin(), c.end());
        VC_EXPECT(t == w.targets && c == w.targets, "material-targets", h, " material ", n, ": ", t.size(), " targets, expected ", w.targets.size());
        auto mv = m.GetTargetMassFraction(id, pr), pv = m.GetTargetParticleFraction(id, pr), mi = m.GetTargetMassFraction(id, pr.begin(), pr.end()), pi = m.GetTargetParticleFraction(id, pr.begin(), pr.end());
        for (size_t i = 0; i < pr.size(); ++i) { int k = int(pr[i]); double wm = w.f.count(k) ? w.f[k].first : 0, wp = w.f.count(k) ? w.f[k].second : 0; vc::step(6);
            VC_EXPECT(vc::close(m.GetTargetMassFraction(id, pr[i]), wm, 1e-12) && vc::close(mv[i], wm, 1e-12) && vc::close(mi[i], wm, 1e-12), "material-mass-fraction", h, " material ", n, " target ", k, " ", m.GetTargetMassFraction(id, pr[i]), " expected ", wm);
            VC_EXPECT(vc::close(m.GetTargetParticleFraction(id, pr[i]), wp, 1e-12) && vc::close(pv[i], wp, 1e-12) && vc::close(pi[i], wp, 1e-12), "material-particle-fraction", h, " material ", n, " target ", k, " ", m.GetTargetParticleFraction(id, pr[i]), " expected ", wp); }
        VC_EXPECT(vc::close(m.GetMaterialRadiationLength(id), w.X0, 1e-12), "material-radiation-length", h, " material ", n, " ", m.GetMaterialRadiationLength(id), " expected ", w.X0);
        // share of each asked-for target in the radiation length of all asked-for targets
        std::vector<std::vector<PT>> asks = {pr, {PT::PPlus, PT(now[id].second.begin()->first)}, {PT(now[id].second.rbegin()->first)}};
        for (auto &q : asks) { double tot = 0; for (auto t2 : q) if (w.radinv.count(int(t2))) tot += w.radinv[int(t2)];
            for (int v = 0; v < 2; ++v) { V r; try { r = v ? m.GetTargetRadiationFraction(id, q.begin(), q.end()) : m.GetTargetRadiationFraction(id, q); } catch (std::exception const &e) { vc::fail("material-radiation-fraction-refused", vc::cat(h, " material ", n, ": ", e.what())); continue; } vc::step();
                for (size_t i = 0; i < q.size(); ++i) { double want = w.radinv.count(int(q[i])) ? w.radinv[int(q[i])] / tot : 0; VC_EXPECT(i < r.size() && vc::close(r[i], want, 1e-12), "material-radiation-fraction", h, " material ", n, " target ", int(q[i]), " ", i < r.size() ? r[i] : -1, " expected ", want); } } }
    }
    VC_EXPECT(!m.HasMaterial(int(now.size())) && !m.HasMaterial(-1) && !m.HasMaterial("nope"), "material-unknown", h);
}
static void histories() {
    auto cs = comps(); std::vector<std::string> names = {"A", "B"}; size_t ops = names.size() * cs.size(); int depth = vc::thorough() ? 4 : 3;
    std::function<void(MaterialModel const &, std::vector<std::pair<std::string, Comp>>, std::string, int)> go = [&](MaterialModel const &m, std::vector<std::pair<std::string, Comp>> now, std::string h, int d) {
        for (size_t o = 0; o < ops; ++o) {
            MaterialModel c(m); auto st = now; auto &n = names[o / cs.size()]; auto &cc = cs[o % cs.size()]; std::string hh = h + n + "=" + std::to_string(o % cs.size()) + " "; vc::note(hh);
            c.AddMaterial(n, cc); vc::step(); bool found = false; for (auto &x : st) if (x.first == n) { x.second = cc; found = true; } if (!found) st.push_back({n, cc});
            vc::state(hh); vc::trace(); audit(c, st, hh);
            if (d == 1 && o % 5 == 0) { std::stringstream ss; { cereal::BinaryOutputArchive ar(ss); ar(c); } MaterialModel l; { cereal::BinaryInputArchive ar(ss); ar(l); } audit(l, st, hh + "reloaded"); VC_EXPECT(l == c, "material-reload-equal", hh); }
            if (d > 1) go(c, st, hh, d - 1);
        } };
    go(MaterialModel(), {}, "", depth);
}
static std::string scratch(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/" + n + std::to_string(getpid()); }
static std::string render(std::vector<std::pair<std::string, Comp>> const &ms, int style) {
    std::ostringstream o; o.precision(9); if (style) o << "# header\n\n"; for (auto &m : ms) { o << m.first << "  " << m.second.size() << (style ? "   # note" : "") << "\n"; for (auto &c : m.second) { if (style) o << "# comment\n\n   indented\n"; o << c.first << "    " << c.second << (style ? "   # x" : "") << "\n"; } if (style) o << "\n"; } return o.str();
}
static void files() {
    auto cs = comps(); std::string dir = scratch("mat"); std::string fn = dir + ".dat";
    for (size_t i = 0; i < cs.size(); ++i) for (size_t j = 0; j < cs.size(); ++j) for (int style = 0; style < 2; ++style) for (int dup = 0; dup < 2; ++dup) {
        std::vector<std::pair<std::string, Comp>> ms = {{"ICE", cs[i]}, {dup ? "ICE" : "ROCK", cs[j]}}; std::string h = vc::cat("file ", i, ",", j, " style ", style, " dup ", dup); vc::state(h); vc::trace(); vc::note(h);
        { std::ofstream o(fn); o << render(ms, style); } auto now = ms; if (dup) now = {{"ICE", cs[j]}};
        for (int how = 0; how < 3; ++how) { std::unique_ptr<MaterialModel> m; if (how == 0) m.reset(new MaterialModel(fn)); else if (how == 1) m.reset(new MaterialModel(dir)); else { m.reset(new MaterialModel()); m->AddMaterial("ICE", cs[(i + 1) % cs.size()]); m->AddModelFiles({fn}); } vc::step(); audit(*m, now, vc::cat(h, " how ", how)); }
    }
    // a file cut at any byte is read or refused, but reading always ends; a missing component row is refused
    std::vector<std::pair<std::string, Comp>> ms = {{"AIR", cs[5]}, {"IRON", cs[2]}}; 
    for (int style = 0; style < 2; ++style) { std::string full = render(ms, style); for (size_t n = 0; n <= full.size(); ++n) { std::string h = vc::cat("file cut at byte ", n, " style ", style); vc::note(h); vc::state(h); vc::trace(); { std::ofstream o(fn); o << full.substr(0, n); }
        alarm(10); bool refused = false; std::unique_ptr<MaterialModel> m; try { m.reset(new MaterialModel(fn)); } catch (std::exception const &) { refused = true; } alarm(0); vc::step();
        if (n == full.size()) VC_EXPECT(!refused, "material-file-refused", h); if (m && m->HasMaterial("AIR")) { size_t rows = m->GetMaterialTargets(m->GetMaterialId("AIR")).size(); VC_EXPECT(rows == 0 || rows == expected(cs[5]).targets.size(), "material-file-incomplete-accepted", h, ": ", rows, " targets"); } } }
    unlink(fn.c_str()); for (std::string bad : {"", "/nonexistent/zzz"}) { bool refused = false; try { MaterialModel m(bad); } catch (std::exception const &) { refused = true; } VC_EXPECT(refused, "material-missing-file", bad); }
}
// every nuclide of the mass table and of the PDG code space
static void nuclides() {
    double worst = 0;
    for (auto &k : MaterialModel::atomic_masses) {
        int s, n, p, a; std::tie(s, n, p, a) = k.first; std::string h = vc::cat("nuclide Z=", p, " A=", a); vc::state(h); vc::trace(); VC_EXPECT(s == 0 && n >= 0 && p >= 0 && n + p == a, "nuclide-key", h);
        if (p < 1) continue; int c = code(p, a); vc::step(5); int S = -1, N = -1, Z = -1, A = -1; MaterialModel::GetNucleonContent(c, S, N, Z, A); VC_EXPECT(S == 0 && N == n && Z == p && A == a, "nuclide-content", h, " -> ", S, ",", N, ",", Z, ",", A);
        PT t = PT(c); VC_EXPECT(MaterialModel::GetMolarMass(t) == k.second && MaterialModel::GetProtonCount(t) == p && MaterialModel::GetNeutronCount(t) == n && MaterialModel::GetNucleonCount(t) == a && MaterialModel::GetStrangeCount(t) == 0, "nuclide-component", h);
        if (a >= 12) { double b = MaterialModel::GetEmpericalNuclearBindingEnergy(0, n, p, a) / siren::utilities::Constants::GeV_per_amu, est = n * mass(0, 1) + p * mass(1, 1) - b; worst = std::max(worst, std::fabs(est - k.second)); VC_EXPECT(std::fabs(est - k.second) < 0.03, "nuclide-mass-smooth", h, " mass ", k.second, " semi-empirical ", est); }
    }
    vc::count("worst_semi_empirical_uamu", uint64_t(worst * 1e6));
    for (int Z = 1; Z <= 118; ++Z) for (int A = Z; A <= 3 * Z + 2 && A < 300; ++A) for (int L = 0; L <= 2 && L <= A - Z; ++L) {
        int c = code(Z, A) + L * 10000000; int S, N, P, Q; MaterialModel::GetNucleonContent(c, S, N, P, Q); vc::step(); VC_EXPECT(S == L && P == Z && Q == A && N == A - Z - L, "nuclide-content", "code ", c);
        if (!MaterialModel::atomic_masses.count(std::make_tuple(L, N, P, Q))) { double m = MaterialModel::GetMolarMass(PT(c)), b = MaterialModel::GetEmpericalNuclearBindingEnergy(L, N, P, Q) / siren::utilities::Constants::GeV_per_amu, w = L * siren::utilities::Constants::lambda0Mass / siren::utilities::Constants::GeV_per_amu + N * mass(0, 1) + P * mass(1, 1) - b; VC_EXPECT(vc::close(m, w, 1e-12), "nuclide-mass-estimated", "code ", c, " ", m, " expected ", w); vc::state(vc::cat("estimated ", c)); }
    }
    struct E { PT t; int n, p, a; double m; }; for (auto e : std::vector<E>{{PT::PPlus, 0, 1, 1, mass(1, 1)}, {PT::Neutron, 1, 0, 1, mass(0, 1)}, {PT::Nucleon, 0, 0, 1, (mass(0, 1) + mass(1, 1)) / 2}, {PT::EMinus, 0, 0, 0, 5.4857990888e-4}}) VC_EXPECT(MaterialModel::GetMolarMass(e.t) == e.m && MaterialModel::GetNeutronCount(e.t) == e.n && MaterialModel::GetProtonCount(e.t) == e.p && MaterialModel::GetNucleonCount(e.t) == e.a, "nuclide-special", int(e.t));
}
// shipped materials: every file of the repository loads, and every material's fractions are physical
static void shipped() {
    char const *rp = getenv("VERIF_REPO"); std::string cmd = std::string("find ") + (rp ? rp : "/repo") + "/resources -name 'materials*.dat' | sort"; FILE *p = popen(cmd.c_str(), "r"); char b[4096]; std::vector<std::string> fs; while (fgets(b, sizeof b, p)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); fs.push_back(s); } pclose(p);
    for (auto &f : fs) { vc::note(f); vc::state(f); vc::trace(); MaterialModel m; try { m.AddModelFile(f); } catch (std::exception const &e) { vc::fail("shipped-materials-refused", f + ": " + e.what()); continue; } vc::step();
        for (int id = 0; m.HasMaterial(id); ++id) { vc::state(f + m.GetMaterialName(id)); double tot = 0; for (auto t : m.GetMaterialTargets(id)) if (int(t) > 1000000000 && t != PT::Nucleon) tot += m.GetTargetMassFraction(id, t);
            VC_EXPECT(tot <= 1.02, "shipped-materials-fractions", f, " ", m.GetMaterialName(id), " sums to ", tot); } }
}
int main(int argc, char **argv) { return vc::run(argc, argv, {{"histories", histories, 600}, {"files", files, 200}, {"nuclides", nuclides, 200}, {"shipped", shipped, 200}}); }
