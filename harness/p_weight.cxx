// P27: the weight of an event. For every detector, tree, set of injectors and physical model the weight is the physical
// expectation divided by the summed density with which the injectors generate that event.
#include "inj.h"
#include "SIREN/injection/Weighter.h"
#include <fstream>
#include <iterator>
#include <sys/resource.h>
using namespace inj;
static std::string scratch(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return vc::cat(s ? s : "/tmp", "/", n, "-", getpid()); }
struct Phy { std::string name; std::map<PT, std::vector<IX>> x; std::map<PT, std::vector<ID>> d; };
static const std::vector<PT> TYPES = {P0, A, B};
static Phy model(std::string const &n, double sx, double length, int ids = 0) {   // sx scales the cross sections, length: decay length in metres at momentum 1
    Phy m; m.name = n; PT H = PT::HNucleus, O = PT::O16Nucleus, Fe = PT::Fe56Nucleus, C = PT::C12Nucleus, De = PT::Decay; double s = 1e-27 * sx; int k = ids;
    for (PT t : TYPES) { m.x[t] = {IX(k, {chan(t, H, {A, X}, 2 * s), chan(t, Fe, {A, B}, 3 * s)}), IX(k + 1, {chan(t, O, {A, B}, 5 * s), chan(t, H, {A, X}, s), chan(t, C, {B}, 4 * s)})}; if (length > 0) m.d[t] = {ID(k + 2, {chan(t, De, {A, B}, width(length, 1, mass(t))), chan(t, De, {X}, width(3 * length, 1, mass(t)))})}; else m.d[t]; k += 3; }
    return m; }
static std::shared_ptr<InteractionCollection> coll(Phy const &m, PT t) { return collection(t, m.x.at(t), m.d.at(t)); }
// depth between two points along the flight of a record; false: touches a face
static bool depth(Det const &D, Phy const &m, InteractionRecord const &r, Vector3D p, Vector3D q, double &out) {
    Vector3D a = D.f.rot.rotate(p, false) + D.f.origin, b = D.f.rot.rotate(q, false) + D.f.origin, d = b - a; double Ln = norm(d); out = 0; if (Ln < 1e-12) return true; d = d / Ln; std::vector<Seg> sg; if (!segments(D.M, a, d, Ln, sg)) return false; PT ty = r.signature.primary_type; double E = r.primary_momentum[0], mom = std::sqrt(E * E - r.primary_mass * r.primary_mass);
    for (auto &g : sg) { double w = 0; for (auto &x : m.x.at(ty)) for (auto &c : x.c) w += per_target(D, g.v, {PT(c.target)})[0] * IX::val(c.s, E, D.d->GetTargetMass(PT(c.target))); int v = g.v; out += 100 * w * quad([&](double z) { return D.M.rho(v, a + d * z); }, g.a, g.b); }
    for (auto &x : m.d.at(ty)) for (auto &c : x.c) out += Ln * c.s * r.primary_mass / mom / siren::utilities::Constants::hbarc; return true; }
struct Vtx { int id; double before, after, cut; };
struct Gen { unsigned N; Phy const *m; std::map<PT, Vtx> v; std::map<PT, std::vector<int>> f; };               // f: ids of further factors
struct Fac { int kind; int id; double norm; };                                                             // 0: the injectors' own object, 1: an equal but separate object, 2: physical only, 3: constant
struct Tru { Phy const *m; std::map<PT, std::vector<Fac>> f; };
static double factor(Fac const &f, InteractionRecord const &r) { return f.kind == 3 ? 1 : f.kind == 2 ? FG::den(f.id + 5, 1, r) : FG::den(f.id, 1, r); }
static bool oracle(Det const &D, std::vector<Gen> const &G, Tru const &T, InteractionTree const &t, double &w) {
    double inv = 0; for (auto &g : G) { double gen = g.N, phys = 1; for (auto &d : t.tree) { auto &r = d->record; PT ty = r.signature.primary_type; std::vector<Rate> R; if (!rates(D, g.m->x.at(ty), g.m->d.at(ty), r, R)) return false; gen *= selected(R, r); Vtx v = g.v.at(ty); gen *= FV::den(v.id, v.cut, r); for (int i : g.f.at(ty)) gen *= FG::den(i, 1, r); if (ty == P0) gen *= FP::den(1, r);
            if (!rates(D, T.m->x.at(ty), T.m->d.at(ty), r, R)) return false; phys *= selected(R, r) * 100 * total(R); for (auto &f : T.f.at(ty)) phys *= factor(f, r) * f.norm; auto b = FV::bounds(v.before, v.after, v.cut, r); double dep = 0; if (FV::in(v.cut, r) && !depth(D, *T.m, r, std::get<0>(b), Vector3D(r.interaction_vertex), dep)) return false; phys *= std::exp(-dep); }
        if (gen > 0) inv += gen / phys; }
    w = 1 / inv; return true; }
struct Build { std::vector<std::shared_ptr<Injector>> in; std::shared_ptr<Weighter> w; std::shared_ptr<PhysicalProcess> prim; std::vector<std::shared_ptr<PhysicalProcess>> sec; };
static Build make(Det const &D, std::vector<Gen> const &G, Tru const &T, std::set<PT> const &sec) {
    Build b; std::map<int, std::shared_ptr<FG>> g; std::map<int, std::shared_ptr<FH>> h; auto fp = std::make_shared<FP>(1, 3, Vector3D(0, 0, 1)); auto G1 = [&](int i) { auto &x = g[i]; if (!x) x = std::make_shared<FG>(i); return x; }; auto H1 = [&](int i) { auto &x = h[i]; if (!x) x = std::make_shared<FH>(i); return x; };
    for (auto &q : G) { auto p = std::make_shared<PrimaryInjectionProcess>(P0, coll(*q.m, P0)); p->AddPrimaryInjectionDistribution(fp); bool first = true; for (int i : q.f.at(P0)) { p->AddPrimaryInjectionDistribution(G1(i)); if (first) { Vtx v = q.v.at(P0); p->AddPrimaryInjectionDistribution(std::make_shared<FV>(v.id, v.before, v.after, v.cut)); first = false; } } if (first) { Vtx v = q.v.at(P0); p->AddPrimaryInjectionDistribution(std::make_shared<FV>(v.id, v.before, v.after, v.cut)); }
        std::vector<std::shared_ptr<SecondaryInjectionProcess>> ss; for (PT t : sec) { auto s = std::make_shared<SecondaryInjectionProcess>(t, coll(*q.m, t)); Vtx v = q.v.at(t); for (int i : q.f.at(t)) s->AddSecondaryInjectionDistribution(H1(i)); s->AddSecondaryInjectionDistribution(std::make_shared<FS>(v.id, v.before, v.after, v.cut)); ss.push_back(s); } b.in.push_back(std::make_shared<Injector>(q.N, D.d, p, ss, draw::rng())); }
    auto phys = [&](PT t) { auto p = std::make_shared<PhysicalProcess>(t, coll(*T.m, t)); for (auto &f : T.f.at(t)) { std::shared_ptr<WeightableDistribution> d; if (f.kind == 3) d = std::make_shared<NormalizationConstant>(f.norm); else if (f.kind == 2) { auto x = std::make_shared<FW>(f.id); if (f.norm != 1) x->SetNormalization(f.norm); d = x; } else if (t == P0) d = f.kind == 0 ? G1(f.id) : std::make_shared<FG>(f.id); else { if (f.kind == 0) d = H1(f.id); else d = std::make_shared<FH>(f.id); } p->AddPhysicalDistribution(d); } return p; };
    b.prim = phys(P0); for (PT t : sec) b.sec.push_back(phys(t)); b.w = std::make_shared<Weighter>(b.in, D.d, b.prim, b.sec); return b; }
// trees: one primary, and chains and forks of secondaries, with signatures the models know
static InteractionRecord rec(PT ty, Vector3D from, Vector3D v, double E, std::vector<PT> s, PT target, Det const &D) {
    InteractionRecord r; Vector3D d = v - from; d.normalize(); double m = mass(ty), p = std::sqrt(E * E - m * m); r.signature.primary_type = ty; r.signature.target_type = target; r.signature.secondary_types = s; r.primary_mass = m; r.primary_momentum = {E, p * d.GetX(), p * d.GetY(), p * d.GetZ()}; r.primary_initial_position = (std::array<double, 3>)from; r.interaction_vertex = (std::array<double, 3>)v; r.target_mass = target == PT::Decay ? 0 : D.d->GetTargetMass(target); r.primary_id = ParticleID::GenerateID(); r.target_id = ParticleID::GenerateID();
    for (size_t i = 0; i < s.size(); ++i) { r.secondary_ids.push_back(ParticleID::GenerateID()); r.secondary_masses.push_back(mass(s[i])); r.secondary_momenta.push_back({0.3 * E + 0.2 * i, 0, 0, 0.1}); r.secondary_helicities.push_back(0); r.secondary_times.push_back(0); } return r; }
static std::vector<std::pair<std::string, InteractionTree>> trees(Det const &D, std::set<PT> const &sec) {
    std::vector<std::pair<std::string, InteractionTree>> o; Vector3D c = D.f.rot.rotate(Vector3D(0, 0, 0) - D.f.origin, true); auto P = [&](double x, double y, double z) { return D.f.rot.rotate(Vector3D(x, y, z) - D.f.origin, true); };
    std::vector<std::pair<Vector3D, Vector3D>> ends = {{P(-7, -2, -5), P(0.6, 0.7, 0.3)}, {P(1, 2, 8), P(1.3, -1.1, -2.2)}, {P(9, 1, 0.4), P(-3.3, 0.2, 0.9)}, {P(-2, 11, 1), P(3.9, 5.1, 2.1)}, {P(14, 13, 12), P(13, 12.2, 11.1)}}; (void)c;
    std::vector<std::pair<PT, std::vector<PT>>> sg = {{PT::HNucleus, {A, X}}, {PT::O16Nucleus, {A, B}}, {PT::Fe56Nucleus, {A, B}}, {PT::C12Nucleus, {B}}, {PT::Decay, {A, B}}, {PT::Decay, {X}}}; int k = 0;
    for (auto &e : ends) for (auto &s : sg) { InteractionTree t; auto r = rec(P0, e.first, e.second, 2.5, s.second, s.first, D); auto root = t.add_entry(r); o.push_back({vc::cat("primary ", k, " ", int(s.first)), t}); std::vector<PT> st = s.second; Vector3D next = e.second + Vector3D(0.9, -0.6, 0.5);
        if (sec.count(st[0])) { InteractionTree u = t; auto q = rec(st[0], e.second, next, 1.4, {A, B}, PT::Decay, D); q.primary_id = r.secondary_ids[0]; auto n = u.add_entry(q, u.tree[0]); o.push_back({vc::cat("one secondary ", k, " ", int(s.first)), u}); if (sec.count(B)) { auto z = rec(B, next, next + Vector3D(-0.7, 0.2, 1.3), 0.8, {A, X}, PT::HNucleus, D); z.primary_id = q.secondary_ids[1]; u.add_entry(z, n); o.push_back({vc::cat("chain ", k, " ", int(s.first)), u}); } }
        if (st.size() > 1 && sec.count(st[0]) && sec.count(st[1])) { InteractionTree u = t; auto q = rec(st[0], e.second, next, 1.4, {X}, PT::Decay, D); q.primary_id = r.secondary_ids[0]; auto z = rec(st[1], e.second, e.second + Vector3D(0.1, 0.4, -1.8), 1.1, {A, B}, PT::O16Nucleus, D); z.primary_id = r.secondary_ids[1]; u.add_entry(q, u.tree[0]); u.add_entry(z, u.tree[0]); o.push_back({vc::cat("fork ", k, " ", int(s.first)), u}); } ++k; }
    return o; }
static std::vector<Det> detectors(bool all) { std::vector<Det> o; auto W = worlds(); auto F = frames(); for (size_t i : {0, 1, 3}) for (size_t f : {0, 2}) { if (!all && i && f != (i == 1 ? 2u : 0u)) continue; std::vector<int> p; for (size_t k = 0; k < W[i].v.size(); ++k) p.push_back(k); o.push_back(build(W[i], p, F[f])); } return o; }
static std::vector<Phy> &models() { static std::vector<Phy> m = {model("rare", 1e-6, 0), model("medium", 3, 0), model("thick", 200, 0), model("decaying", 1e-3, 6), model("both", 2, 4), model("nothing", 0, 0), model("slow decay", 0, 1e8)}; return m; }
static Gen gen(unsigned N, Phy const &m, int v, double before, double after, double cut, std::vector<int> f) { Gen g; g.N = N; g.m = &m; int k = 0; for (PT t : TYPES) { g.v[t] = {v + k, before + 0.3 * k, after, t == P0 ? cut : -1e9}; std::vector<int> q; for (int i : f) q.push_back(i + 10 * k); g.f[t] = q; ++k; } return g; }
static std::vector<std::pair<std::string, std::vector<Gen>>> injectors(Phy const &m, Phy const &other) {
    return {{"one", {gen(100, m, 1, 1.1, 2, -1e9, {2, 4})}}, {"one, long path", {gen(7, m, 2, 4.5, 6, -1e9, {2, 4, 3})}}, {"one, no factors", {gen(1, m, 0, 0.4, 0.1, -1e9, {})}}, {"two alike", {gen(50, m, 1, 1.1, 2, -1e9, {2, 4}), gen(50, m, 1, 1.1, 2, -1e9, {2, 4})}}, {"two", {gen(30, m, 1, 0.7, 2, -1e9, {2}), gen(1000, other, 3, 2.2, 1, -1e9, {4, 2})}}, {"two, one elsewhere", {gen(30, m, 1, 0.7, 2, -1e9, {2, 4}), gen(11, m, 3, 2.2, 1, 1.0, {4})}}, {"three", {gen(5, m, 1, 0.7, 2, 0.9, {2}), gen(11, other, 3, 2.2, 1, -2.0, {4, 2, 3}), gen(300, m, 4, 1.2, 3, -1e9, {})}}, {"elsewhere first", {gen(5, m, 1, 0.7, 2, 20, {2, 4}), gen(17, m, 2, 0.7, 2, -1e9, {4, 2})}}}; }
static std::vector<std::pair<std::string, Tru>> truths(Phy const &m) {
    std::vector<std::pair<std::string, std::vector<Fac>>> f = {{"none", {}}, {"shared", {{0, 2, 1}}}, {"shared last", {{0, 4, 1}}}, {"both shared", {{0, 2, 1}, {0, 4, 1}}}, {"both shared, other order", {{0, 4, 1}, {0, 2, 1}}}, {"equal object", {{1, 2, 1}}}, {"physical", {{2, 1, 1}}}, {"normalised", {{2, 1, 2.5}, {3, 0, 3}}}, {"mixed", {{2, 2, 0.5}, {0, 4, 1}, {3, 0, 7}, {1, 2, 1}, {2, 3, 1}}}, {"all shared", {{0, 3, 1}, {0, 2, 1}, {0, 4, 1}, {3, 0, 1e-4}}}};
    std::vector<std::pair<std::string, Tru>> o; for (auto &q : f) { Tru t; t.m = &m; int k = 0; for (PT ty : TYPES) { std::vector<Fac> v; for (auto x : q.second) { x.id += x.kind == 3 ? 0 : 10 * k; v.push_back(x); } t.f[ty] = v; ++k; } o.push_back({q.first, t}); } return o; }
static std::vector<std::set<PT>> secs() { return {{}, {A}, {A, B}}; }
static void check(Det const &D, Build const &b, std::vector<Gen> const &G, Tru const &T, InteractionTree const &t, std::string const &h, bool details) {
    double w = 0; ++vc::R.states; vc::step(); vc::trace(); ++vc::R.evaluations; if (!oracle(D, G, T, t, w)) { vc::count("line touching a face: not judged"); return; } if (std::isinf(w)) { vc::count("event no injector can generate: not judged"); return; } vc::note(h); double g = b.w->EventWeight(t); VC_EXPECT(near(g, w, 3e-6, 0), "weight", h, ": ", g, " expected ", w);
    if (!details) return;
    for (size_t i = 0; i < G.size(); ++i) { bool in = true; for (auto &d : t.tree) in = in && FV::in(G[i].v.at(d->record.signature.primary_type).cut, d->record); if (!in) continue; auto p = b.w->GetInteractionProbabilities(t, i), s = b.w->GetSurvivalProbabilities(t, i); bool n = p.size() == t.tree.size() && s.size() == t.tree.size(); VC_EXPECT(n, "probability-count", h); if (!n) continue;
        for (size_t k = 0; k < t.tree.size(); ++k) { auto &r = t.tree[k]->record; Vtx v = G[i].v.at(r.signature.primary_type); auto bd = FV::bounds(v.before, v.after, v.cut, r); double d1, d2; if (!depth(D, *T.m, r, std::get<0>(bd), std::get<1>(bd), d1) || !depth(D, *T.m, r, Vector3D(r.primary_initial_position), std::get<0>(bd), d2)) continue; ++vc::R.evaluations; VC_EXPECT(near(p[k], -std::expm1(-d1), 3e-6), "interaction-probability", h, " injector ", i, " datum ", k, ": ", p[k], " expected ", -std::expm1(-d1)); if (v.before < norm(Vector3D(r.primary_initial_position) - Vector3D(r.interaction_vertex))) VC_EXPECT(near(s[k], std::exp(-d2), 3e-6, 1e-12), "survival-probability", h, " injector ", i, " datum ", k, ": ", s[k], " expected ", std::exp(-d2)); } }
    for (int i : {-1, int(G.size())}) { bool a = false, c = false; try { b.w->GetInteractionProbabilities(t, i); } catch (std::out_of_range const &) { a = true; } try { b.w->GetSurvivalProbabilities(t, i); } catch (std::out_of_range const &) { c = true; } VC_EXPECT(a && c, "injector-index", h, " ", i); } }
static void weights(size_t part, size_t parts) {
    auto &M = models(); size_t n = 0; for (auto &D : detectors(vc::thorough())) for (size_t i = 0; i < M.size(); ++i) for (size_t j = 0; j < M.size(); ++j) { if (!vc::thorough() && i != j && (i + j) % 3) continue; if (M[i].name == "nothing") continue; for (auto &S : secs()) { auto T = trees(D, S); for (auto &I : injectors(M[i], M[(i + 1) % 5])) for (auto &U : truths(M[j])) { if (n++ % parts != part) continue; std::string h = vc::cat(D.name, "; injected ", M[i].name, " physical ", M[j].name, " secondaries ", S.size(), " injectors ", I.first, " factors ", U.first); vc::note(h); if (I.first == "one, no factors" && U.first.find("shared") != std::string::npos) continue; Build b = make(D, I.second, U.second, S); size_t k = 0; for (auto &t : T) { if (!vc::thorough() && (k++ + n) % 5) continue; check(D, b, I.second, U.second, t.second, h + " tree " + t.first, U.first == "none"); } } } } }
// saving and loading, other injectors for a saved weighter, and faults
static void persist() {
    std::string f = scratch("weight"); auto &M = models(); for (auto &D : detectors(false)) for (auto &S : secs()) for (auto &I : injectors(M[4], M[1])) for (auto &U : truths(M[1])) { if (I.first == "one, no factors") continue; std::string h = vc::cat(D.name, " secondaries ", S.size(), " injectors ", I.first, " factors ", U.first); vc::note(h); Build b = make(D, I.second, U.second, S); b.w->SaveWeighter(f); std::shared_ptr<Weighter> r = std::make_shared<Weighter>(std::vector<std::shared_ptr<Injector>>{}, f), own = std::make_shared<Weighter>(b.in, f); std::vector<Gen> two = {I.second[0], I.second[0]}; Build c = make(D, two, U.second, S); std::shared_ptr<Weighter> other = std::make_shared<Weighter>(c.in, f);
        VC_EXPECT(r->GetInjectors().size() == b.in.size() && own->GetInjectors() == b.in && other->GetInjectors() == c.in, "saved-injectors", h); size_t k = 0; for (auto &t : trees(D, S)) { if (k++ % 7) continue; ++vc::R.states; vc::trace(); vc::step(3); ++vc::R.evaluations; double x = b.w->EventWeight(t.second), y = r->EventWeight(t.second), z = own->EventWeight(t.second), v = c.w->EventWeight(t.second), u = other->EventWeight(t.second); auto eq = [](double a, double b2) { return a == b2 || (std::isnan(a) && std::isnan(b2)) || near(a, b2, 1e-9, 0); }; VC_EXPECT(eq(x, y), "reloaded-weight", h, " ", t.first, ": ", x, " then ", y); VC_EXPECT(eq(x, z), "reloaded-own-injectors", h, " ", t.first, ": ", x, " then ", z); VC_EXPECT(eq(v, u), "reloaded-other-injectors", h, " ", t.first, ": ", v, " then ", u); }
        other->LoadWeighter(f); for (auto &t : trees(D, S)) { double x = b.w->EventWeight(t.second), y = other->EventWeight(t.second); VC_EXPECT(x == y || (std::isnan(x) && std::isnan(y)) || near(x, y, 1e-9, 0), "loaded-over", h, " ", t.first, ": ", x, " then ", y); break; } }
    unlink((f + ".siren_weighter").c_str()); }
static std::string slurp(std::string const &f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static void faults(int part, int parts) {
    std::string f = scratch("wfault"), g = f + ".siren_weighter"; signal(SIGXFSZ, SIG_IGN); Det D = detectors(false)[0]; auto I = injectors(models()[4], models()[1])[0].second; auto U = truths(models()[1])[8].second; Build b = make(D, I, U, {A}); b.w->SaveWeighter(f); std::string full = slurp(g);
    for (size_t k = part; k < full.size(); k += parts) { vc::note(vc::cat("write fails after ", k)); ++vc::R.states; vc::trace(); vc::step(2); ++vc::R.evaluations; unlink(g.c_str()); rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim); bool threw = false; try { b.w->SaveWeighter(f); } catch (std::exception const &) { threw = true; } setrlimit(RLIMIT_FSIZE, &old); VC_EXPECT(threw || slurp(g) == full, "failed-save-unreported", "after ", k, " of ", full.size(), " bytes");
        std::ofstream(g, std::ios::binary).write(full.data(), k); vc::note(vc::cat("load of ", k, " bytes")); threw = false; try { Weighter w({}, f); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "truncated-load", k, " of ", full.size(), " bytes accepted"); }
    unlink(g.c_str()); }
// weighters whose secondary processes do not match the injectors': trees they cover are weighted, others get no weight
static void mismatch() {
    auto &M = models(); Det D = detectors(false)[0]; for (size_t n = 0; n < 3; ++n) { auto I = injectors(M[4], M[1])[n == 0 ? 0 : n == 1 ? 3 : 4].second; auto U = truths(M[1])[8].second; for (auto &S : secs()) for (auto &Q : secs()) { Build b = make(D, I, U, S); auto all = make(D, I, U, {A, B}); std::vector<std::shared_ptr<PhysicalProcess>> ph; for (auto &p : all.sec) if (Q.count(p->GetPrimaryType())) ph.push_back(p); std::string h = vc::cat(I.size(), " injectors with ", S.size(), " secondary processes, physical ", Q.size()); vc::note(h); Weighter w(b.in, D.d, b.prim, ph);
            for (auto &t : trees(D, {A, B})) { bool known = true; for (auto &d : t.second.tree) if (!d->is_root() && !(S.count(d->record.signature.primary_type) && Q.count(d->record.signature.primary_type))) known = false; double x; ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; if (!oracle(D, I, U, t.second, x) || std::isinf(x)) continue; vc::note(h + " " + t.first); double g = w.EventWeight(t.second); if (known) VC_EXPECT(near(g, x, 3e-6, 0), "mismatched-weight", h, " ", t.first, ": ", g, " expected ", x); else VC_EXPECT(g == 0, "uncovered-weight", h, " ", t.first, ": ", g); } } } }
int main(int argc, char **argv) { std::vector<vc::Case> c; for (size_t k = 0; k < 12; ++k) c.push_back({vc::cat("weights-", k), [k] { weights(k, 12); }}); c.push_back({"persist", persist}); c.push_back({"mismatch", mismatch}); for (int k = 0; k < 3; ++k) c.push_back({vc::cat("faults-", k), [k] { faults(k, 3); }}); return vc::run(argc, argv, c); }
