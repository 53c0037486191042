// P26: what an injector produces. Channel choice at a vertex, the tree of interactions, the counters over every history, the
// reported generation probability, and all of it again after saving and loading.
#include "inj.h"
#include <fstream>
#include <iterator>
#include <sys/resource.h>
using namespace inj;
static std::string scratch(std::string const &n) { char const *s = getenv("VERIF_SCRATCH"); return vc::cat(s ? s : "/tmp", "/", n, "-", getpid()); }
struct Set { std::string name; std::vector<IX> x; std::vector<ID> d; };
static std::vector<Set> sets(double E) {
    PT H = PT::HNucleus, O = PT::O16Nucleus, Fe = PT::Fe56Nucleus, C = PT::C12Nucleus, De = PT::Decay; double s = 1e-27, p = std::sqrt(E * E - MASS * MASS); auto w = [&](double l) { return width(l, p, MASS); };
    IX a(0, {chan(P0, H, {A, X}, 2 * s)}), b(1, {chan(P0, H, {A, X}, 5 * s), chan(P0, H, {B}, 3 * s), chan(P0, O, {A, B, X}, 7 * s)}, 0.25), c(2, {chan(P0, Fe, {B, X}, 9 * s), chan(P0, C, {X}, 2 * s), chan(P0, O, {X, X}, s)}), z(3, {chan(P0, H, {X, B}, 0), chan(P0, Fe, {A}, 4 * s), chan(P0, O, {B, B}, 0)}), n(4, {chan(P0, H, {A}, 0)}), f(5, {chan(P0, Fe, {A, A}, 3 * s), chan(P0, Fe, {X, X}, s)});
    ID d(6, {chan(P0, De, {A, B}, w(9)), chan(P0, De, {X}, w(20))}, 1.5), e(7, {chan(P0, De, {X}, w(30)), chan(P0, De, {B, B}, 0)}), g(8, {chan(P0, De, {B, A}, w(4e4))});
    return {{"one channel", {a}, {}}, {"several targets", {b, c}, {}}, {"shared signature", {a, b}, {}}, {"one target", {f}, {}}, {"nothing there", {n}, {}}, {"silent channels", {z, c}, {}}, {"decays", {}, {d, e}}, {"both", {b, c}, {d, e}}, {"rare decay", {c, a}, {g}}, {"silent and decay", {n}, {d}}, {"common", {c, b, a, z, f}, {e, g, d}}};
}
static std::vector<Det> detectors() { std::vector<Det> o; auto W = worlds(); auto F = frames(); for (size_t i : {0, 1, 3}) for (size_t f : {0, 2}) { std::vector<int> p; for (size_t k = 0; k < W[i].v.size(); ++k) p.push_back(k); o.push_back(build(W[i], p, F[f])); } return o; }
static std::vector<Vector3D> points(Det const &D, bool all) {   // one or two points in every sector, in the detector frame
    std::map<int, int> n; std::vector<Vector3D> o; int want = all ? 4 : 2; for (int i = 0; i < 4000; ++i) { auto h = [&](int b) { double f = 1, r = 0; int k = i + 1; while (k) { f /= b; r += f * (k % b); k /= b; } return r * 18 - 9; }; Vector3D g(h(2), h(3), h(5)); bool c; int v = D.M.at(g, c); if (!c || n[v] >= want) continue; ++n[v]; o.push_back(D.f.rot.rotate(g - D.f.origin, true)); } return o; }
static InteractionRecord start(double E, Vector3D dir, Vector3D v) { dir.normalize(); InteractionRecord r = draw::event(E, dir.GetX(), dir.GetY(), dir.GetZ(), MASS, P0); r.primary_id = ParticleID::GenerateID(); r.interaction_vertex = (std::array<double, 3>)v; r.primary_initial_position = (std::array<double, 3>)(v - dir * 3.0); r.primary_initial_time = 2; r.interaction_time = 12.5; r.primary_helicity = -0.5; return r; }
typedef std::shared_ptr<InteractionTreeDatum> Dat;
static Dat up(InteractionTree const &t, Dat const &d) { return d->is_root() ? Dat() : d->parent_index < t.tree.size() ? t.tree[d->parent_index] : Dat(); }
static int depth_of(InteractionTree const &t, Dat d) { int n = 0; for (d = up(t, d); d && n < 100; d = up(t, d)) ++n; return n; }
static std::vector<Dat> kids(InteractionTree const &t, Dat const &d) { std::vector<Dat> o; for (auto i : d->daughter_indices) o.push_back(i < t.tree.size() ? t.tree[i] : Dat()); return o; }
static bool same4(std::array<double, 4> const &a, std::array<double, 4> const &b) { for (int i = 0; i < 4; ++i) if (!near(a[i], b[i], 1e-12, 1e-12)) return false; return true; }
static bool same3(std::array<double, 3> const &a, std::array<double, 3> const &b, double e = 1e-9) { for (int i = 0; i < 3; ++i) if (!(std::fabs(a[i] - b[i]) <= e)) return false; return true; }
// the record holds what the selected interaction produced
static void recorded(InteractionRecord const &r, Call const &c, Det const &D, std::string const &h) {
    VC_EXPECT(r.signature == c.sig, "signature", h, ": ", sname(r.signature), " but the interaction was asked for ", sname(c.sig)); VC_EXPECT(r.interaction_parameters.count("who") && r.interaction_parameters.at("who") == c.who, "interaction-parameters", h);
    VC_EXPECT(near(r.target_mass, r.signature.target_type == PT::Decay ? 0 : D.d->GetTargetMass(r.signature.target_type), 1e-12), "target-mass", h, ": ", r.target_mass, " for ", sname(r.signature)); VC_EXPECT(r.interaction_time == c.t, "vertex-time", h, ": ", r.interaction_time, " expected ", c.t);
    size_t n = c.sig.secondary_types.size(); bool ok = r.secondary_momenta.size() == n && r.secondary_masses.size() == n && r.secondary_ids.size() == n && r.secondary_helicities.size() == n && r.secondary_times.size() == n; VC_EXPECT(ok, "secondary-count", h); if (!ok) return; std::set<ParticleID> ids = {r.primary_id, r.target_id};
    for (size_t i = 0; i < n; ++i) { VC_EXPECT(same4(r.secondary_momenta[i], c.p[i]) && near(r.secondary_masses[i], mass(c.sig.secondary_types[i])) && r.secondary_helicities[i] == 0.5 - double(i), "final-state", h, " secondary ", i, " of ", sname(r.signature)); ids.insert(r.secondary_ids[i]); { double want = late(c.who, i) ? c.t0 + 40 : c.t; VC_EXPECT(r.secondary_times[i] == want, "secondary-times", h, " secondary ", i, ": ", r.secondary_times[i], " expected ", want); } VC_EXPECT(bool(r.secondary_ids[i]), "secondary-id", h); }
    VC_EXPECT(ids.size() == n + 2, "ids-distinct", h); }
static void channels() {
    for (auto &D : detectors()) { vc::note(D.name); Injector in(1, D.d, draw::rng());
        for (double E : {0.9, 5.0}) for (Vector3D dir : {Vector3D(0.2, -0.5, 0.8), Vector3D(0, 0, -1)}) for (auto &S : sets(E)) { auto ic = collection(P0, S.x, S.d);
            for (auto &v : points(D, vc::thorough())) { InteractionRecord r0 = start(E, dir, v); std::vector<Rate> R; if (!rates(D, S.x, S.d, r0, R)) continue; double T = total(R); ++vc::R.states; vc::trace(); std::string h = vc::cat(D.name, "; ", S.name, " E=", E, " at ", sv(v)); vc::note(h);
                int N = vc::thorough() ? 1200 : 200; std::map<std::pair<int, std::string>, long> count; long refused = 0;
                for (double u : draw::grid(N, true)) { InteractionRecord r = r0; L.clear(); draw::script({u}); vc::step(); ++vc::R.evaluations;
                    try { in.SampleCrossSection(r, ic); } catch (InjectionFailure const &) { ++refused; VC_EXPECT(T == 0, "refused", h, " word ", u, ": refused although the total rate is ", T); continue; }
                    VC_EXPECT(T > 0, "accepted", h, ": interaction although nothing can interact"); VC_EXPECT(L.size() == 1, "sampled-once", h, ": ", L.size(), " final states"); if (L.size() != 1) continue;
                    recorded(r, L[0], D, h); VC_EXPECT(r.primary_id == r0.primary_id && r.primary_momentum == r0.primary_momentum && r.interaction_vertex == r0.interaction_vertex && r.primary_initial_position == r0.primary_initial_position && r.primary_mass == r0.primary_mass && r.primary_initial_time == r0.primary_initial_time && r.primary_helicity == r0.primary_helicity, "primary-kept", h);
                    if (u > 0 && u < 1) ++count[{L[0].who, sname(r.signature)}]; if (u == 1) VC_EXPECT([&] { double q = 0; for (auto &x : R) if (x.who == L[0].who && x.sig == r.signature) q += x.rate; return q > 0; }(), "last-word", h, ": channel without rate ", sname(r.signature));
                    double w = selected(R, r), g = CrossSectionProbability(D.d, ic, r); VC_EXPECT(near(g, w, 1e-6), "channel-probability", h, " ", sname(r.signature), ": ", g, " expected ", w); }
                if (T == 0) { VC_EXPECT(CrossSectionProbability(D.d, ic, r0) == 0, "channel-probability", h, ": nothing can interact"); continue; }
                std::map<std::pair<int, std::string>, double> share; for (auto &x : R) share[{x.who, sname(x.sig)}] += x.rate / T; for (auto &x : count) share[x.first];
                for (auto &x : share) { double e = std::fabs(count[x.first] - N * x.second); VC_EXPECT(e <= 1.001, "channel-share", h, " interaction ", x.first.first, " ", x.first.second, ": ", count[x.first], " of ", N, " words, share ", x.second); }
                InteractionRecord other = r0; other.signature.target_type = PT::HNucleus; other.signature.secondary_types = {PT::EMinus}; VC_EXPECT(CrossSectionProbability(D.d, ic, other) == 0, "channel-probability", h, ": a signature nothing produces"); } }
        InteractionRecord r = start(2, Vector3D(0, 0, 1), Vector3D(0, 0, 0)); for (int m = 1; m < 8; ++m) for (bool whole : {false, true}) { r.interaction_vertex = {m & 1 ? NAN : 0.1, m & 2 ? NAN : 0.2, m & 4 ? NAN : -0.1}; bool t = false; L.clear(); draw::script({0.5}); InteractionRecord q = r; try { if (whole) in.SampleCrossSection(q, collection(P0, sets(2)[6].x, sets(2)[6].d)); else in.SampleCrossSection(q, collection(P0, sets(2)[0].x, {})); } catch (InjectionFailure const &) { t = true; } VC_EXPECT(t && L.empty(), "no-vertex", D.name, " coordinates unknown ", m); } }
}
// ---- trees ----
// processes: 3 equally frequent decays each, so that a word of 1/6, 1/2, 5/6 picks the first, second, third
struct Sys { Det D; double E = 3; Vector3D dir{0.1, 0.2, 0.9}; std::map<PT, std::vector<ID>> d, e; std::map<PT, std::shared_ptr<InteractionCollection>> ic; std::shared_ptr<PrimaryInjectionProcess> prim; std::map<PT, std::shared_ptr<SecondaryInjectionProcess>> sec; };
static Sys sys(int which) {
    Sys s; auto W = worlds(); s.D = build(W[which % 2 ? 1 : 0], {0, 1, 2}, frames()[which % 3]); PT De = PT::Decay; double w = 1e-12;
    if (which % 2 == 0) { s.d[P0] = {ID(0, {chan(P0, De, {X}, w), chan(P0, De, {A, B}, w)}, 0.5), ID(1, {chan(P0, De, {A, X, A}, w)})}; s.d[A] = {ID(2, {chan(A, De, {X, X}, w), chan(A, De, {B}, w), chan(A, De, {X, A}, w)}, 0.125)}; s.d[B] = {ID(3, {chan(B, De, {X}, w)}), ID(4, {chan(B, De, {X, P0}, w), chan(B, De, {A}, w)}, 0.75)}; }
    else { s.d[P0] = {ID(0, {chan(P0, De, {B}, w)}), ID(1, {chan(P0, De, {B, A}, w), chan(P0, De, {P0, B}, w)}, 2)}; s.d[A] = {ID(2, {chan(A, De, {B, X}, w), chan(A, De, {A}, w), chan(A, De, {X}, w)})}; s.d[B] = {ID(3, {chan(B, De, {X}, w), chan(B, De, {A, X}, w)}, 0.25), ID(4, {chan(B, De, {X, X, X}, w)})}; s.d[P0].back().shift = 1; s.d[A][0].shift = 0; }
    s.e = s.d; s.e[P0] = {ID(9, {chan(P0, De, {X, X}, w), chan(P0, De, {A}, w)}, 0.5), ID(10, {chan(P0, De, {B, P0}, w)})};   // e: what secondaries do
    for (auto &q : s.d) s.ic[q.first] = collection(q.first, {}, q.second);
    s.prim = std::make_shared<PrimaryInjectionProcess>(P0, s.ic[P0]); s.prim->AddPrimaryInjectionDistribution(std::make_shared<FP>(1, s.E, s.dir)); s.prim->AddPrimaryInjectionDistribution(std::make_shared<FG>(2)); s.prim->AddPrimaryInjectionDistribution(std::make_shared<FV>(3, 1.5, 2.5)); s.prim->AddPrimaryInjectionDistribution(std::make_shared<FG>(4));
    for (PT t : {A, B, P0}) { auto p = std::make_shared<SecondaryInjectionProcess>(t, t == P0 ? collection(P0, {}, s.e[P0]) : s.ic[t]); if (t == P0) { p->AddSecondaryInjectionDistribution(std::make_shared<FS>(11, 0.5, 3)); s.sec[t] = p; continue; } if (t == A) p->AddSecondaryInjectionDistribution(std::make_shared<FH>(5)); p->AddSecondaryInjectionDistribution(std::make_shared<FS>(t == A ? 6 : 7, 0.5, t == A ? 1 : 2)); if (t == B) p->AddSecondaryInjectionDistribution(std::make_shared<FH>(8)); s.sec[t] = p; }
    return s; }
typedef std::function<bool(int, size_t)> Stop;   // depth of the parent, index of the secondary
static double expected_probability(Sys const &s, unsigned N, InteractionTree const &t, bool &sure) {
    double p = N > 0 ? N : 1; for (auto &d : t.tree) { auto &r = d->record; std::vector<Rate> R; if (!rates(s.D, {}, (d->is_root() ? s.d : s.e).at(r.signature.primary_type), r, R)) { sure = false; return 0; } p *= selected(R, r); if (d->is_root()) p *= FP::den(1, r) * FG::den(2, 1, r) * FV::den(3, -1e9, r) * FG::den(4, 1, r); else if (r.signature.primary_type == P0) p *= FV::den(11, -1e9, r); else if (r.signature.primary_type == A) p *= FG::den(5, 1, r) * FV::den(6, -1e9, r); else p *= FV::den(7, -1e9, r) * FG::den(8, 1, r); }
    return p; }
static void judge(Sys const &s, Injector &in, InteractionTree const &t, std::set<PT> const &simulated, Stop const &stop, std::string const &h, bool prob = true) {
    if (thrown) { VC_EXPECT(t.tree.empty(), "failed-event-empty", h, ": ", t.tree.size(), " interactions in a failed event"); return; }
    VC_EXPECT(!t.tree.empty(), "event-lost", h, ": nothing failed and the tree is empty"); if (t.tree.empty()) return; std::map<ParticleID, std::vector<Call>> by; for (auto &c : L) by[c.id].push_back(c); std::set<ParticleID> ids; size_t used = 0;
    for (auto &d : t.tree) { auto &r = d->record; auto par = up(t, d); PT ty = r.signature.primary_type; VC_EXPECT(ids.insert(r.primary_id).second, "datum-twice", h); auto &c = by[r.primary_id]; used += c.size(); std::multiset<std::string> got, want; Call const *x = nullptr; for (auto &q : c) { got.insert(vc::cat(q.kind, q.who)); if (q.kind == 'X') x = &q; }
        for (auto &k : par ? (ty == P0 ? std::vector<std::string>{"S11"} : ty == A ? std::vector<std::string>{"H5", "S6"} : std::vector<std::string>{"S7", "H8"}) : std::vector<std::string>{"P1", "P2", "V3", "P4"}) want.insert(k); if (x) want.insert(vc::cat('X', x->who)); VC_EXPECT(x && got == want, "distributions-once", h, ": a particle of type ", int(ty), " saw ", [&] { std::string o; for (auto &g : got) o += g + " "; return o; }()); if (!x) continue;
        recorded(r, *x, s.D, h); bool own = false; for (auto &q : (par ? s.e : s.d).at(ty)) own = own || q.id == x->who; VC_EXPECT(own, "own-interactions", h, ": interaction ", x->who, " for type ", int(ty));
        if (!par) { VC_EXPECT(d == t.tree[0] && ty == P0, "root", h); for (auto &q : c) if (q.kind == 'V') VC_EXPECT(same3(r.interaction_vertex, q.a) && same3(r.primary_initial_position, q.b), "primary-vertex", h); VC_EXPECT(near(r.primary_momentum[0], s.E) && near(r.primary_mass, MASS) && r.primary_helicity == -0.5 && r.primary_initial_time == 3.0, "primary-state", h); double p = std::sqrt(s.E * s.E - MASS * MASS); Vector3D u = s.dir; u.normalize(); VC_EXPECT(same4(r.primary_momentum, {s.E, p * u.GetX(), p * u.GetY(), p * u.GetZ()}), "primary-state", h); }
        else { auto &q = par->record; size_t i = 0; while (i < q.secondary_ids.size() && !(q.secondary_ids[i] == r.primary_id)) ++i; VC_EXPECT(i < q.secondary_ids.size(), "daughter-link", h); if (i == q.secondary_ids.size()) continue; VC_EXPECT([&] { long n = 0; for (auto &k : kids(t, par)) n += k == d; return n; }() == 1, "daughter-link", h); VC_EXPECT(q.signature.secondary_types[i] == ty && near(q.secondary_masses[i], r.primary_mass) && same4(q.secondary_momenta[i], r.primary_momentum) && q.secondary_helicities[i] == r.primary_helicity, "daughter-state", h, " type ", int(ty)); VC_EXPECT(same3(q.interaction_vertex, r.primary_initial_position), "daughter-start", h); VC_EXPECT(q.secondary_times[i] == r.primary_initial_time, "daughter-time", h, ": ", q.secondary_times[i], " ", r.primary_initial_time, " parent vertex ", q.interaction_time); if (ty == B) VC_EXPECT(x->t0 == r.primary_initial_time + 5, "given-time", h, ": ", x->t0);
            for (auto &k : c) if (k.kind == 'S') { Vector3D m(r.primary_momentum[1], r.primary_momentum[2], r.primary_momentum[3]); m.normalize(); VC_EXPECT(same3(r.interaction_vertex, (std::array<double, 3>)(Vector3D(r.primary_initial_position) + m * k.t)), "daughter-vertex", h); } }
        int dep = depth_of(t, d); for (size_t i = 0; i < r.signature.secondary_types.size(); ++i) { PT ty2 = r.signature.secondary_types[i]; bool want2 = simulated.count(ty2) && !stop(dep, i); long n = 0; for (auto &e : kids(t, d)) n += e && e->record.primary_id == r.secondary_ids[i]; VC_EXPECT(n == (want2 ? 1 : 0), "daughters-complete", h, ": secondary ", i, " of type ", int(ty2), " at depth ", dep, " has ", n, " daughters"); } }
    VC_EXPECT(used == L.size(), "stray-calls", h, ": ", L.size() - used, " samplings for particles that are not in the tree"); VC_EXPECT(foreign == 0, "foreign-arguments", h);
    for (auto &d : t.tree) for (auto &e : kids(t, d)) VC_EXPECT(bool(e), "daughter-in-tree", h);
    if (!prob) return; bool sure = true; double w = expected_probability(s, in.EventsToInject(), t, sure), g = in.GenerationProbability(t); if (sure) VC_EXPECT(near(g, w, 1e-6), "generation-probability", h, ": ", g, " expected ", w);
    if (sure) { InteractionTree one; one.add_entry(t.tree[0]->record); double w1 = expected_probability(s, in.EventsToInject(), one, sure); VC_EXPECT(near(in.GenerationProbability(t.tree[0]->record), w1, 1e-6) && near(in.GenerationProbability(t.tree[0]), w1, 1e-6), "record-probability", h); for (auto &d : t.tree) if (!d->is_root()) { auto b = in.SecondaryInjectionBounds(d->record), e = FV::bounds(0.5, d->record.signature.primary_type == A ? 1 : d->record.signature.primary_type == B ? 2 : 3, -1e9, d->record); VC_EXPECT(norm(std::get<0>(b) - std::get<0>(e)) < 1e-9 && norm(std::get<1>(b) - std::get<1>(e)) < 1e-9, "secondary-bounds", h); } auto b = in.PrimaryInjectionBounds(t.tree[0]->record), e = FV::bounds(1.5, 2.5, -1e9, t.tree[0]->record); VC_EXPECT(norm(std::get<0>(b) - std::get<0>(e)) < 1e-9 && norm(std::get<1>(b) - std::get<1>(e)) < 1e-9, "primary-bounds", h); } }
static const double MENU[3] = {1. / 6 - 0.01, 0.5, 5. / 6};   // refuse / keep / keep for a vertex; first, second, third channel
static void load(std::vector<int> const &p) { std::vector<double> w; for (int k : p) w.push_back(MENU[k]); w.resize(p.size() + 80, MENU[1]); draw::script(w); }
static void explore(Sys const &s, Injector &in, std::vector<int> const &prefix, std::set<PT> const &sim, Stop const &stop, std::string const &h, size_t max, long &budget) {
    if (budget-- <= 0) { vc::R.exhaustive = false; return; } L.clear(); thrown = false; foreign = 0; load(prefix); ++vc::R.states; vc::step(); vc::trace(); ++vc::R.evaluations; std::string w = h + " words"; for (int k : prefix) w += vc::cat(" ", k); vc::note(w); unsigned a = in.InjectionAttempts(), n = in.InjectedEvents(); InteractionTree t = in.GenerateEvent(); size_t used = draw::Eng::pos;
    VC_EXPECT(in.InjectionAttempts() == a + 1 && in.InjectedEvents() == n + (thrown ? 0 : 1), "counters", w); judge(s, in, t, sim, stop, w);
    for (size_t k = prefix.size(); k < used && k < max; ++k) for (int alt : {0, 2}) { std::vector<int> q = prefix; q.resize(k, 1); q.push_back(alt); explore(s, in, q, sim, stop, h, max, budget); } }
static void trees(int which) {
    Sys s = sys(which); want_detector = s.D.d.get(); want_random = draw::rng().get();
    std::vector<std::pair<std::string, Stop>> stops = {{"never below two", [](int d, size_t) { return d >= 2; }}, {"only the second", [](int d, size_t i) { return i != 1 || d >= 3; }}, {"only the first", [](int d, size_t i) { return i != 0 || d >= 3; }}, {"all", [](int, size_t) { return true; }}};
    for (int sel = 0; sel < 8; ++sel) for (auto &st : stops) { std::set<PT> sim; std::vector<std::shared_ptr<SecondaryInjectionProcess>> v; if (sel & 1) v.push_back(s.sec[A]), sim.insert(A); if (sel & 2) v.push_back(s.sec[B]), sim.insert(B); if (sel & 4) v.push_back(s.sec[P0]), sim.insert(P0); Injector in(1u << 30, s.D.d, s.prim, v, draw::rng()); Stop stop = st.second; long bad = 0;
        bool none = st.first == "all"; if (!none) in.SetStoppingCondition([&](InteractionTree const &t, std::shared_ptr<InteractionTreeDatum> d, size_t i) { if (std::find(t.tree.begin(), t.tree.end(), d) == t.tree.end() || i >= d->record.signature.secondary_types.size()) ++bad; int dep = depth_of(t, d); return stop(dep, i); });
        long budget = vc::thorough() ? 60000 : 3000; explore(s, in, {}, sim, stop, vc::cat("system ", which, " secondaries ", sel, " stop ", st.first), vc::thorough() ? 16 : 11, budget); VC_EXPECT(bad == 0, "stopping-arguments", "system ", which, " stop ", st.first); } }
// ---- histories ----
// 0..3: an event whose words fail at the primary, succeed alone, succeed with secondaries, fail at a secondary; then the operations
static const std::vector<std::vector<int>> WORDS = {{0}, {1, 0}, {1, 1}, {1, 1, 0}};
static std::string opname(int o) { static char const *n[] = {"fail", "alone", "with secondaries", "fail late", "reset", "no secondaries", "all secondaries", "stop all", "stop none", "reload"}; return n[o]; }
static void histories(int which, int depth) {
    Sys s = sys(which); std::string file = scratch("inj"); const int OPS = 10;
    for (unsigned N : {0u, 1u, 2u, 4u}) { std::vector<int> h(depth, 0); for (;;) {
        ++vc::R.states; vc::trace(); auto in = std::make_shared<Injector>(N, s.D.d, s.prim, std::vector<std::shared_ptr<SecondaryInjectionProcess>>{s.sec[A], s.sec[B]}, draw::rng()); std::set<PT> sim = {A, B}; bool stopall = true; unsigned att = 0, done = 0; std::string hn = vc::cat("system ", which, " N=", N, ":"); bool persisted = false;
        for (int o : h) { hn += " " + opname(o) + ","; vc::note(hn); vc::step(); ++vc::R.evaluations; if (o < 4) { L.clear(); thrown = false; foreign = 0; want_detector = persisted ? nullptr : s.D.d.get(); want_random = draw::rng().get(); load(WORDS[o]); bool refused = false, can = bool(*in); InteractionTree t; try { t = in->GenerateEvent(); } catch (std::runtime_error const &) { refused = true; }
                VC_EXPECT(refused == (att >= N), "attempts-limit", hn, ": ", refused ? "refused" : "accepted", " attempt ", att + 1, " of ", N); VC_EXPECT(can == !refused, "more-events", hn, ": the injector says ", can ? "there are more events" : "it is done", " and then ", refused ? "refuses" : "produces one"); if (refused) { VC_EXPECT(L.empty(), "refused-sampling", hn); if (att < N) break; continue; }
                ++att; Stop st = [&](int d, size_t) { return stopall || d >= 2; }; judge(s, *in, t, sim, st, hn, o == 2); if (!thrown) { VC_EXPECT(t.header.event_number == done, "event-number", hn, ": ", t.header.event_number, " expected ", done); VC_EXPECT(t.header.provenance.count("generator") && t.header.provenance["generator"] == "SIREN", "provenance", hn); ++done; } }
            else if (o == 4) { in->ResetInjectedEvents(); att = done = 0; } else if (o == 5) { in->SetSecondaryProcesses({}); sim.clear(); } else if (o == 6) { in->SetSecondaryProcesses({s.sec[B], s.sec[A]}); sim = {A, B}; } else if (o == 7) { in->SetStoppingCondition([](InteractionTree const &, std::shared_ptr<InteractionTreeDatum>, size_t) { return true; }); stopall = true; }
            else if (o == 8) { in->SetStoppingCondition([](InteractionTree const &t, std::shared_ptr<InteractionTreeDatum> d, size_t) { int dep = depth_of(t, d); return dep >= 2; }); stopall = false; }
            else { in->SaveInjector(file); in->LoadInjector(file); persisted = true; }
            VC_EXPECT(in->InjectionAttempts() == att && in->InjectedEvents() == done && in->EventsToInject() == N, "counters", hn, ": attempts ", in->InjectionAttempts(), " injected ", in->InjectedEvents(), " expected ", att, " ", done); std::set<PT> got; for (auto &q : in->GetSecondaryProcessMap()) got.insert(q.first); VC_EXPECT(got == sim && in->GetSecondaryProcesses().size() == sim.size(), "secondary-processes", hn, ": ", in->GetSecondaryProcesses().size(), " processes"); }
        int j = 0; while (j < depth && ++h[j] == OPS) h[j++] = 0; if (j == depth) break; } }
    unlink(file.c_str()); }
// ---- saving and loading ----
static std::string shape(InteractionTree const &t) { std::string o; for (auto &d : t.tree) { auto &r = d->record; auto par = up(t, d); int pi = -1; for (size_t i = 0; i < t.tree.size(); ++i) if (t.tree[i] == par) pi = i; o += vc::cat(sname(r.signature), "@", r.interaction_vertex[0], ",", r.interaction_vertex[1], ",", r.interaction_vertex[2], " t", r.interaction_time, " E", r.primary_momentum[0], " m", r.target_mass, " p", pi, ";"); } return o; }
template <class P, class V> static bool alike(P const &a, P const &b, V const &x, V const &y) { if (a->GetPrimaryType() != b->GetPrimaryType() || !(*a->GetInteractions() == *b->GetInteractions()) || x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (!(*x[i] == *y[i])) return false; return true; }
static void persist() {
    std::string file = scratch("injsave"); Stop st = [](int d, size_t) { return d >= 2; }; auto cond = [](InteractionTree const &t, std::shared_ptr<InteractionTreeDatum> d, size_t) { int dep = depth_of(t, d); return dep >= 2; };
    for (int which = 0; which < 4; ++which) for (int sel = 0; sel < 4; ++sel) for (unsigned N : {1u, 5u, 40000u}) for (int before = 0; before < 2; ++before) for (int how = 0; how < 3; ++how) {
        Sys s = sys(which); std::vector<std::shared_ptr<SecondaryInjectionProcess>> v; if (sel & 1) v.push_back(s.sec[A]); if (sel & 2) v.push_back(s.sec[B]); Injector in(N, s.D.d, s.prim, v, draw::rng()); in.SetStoppingCondition(cond); want_detector = want_random = nullptr; std::string h = vc::cat("system ", which, " secondaries ", sel, " N=", N, " after ", before, how == 0 ? " constructor" : how == 1 ? " into an empty injector" : " into another injector"); vc::note(h); ++vc::R.states; vc::trace(); for (int i = 0; i < before; ++i) { load({1, 1}); in.GenerateEvent(); }
        in.SaveInjector(file); Sys q = sys(which + 1); std::shared_ptr<Injector> out; if (how == 0) out = std::make_shared<Injector>(N, file, draw::rng()); else { out = how == 1 ? std::make_shared<Injector>(7, q.D.d, draw::rng()) : std::make_shared<Injector>(9, q.D.d, q.prim, std::vector<std::shared_ptr<SecondaryInjectionProcess>>{q.sec[B], q.sec[A]}, draw::rng()); out->LoadInjector(file); } out->SetStoppingCondition(cond); ++vc::R.evaluations;
        VC_EXPECT(out->EventsToInject() == N && out->InjectedEvents() == in.InjectedEvents() && out->InjectionAttempts() == in.InjectionAttempts(), "saved-counters", h); VC_EXPECT(alike(out->GetPrimaryProcess(), in.GetPrimaryProcess(), out->GetPrimaryProcess()->GetPrimaryInjectionDistributions(), in.GetPrimaryProcess()->GetPrimaryInjectionDistributions()), "saved-primary", h); auto a = in.GetSecondaryProcesses(), b = out->GetSecondaryProcesses(); bool eq = a.size() == b.size(); for (size_t i = 0; eq && i < a.size(); ++i) eq = alike(a[i], b[i], a[i]->GetSecondaryInjectionDistributions(), b[i]->GetSecondaryInjectionDistributions()); VC_EXPECT(eq && out->GetSecondaryProcessMap().size() == in.GetSecondaryProcessMap().size(), "saved-secondaries", h, ": ", b.size(), " processes, expected ", a.size());
        if (N > 1) for (auto &w : std::vector<std::vector<int>>{{1, 1}, {2, 2}, {1, 0}, {2, 2, 1, 2, 1, 1}, {0}, {1, 1, 2, 0, 0}}) { if (in.InjectionAttempts() >= N) break; vc::step(2); load(w); L.clear(); InteractionTree t1 = in.GenerateEvent(); load(w); InteractionTree t2 = out->GenerateEvent(); VC_EXPECT(shape(t1) == shape(t2), "saved-events", h, ": ", shape(t1), " / ", shape(t2)); if (!t1.tree.empty()) { double x = in.GenerationProbability(t1), y = out->GenerationProbability(t1); VC_EXPECT(near(x, y, 1e-12), "saved-probability", h, ": ", x, " ", y); } } }
    unlink(file.c_str()); }
static std::string slurp(std::string const &f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
// every number of bytes after which the disk is full, and every truncation of the file
static void faults(int part, int parts) {
    std::string f = scratch("injfault"); signal(SIGXFSZ, SIG_IGN); Sys s = sys(0); std::shared_ptr<DetectorModel> none; auto mk = [&] { return std::make_shared<Injector>(3, none, s.prim, std::vector<std::shared_ptr<SecondaryInjectionProcess>>{s.sec[A], s.sec[B]}, draw::rng()); }; auto in = mk(); in->SaveInjector(f); std::string full = slurp(f);
    for (size_t k = part; k < full.size(); k += parts) { vc::note(vc::cat("write fails after ", k)); ++vc::R.states; vc::trace(); vc::step(2); ++vc::R.evaluations; unlink(f.c_str()); rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim); bool threw = false; try { in->SaveInjector(f); } catch (std::exception const &) { threw = true; } setrlimit(RLIMIT_FSIZE, &old);
        VC_EXPECT(threw || slurp(f) == full, "failed-save-unreported", "after ", k, " of ", full.size(), " bytes"); std::ofstream(f, std::ios::binary).write(full.data(), k); vc::note(vc::cat("load of ", k, " bytes")); Injector other(7, s.D.d, s.prim, {s.sec[B]}, draw::rng()); threw = false; try { other.LoadInjector(f); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "truncated-load", k, " of ", full.size(), " bytes accepted");
        VC_EXPECT(other.EventsToInject() == 7 && other.GetDetectorModel() == s.D.d && other.GetPrimaryProcess() == s.prim && other.GetSecondaryProcesses().size() == 1, "failed-load-changes", k, " of ", full.size(), " bytes: ", other.EventsToInject(), " events"); }
    unlink(f.c_str()); bool t = false; try { in->SaveInjector("/nonexistent-directory/x"); } catch (std::exception const &) { t = true; } VC_EXPECT(t, "unwritable-save-unreported", ""); t = false; try { in->LoadInjector(f); } catch (std::exception const &) { t = true; } VC_EXPECT(t && in->EventsToInject() == 3, "missing-file", ""); }
// an injector cannot be set up without a vertex distribution, and says so
static void incomplete() {
    Sys s = sys(0); auto p = std::make_shared<PrimaryInjectionProcess>(P0, s.ic[P0]); p->AddPrimaryInjectionDistribution(std::make_shared<FG>(2)); auto q = std::make_shared<SecondaryInjectionProcess>(A, s.ic[A]); q->AddSecondaryInjectionDistribution(std::make_shared<FH>(5));
    for (int how = 0; how < 4; ++how) { ++vc::R.states; vc::trace(); vc::step(); ++vc::R.evaluations; pid_t c = fork(); if (c == 0) { int rc = 41; try { if (how < 2) { Injector in(1, s.D.d, how == 0 ? p : s.prim, how == 0 ? std::vector<std::shared_ptr<SecondaryInjectionProcess>>{} : std::vector<std::shared_ptr<SecondaryInjectionProcess>>{q}, draw::rng()); } else { Injector in(1, s.D.d, s.prim, {s.sec[A]}, draw::rng()); rc = 43; try { if (how == 2) in.SetPrimaryProcess(p); else in.AddSecondaryProcess(q); } catch (std::exception const &) { rc = in.GetPrimaryProcess() == s.prim && in.GetSecondaryProcesses().size() == 1 ? 42 : 44; } } } catch (std::exception const &) { rc = 42; } _exit(rc); }
        int st = 0; waitpid(c, &st, 0); VC_EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 42, "missing-vertex-distribution", "case ", how, ": ended with ", WIFEXITED(st) ? WEXITSTATUS(st) : -1); } }
// what the injector says of itself: the record an event starts from and the variables its density depends on
static void reports() {
    PT H = PT::HNucleus; Sys s = sys(0); for (PT t : {P0, A, B, X}) for (int mask = 0; mask < 16; ++mask) for (int nx = 0; nx < 4; ++nx) { std::vector<IX> xs; for (int i = 0; i < nx; ++i) xs.push_back(IX(i, {chan(t, H, {X}, 1e-27)})); auto ic = collection(t, xs, {ID(7, {chan(t, PT::Decay, {X}, 1e-12)})}); auto p = std::make_shared<PrimaryInjectionProcess>(t, ic); std::vector<std::string> v;
        auto add = [&](std::shared_ptr<PrimaryInjectionDistribution> d) { p->AddPrimaryInjectionDistribution(d); for (auto &n : d->DensityVariables()) v.push_back(n); }; if (mask & 1) add(std::make_shared<FP>(1, s.E, s.dir)); if (mask & 2) add(std::make_shared<FG>(2)); add(std::make_shared<FV>(3)); if (mask & 4) add(std::make_shared<FG>(4)); if (mask & 8) add(std::make_shared<FP>(5, s.E, s.dir));
        std::string h = vc::cat("type ", int(t), " distributions ", mask, " cross sections ", nx); ++vc::R.states; vc::trace(); vc::step(2); ++vc::R.evaluations; Injector in(3, s.D.d, p, draw::rng()); InteractionRecord r = in.NewRecord(); VC_EXPECT(r.signature.primary_type == t && r.signature.secondary_types.empty(), "new-record", h, ": type ", int(r.signature.primary_type));
        std::set<std::vector<std::string>> want; for (auto &x : xs) { auto w = v; for (auto &n : x.DensityVariables()) w.push_back(n); want.insert(w); } VC_EXPECT(in.DensityVariables() == want, "density-variables", h); VC_EXPECT(in.GetPrimaryProcess() == p && in.GetDetectorModel() == s.D.d && in.GetInteractions() == ic, "own-process", h); } }
int main(int argc, char **argv) {
    std::vector<vc::Case> c; c.push_back({"channels", channels}); c.push_back({"reports", reports}); for (int w = 0; w < 3; ++w) c.push_back({vc::cat("trees-", w), [w] { trees(w); }}); for (int w = 0; w < 2; ++w) c.push_back({vc::cat("histories-", w), [w] { histories(w, vc::thorough() ? 5 : w ? 3 : 4); }}); c.push_back({"persist", persist}); for (int k = 0; k < 3; ++k) c.push_back({vc::cat("faults-", k), [k] { faults(k, 3); }}); c.push_back({"incomplete", incomplete});
    return vc::run(argc, argv, c);
}
