// P03: handing an interaction from the primary to the cross section to its secondaries loses and invents nothing.
#include "events.h"
#include "SIREN/utilities/Constants.h"
using namespace ev;
static double const CL = siren::utilities::Constants::c;
static bool fresh(ParticleID const &i) { return i.IsSet(); }

// parent kinds: ids present/absent/short, parameters present, target id present, stale secondary vectors
static void xsec(int nsec) {
    std::set<std::pair<uint64_t, int32_t>> gen;
    for (int idmode = 0; idmode < 3; ++idmode) for (int tid = 0; tid < 2; ++tid) for (int over = 0; over < 3; ++over) for (int par = 0; par < 4; ++par) for (int stale = 0; stale < 2; ++stale)
    for (unsigned tset = 0; tset < (1u << nsec); ++tset) for (unsigned how = 0; how < (1u << nsec); ++how) {
        std::string h = vc::cat("nsec=", nsec, " ids=", idmode, " target_id=", tid, " time_override=", over, " params=", par, " stale=", stale, " secondary_times=", tset, " setters=", how);
        vc::note(h); vc::state(h); vc::trace();
        InteractionRecord r = rec(1, nsec, false); r.primary_id = ParticleID(11, 12); r.target_id = tid ? ParticleID(21, 22) : ParticleID();
        r.secondary_ids.clear();
        if (idmode) for (int i = 0; i < nsec - (idmode == 2); ++i) r.secondary_ids.push_back(i % 2 && idmode == 2 ? ParticleID() : ParticleID(31, i));
        if (!stale) { r.secondary_masses.clear(); r.secondary_momenta.clear(); r.secondary_helicities.clear(); r.secondary_times.clear(); }
        else { r.secondary_masses.resize(5, -1); r.secondary_momenta.resize(5); r.secondary_helicities.resize(5); r.secondary_times.resize(5, -9); r.secondary_ids.resize(std::max<size_t>(r.secondary_ids.size(), 5)); }
        InteractionRecord const before = r;
        CrossSectionDistributionRecord x(r);
        VC_EXPECT(x.GetSecondaryParticleRecords().size() == size_t(nsec), "secondary-count", h);
        VC_EXPECT(x.GetPrimaryID() == r.primary_id && x.GetPrimaryType() == r.signature.primary_type && x.GetPrimaryMass() == r.primary_mass && x.GetPrimaryMomentum() == r.primary_momentum
            && x.GetPrimaryHelicity() == r.primary_helicity && x.GetInteractionVertex() == r.interaction_vertex && x.GetPrimaryInitialPosition() == r.primary_initial_position && x.GetInteractionTime() == r.interaction_time
            && x.GetTargetType() == r.signature.target_type && x.GetTargetMass() == r.target_mass && x.GetTargetHelicity() == r.target_helicity && x.GetSignature() == r.signature, "primary-view", h);
        VC_EXPECT(tid ? x.GetTargetID() == r.target_id : fresh(x.GetTargetID()), "target-id", h);
        double vt = r.interaction_time;
        if (over == 1) { x.SetInteractionTime(500.5); vt = 500.5; }
        std::vector<ParticleID> ids;
        for (int i = 0; i < nsec; ++i) {
            auto &s = x.GetSecondaryParticleRecord(i);
            bool had = i < (int)before.secondary_ids.size() && before.secondary_ids[i].IsSet();
            VC_EXPECT(had ? s.GetID() == before.secondary_ids[i] : fresh(s.GetID()), "secondary-id", h, " index ", i);
            VC_EXPECT(s.GetType() == r.signature.secondary_types[i] && s.GetInitialPosition() == r.interaction_vertex, "secondary-view", h, " index ", i);
            ids.push_back(s.GetID());
            double m = 1.5 + i, p = 2.0 + i;
            if (how >> i & 1) { s.SetMass(m); s.SetDirection({0, 0.6, -0.8}); s.SetKineticEnergy(std::sqrt(m*m + p*p) - m); }
            else { s.SetFourMomentum({std::sqrt(m*m + p*p), 0, 0.6 * p, -0.8 * p}); s.SetMass(m); }
            s.SetHelicity(0.5 - i);
            if (tset >> i & 1) s.SetTime(700 + i);
        }
        if (over == 2) { x.SetInteractionTime(1.0); x.SetInteractionTime(600.25); vt = 600.25; }
        for (int i = 0; i < nsec; ++i) VC_EXPECT(x.GetSecondaryParticleRecord(i).GetTime() == ((tset >> i & 1) ? 700 + i : vt), "secondary-time-view", h, " index ", i);
        VC_EXPECT(x.GetInteractionTime() == vt, "interaction-time-view", h);
        x.SetTargetMass(3.75); x.SetTargetHelicity(-0.25);
        if (par == 1) x.SetInteractionParameter("par0", -1);
        if (par == 2) { x.SetInteractionParameter("z", 4); x.SetInteractionParameters({{"y", 5}}); }
        if (par == 3) { x.SetInteractionParameters({{"y", 5}, {"par0", 2}}); x.GetInteractionParameters()["q"] = 8; }
        x.Finalize(r); vc::step();
        // expected record
        InteractionRecord e = before; e.target_id = x.GetTargetID(); e.target_mass = 3.75; e.target_helicity = -0.25; e.interaction_time = vt;
        e.secondary_ids = ids; e.secondary_masses.clear(); e.secondary_momenta.clear(); e.secondary_helicities.clear(); e.secondary_times.clear();
        for (int i = 0; i < nsec; ++i) { double m = 1.5 + i, p = 2.0 + i; e.secondary_masses.push_back(m); e.secondary_momenta.push_back({std::sqrt(m*m + p*p), 0, 0.6 * p, -0.8 * p}); e.secondary_helicities.push_back(0.5 - i); e.secondary_times.push_back((tset >> i & 1) ? 700 + i : vt); }
        if (par == 1) e.interaction_parameters["par0"] = -1;
        if (par == 2) e.interaction_parameters["y"] = 5;
        if (par == 3) { e.interaction_parameters["y"] = 5; e.interaction_parameters["par0"] = 2; e.interaction_parameters["q"] = 8; }
        bool momok = r.secondary_momenta.size() == size_t(nsec);
        for (int i = 0; momok && i < nsec; ++i) for (int k = 0; k < 4; ++k) momok = momok && vc::close(r.secondary_momenta[i][k], e.secondary_momenta[i][k], 1e-9, 1e-9);
        VC_EXPECT(momok, "final-momenta", h); if (momok) e.secondary_momenta = r.secondary_momenta;
        auto d = diff(r, e); VC_EXPECT(d.empty(), "final-record", h, ": ", d);
        // all identifiers of the event are distinct
        std::set<ParticleID> u(ids.begin(), ids.end()); u.insert(x.GetTargetID()); u.insert(r.primary_id); VC_EXPECT(u.size() == ids.size() + 2, "ids-distinct", h);
        // secondaries become primaries
        for (int i = 0; i < nsec; ++i) for (int lt = 0; lt < 4; ++lt) for (int ts = 0; ts < 2; ++ts) {
            InteractionRecord parent = r; if (ts) parent.secondary_times.clear();
            SecondaryDistributionRecord s(parent, i);
            double t0 = ts ? parent.interaction_time : r.secondary_times[i];
            VC_EXPECT(s.GetSecondaryIndex() == size_t(i) && s.id == r.secondary_ids[i] && s.type == r.signature.secondary_types[i] && s.mass == r.secondary_masses[i] && s.momentum == r.secondary_momenta[i]
                && s.helicity == r.secondary_helicities[i] && s.initial_position == r.interaction_vertex && s.initial_time == t0, "secondary-start", h, " index ", i);
            VC_EXPECT(vc::close(s.direction[0], 0, 0, 1e-12) && vc::close(s.direction[1], 0.6) && vc::close(s.direction[2], -0.8), "secondary-direction", h, " index ", i);
            bool L = lt & 1, T = lt & 2; double len = 12.5;
            if (L) s.SetLength(len); if (T) s.SetInteractionTime(55.5);
            double m = 1.5 + i, p = 2.0 + i, E = std::sqrt(m*m + p*p), want = T ? 55.5 : t0 + len / (p / E * CL);
            bool threw = false; InteractionRecord o;
            try { double g = s.GetLength(); VC_EXPECT(L && g == len, "secondary-length", h); } catch (std::runtime_error const &) { VC_EXPECT(!L, "secondary-length-refused", h); }
            try { double g = s.GetInteractionTime(); VC_EXPECT((L || T) && vc::close(g, want), "secondary-interaction-time", h, " got ", g, " want ", want); } catch (std::runtime_error const &) { VC_EXPECT(!L && !T, "secondary-interaction-time-refused", h); }
            try { s.Finalize(o); } catch (std::runtime_error const &) { threw = true; } vc::step();
            VC_EXPECT(threw == !L, "secondary-finalize-availability", h, " length set ", L, " time set ", T, " threw ", threw);
            if (!threw && L) {
                VC_EXPECT(o.primary_id == r.secondary_ids[i] && o.signature.primary_type == r.signature.secondary_types[i] && o.primary_mass == r.secondary_masses[i] && o.primary_momentum == r.secondary_momenta[i]
                    && o.primary_helicity == r.secondary_helicities[i] && o.primary_initial_position == r.interaction_vertex && o.primary_initial_time == t0 && vc::close(o.interaction_time, want), "secondary-final-record", h, " index ", i);
                VC_EXPECT(vc::close(o.interaction_vertex[0], r.interaction_vertex[0], 1e-12) && vc::close(o.interaction_vertex[1], r.interaction_vertex[1] + 0.6 * len) && vc::close(o.interaction_vertex[2], r.interaction_vertex[2] - 0.8 * len), "secondary-vertex", h);
                // and the record can itself be the start of another sampling step
                SecondaryDistributionRecord again(o);
                VC_EXPECT(again.id == o.primary_id && again.type == o.signature.primary_type && again.mass == o.primary_mass && again.momentum == o.primary_momentum && again.initial_position == o.primary_initial_position && again.initial_time == o.primary_initial_time && vc::close(again.direction[1], 0.6), "restart-from-record", h);
            }
        }
    }
}
// FlightTime corner cases: zero length, zero momentum, massless
static void times() {
    for (double m : {0.0, 0.1, 3.0}) for (double K : {0.0, 1.0, 50.0}) for (double L : {0.0, 2.0, 1e4}) for (double t0 : {0.0, -5.0, 12.0}) {
        double E = m + K, p = std::sqrt(E*E - m*m); if (E == 0) continue;
        std::string h = vc::cat("m=", m, " K=", K, " L=", L, " t0=", t0); vc::state(h); vc::note(h); vc::trace();
        PrimaryDistributionRecord r(ParticleType::NuMu); r.SetMass(m); r.SetEnergy(E); r.SetDirection({0, 0, 1}); r.SetInitialPosition({1, 2, 3}); r.SetLength(L); r.SetInitialTime(t0);
        double want = t0 + ((L > 0 && p > 0) ? L / (p / E * CL) : 0);
        VC_EXPECT(vc::close(r.GetInteractionTime(), want, 1e-9, 1e-9), "flight-time", h, " got ", r.GetInteractionTime(), " want ", want);
        VC_EXPECT(r.GetInteractionTime() >= t0 + L / CL * (p > 0) - 1e-9 * (1 + std::fabs(t0)) * (1 + L), "superluminal", h);
        InteractionRecord o; r.SetInteractionParameters({{"a", 1}}); r.SetInteractionParameter("b", 2); o.interaction_parameters["b"] = 9; o.interaction_parameters["c"] = 3; r.Finalize(o);
        VC_EXPECT((o.interaction_parameters == std::map<std::string, double>{{"a", 1}, {"b", 2}, {"c", 3}}), "primary-parameters", h);
    }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c;
    for (int n = 0; n <= 3; ++n) c.push_back({vc::cat("chain_", n, "_secondaries"), [=] { xsec(n); }, 0});
    c.push_back({"flight_times", times, 0});
    return vc::run(argc, argv, c);
}
