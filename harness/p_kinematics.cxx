// P02: whatever subset of a particle's kinematic quantities is supplied, in whatever order, and whatever was
// asked before, every quantity the record hands out agrees with the supplied ones, or the record refuses.
#include "vc.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/utilities/Constants.h"
using namespace siren::dataclasses;
typedef std::array<double, 3> V3;
struct Truth { double m, E, K; V3 d, p; double L; V3 x, v, c; double dv, di, t0, h; };
static Truth make(double m, double K, V3 d, V3 x, double L, double t0, double h) {
    Truth t; t.m = m; t.K = K; t.E = m + K; t.h = h; t.t0 = t0;
    double n = std::sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]); for (int i = 0; i < 3; ++i) t.d[i] = d[i] / n;
    double pm = std::sqrt(t.E*t.E - m*m); for (int i = 0; i < 3; ++i) t.p[i] = pm * t.d[i];
    t.L = L; t.x = x; for (int i = 0; i < 3; ++i) t.v[i] = x[i] + L * t.d[i];
    t.di = x[0]*t.d[0]+x[1]*t.d[1]+x[2]*t.d[2]; t.dv = t.di + L;
    for (int i = 0; i < 3; ++i) t.c[i] = x[i] - t.di * t.d[i];
    return t;
}
enum { M, E_, K_, D, P, L_, X, V, C, DV, DI, NQ };
static char const *QN[] = {"mass","energy","kinetic","direction","momentum","length","initial","vertex","closest","dvertex","dinitial"};
// one more "quantity": the interaction time
template <class R> static void setq(R &r, int q, Truth const &t) {
    switch (q) { case M: r.SetMass(t.m); break; case E_: r.SetEnergy(t.E); break; case K_: r.SetKineticEnergy(t.K); break;
        case D: r.SetDirection(t.d); break; case P: r.SetThreeMomentum(t.p); break; }
}
static void setp(PrimaryDistributionRecord &r, int q, Truth const &t) {
    switch (q) { case L_: r.SetLength(t.L); break; case X: r.SetInitialPosition(t.x); break; case V: r.SetInteractionVertex(t.v); break;
        case C: r.SetPointOfClosestApproach(t.c); break; case DV: r.SetVertexDistanceFromClosestApproach(t.dv); break;
        case DI: r.SetInitialDistanceFromClosestApproach(t.di); break; default: setq(r, q, t); }
}
static bool der(int q, unsigned s) {
    auto h = [&](std::initializer_list<int> l) { for (int i : l) if (!(s >> i & 1)) return false; return true; };
    switch (q) {
        case M: return h({M}) || h({E_,P}) || h({E_,K_});
        case E_: return h({E_}) || h({M,P}) || h({M,K_});
        case K_: return h({K_}) || h({M,E_}) || h({M,P});
        case D: return h({D}) || h({P}) || h({X,V});
        case P: return h({P}) || h({E_,M,D}) || h({M,K_,D});
        case L_: return h({L_}) || h({X,V}) || h({DI,DV});
        case X: return h({X}) || h({V,D,L_}) || h({V,D,DI,DV}) || h({DI,D,C});
        case V: return h({V}) || h({X,D,L_}) || h({X,D,DI,DV}) || h({DV,D,C});
        case C: return h({C}) || h({X,D,DI}) || h({V,D,DV}) || h({X,V});
        case DV: return h({DV}) || h({DI,L_}) || h({V,D}) || h({V,X}) || h({C,X,L_,D});
        case DI: return h({DI}) || h({DV,L_}) || h({X,D}) || h({V,X}) || h({C,V,L_,D});
    }
    return false;
}
static double tolp = 1e-9;
static bool veq(V3 const &a, V3 const &b, double scale) { for (int i = 0; i < 3; ++i) if (!vc::close(a[i], b[i], 1e-8, 1e-8 * scale)) return false; return true; }
static std::string vs(V3 const &a) { return vc::cat("(", a[0], ",", a[1], ",", a[2], ")"); }
// asks one quantity; 0 = threw, 1 = matches truth, 2 = mismatch
template <class R> static int askq(R const &r, int q, Truth const &t, std::string &got) {
    try {
        switch (q) {
            case M: { double g = r.GetMass(); got = vc::cat(g); return vc::close(g, t.m, 1e-7, 1e-7 * t.E) ? 1 : 2; }
            case E_: { double g = r.GetEnergy(); got = vc::cat(g); return vc::close(g, t.E) ? 1 : 2; }
            case K_: { double g = r.GetKineticEnergy(); got = vc::cat(g); return vc::close(g, t.K, 1e-9, 1e-12 * t.E) ? 1 : 2; }
            case D: { V3 g = r.GetDirection(); got = vs(g); return veq(g, t.d, 1) ? 1 : 2; }
            case P: { V3 g = r.GetThreeMomentum(); got = vs(g); return veq(g, t.p, t.E) ? 1 : 2; }
        }
    } catch (std::runtime_error const &) { return 0; }
    return 0;
}
static int ask(PrimaryDistributionRecord const &r, int q, Truth const &t, std::string &got) {
    double sc = 1 + std::fabs(t.L) + std::fabs(t.di);
    try {
        switch (q) {
            case L_: { double g = r.GetLength(); got = vc::cat(g); return vc::close(g, t.L, 1e-9, 1e-9 * sc) ? 1 : 2; }
            case X: { V3 g = r.GetInitialPosition(); got = vs(g); return veq(g, t.x, sc) ? 1 : 2; }
            case V: { V3 g = r.GetInteractionVertex(); got = vs(g); return veq(g, t.v, sc) ? 1 : 2; }
            case C: { V3 g = r.GetPointOfClosestApproach(); got = vs(g); return veq(g, t.c, sc) ? 1 : 2; }
            case DV: { double g = r.GetVertexDistanceFromClosestApproach(); got = vc::cat(g); return vc::close(g, t.dv, 1e-8, 1e-8 * sc) ? 1 : 2; }
            case DI: { double g = r.GetInitialDistanceFromClosestApproach(); got = vc::cat(g); return vc::close(g, t.di, 1e-8, 1e-8 * sc) ? 1 : 2; }
            default: return askq(r, q, t, got);
        }
    } catch (std::runtime_error const &) { return 0; }
}
static std::string sets(unsigned s) { std::string o = "{"; for (int i = 0; i < NQ; ++i) if (s >> i & 1) o += std::string(o.size() > 1 ? "," : "") + QN[i]; return o + "}"; }
static double tflight(Truth const &t) { double pm = std::sqrt(std::max(0., t.E*t.E - t.m*t.m)); return t.t0 + (pm > 0 ? t.L / (std::min(pm / t.E, 1.0) * siren::utilities::Constants::c) : 0); }

static void check_all(PrimaryDistributionRecord const &r, unsigned s, Truth const &t, int first, std::string const &hist) {
    int order[NQ]; for (int i = 0; i < NQ; ++i) order[i] = (first + i) % NQ;
    for (int i = 0; i < NQ; ++i) {
        int q = order[i]; std::string got; vc::step();
        int a = ask(r, q, t, got);
        if (der(q, s)) {
            VC_EXPECT(a != 0, vc::cat("refused:", QN[q]), hist, " set=", sets(s), ": ", QN[q], " is determined but was refused");
            VC_EXPECT(a != 2, vc::cat("inconsistent:", QN[q]), hist, " set=", sets(s), ": ", QN[q], " = ", got, " disagrees with the supplied quantities");
        } else VC_EXPECT(a != 2, vc::cat("invented:", QN[q]), hist, " set=", sets(s), ": ", QN[q], " = ", got, " cannot follow from what was supplied");
    }
    bool full4 = der(P, s) && der(E_, s);
    try {
        auto f = r.GetFourMomentum();
        VC_EXPECT(vc::close(f[0], t.E) && veq({f[1], f[2], f[3]}, t.p, t.E), "four-momentum", hist, " set=", sets(s), " E=", f[0]);
        VC_EXPECT(full4, "four-momentum-invented", hist, " set=", sets(s));
    } catch (std::runtime_error const &) { VC_EXPECT(!full4, "four-momentum-refused", hist, " set=", sets(s)); }
    bool tm = der(X, s) && der(V, s) && der(E_, s) && der(M, s);
    try {
        double g = r.GetInteractionTime();
        VC_EXPECT(vc::close(g, tflight(t), 1e-6, 1e-9), "interaction-time", hist, " set=", sets(s), " got ", g, " want ", tflight(t));
    } catch (std::runtime_error const &) { VC_EXPECT(!tm, "interaction-time-refused", hist, " set=", sets(s)); }
    // the particle view
    Particle p = r.GetParticle();
    VC_EXPECT(p.id == r.GetID() && p.type == r.GetType() && p.helicity == t.h, "particle-view-id", hist);
    if (der(M, s)) VC_EXPECT(vc::close(p.mass, t.m, 1e-7, 1e-7 * t.E), "particle-view-mass", hist, " set=", sets(s));
    if (full4) VC_EXPECT(vc::close(p.momentum[0], t.E) && veq({p.momentum[1], p.momentum[2], p.momentum[3]}, t.p, t.E), "particle-view-momentum", hist, " set=", sets(s));
    if (der(X, s)) VC_EXPECT(veq(p.position, t.x, 1 + std::fabs(t.L) + std::fabs(t.di)), "particle-view-position", hist, " set=", sets(s));
    if (der(L_, s)) VC_EXPECT(vc::close(p.length, t.L, 1e-8, 1e-8), "particle-view-length", hist, " set=", sets(s));
    // finalising
    InteractionRecord rec;
    bool fin = der(V, s) && der(X, s) && der(M, s) && full4;
    bool ok = true;
    try { r.Finalize(rec); } catch (std::runtime_error const &) { ok = false; }
    VC_EXPECT(ok == fin, "finalize-availability", hist, " set=", sets(s), " finalised=", ok, " determined=", fin);
    double sc = 1 + std::fabs(t.L) + std::fabs(t.di);
    if (ok && fin) VC_EXPECT(rec.primary_id == r.GetID() && rec.signature.primary_type == r.GetType() && veq(rec.interaction_vertex, t.v, sc) && veq(rec.primary_initial_position, t.x, sc)
        && vc::close(rec.primary_mass, t.m, 1e-7, 1e-7 * t.E) && vc::close(rec.primary_momentum[0], t.E) && veq({rec.primary_momentum[1], rec.primary_momentum[2], rec.primary_momentum[3]}, t.p, t.E)
        && rec.primary_helicity == t.h && rec.primary_initial_time == t.t0 && vc::close(rec.interaction_time, tflight(t), 1e-6, 1e-9), "finalize-content", hist, " set=", sets(s));
    InteractionRecord av; av.primary_mass = -7; av.primary_momentum = {-7,-7,-7,-7}; av.interaction_vertex = {-7,-7,-7}; av.primary_initial_position = {-7,-7,-7}; av.interaction_time = -7;
    r.FinalizeAvailable(av);
    VC_EXPECT(der(M, s) ? vc::close(av.primary_mass, t.m, 1e-7, 1e-7 * t.E) : av.primary_mass == -7, "finalize-available-mass", hist, " set=", sets(s));
    VC_EXPECT(der(E_, s) ? vc::close(av.primary_momentum[0], t.E) : av.primary_momentum[0] == -7, "finalize-available-energy", hist, " set=", sets(s));
    VC_EXPECT(der(P, s) ? veq({av.primary_momentum[1], av.primary_momentum[2], av.primary_momentum[3]}, t.p, t.E) : av.primary_momentum[3] == -7, "finalize-available-momentum", hist, " set=", sets(s));
    VC_EXPECT(der(V, s) ? veq(av.interaction_vertex, t.v, sc) : av.interaction_vertex[0] == -7, "finalize-available-vertex", hist, " set=", sets(s));
    VC_EXPECT(der(X, s) ? veq(av.primary_initial_position, t.x, sc) : av.primary_initial_position[0] == -7, "finalize-available-initial", hist, " set=", sets(s));
    VC_EXPECT(tm ? vc::close(av.interaction_time, tflight(t), 1e-6, 1e-9) : av.interaction_time == -7, "finalize-available-time", hist, " set=", sets(s), " got ", av.interaction_time);
    VC_EXPECT(av.primary_helicity == t.h && av.primary_initial_time == t.t0 && av.primary_id == r.GetID() && av.signature.primary_type == r.GetType(), "finalize-available-rest", hist);
    (void)tolp;
}
static std::vector<Truth> truths() {
    return { make(0.105, 2.4, {0.3, -0.5, 0.7}, {1, -2, -3}, 4.5, 0, 0),            // crosses the closest point
             make(1.5, 7.25, {0, 0, 1}, {2, 3, 5}, 11, 3.5, 0.5),                    // both beyond it
             make(0.0005, 40, {-1, 2, 2}, {30, -20, -50}, 1.75, -2.25, -0.5),        // both before it
             make(0, 5, {0.6, 0.8, 0}, {-4, 1, 2}, 25, 12.5, -0.5) };                // massless, exact arithmetic
}
static void primary(int ti, int shard, int nsh) {
    auto T = truths(); Truth const &t = T[ti]; Truth const &o = T[(ti + 1) % T.size()];
    for (unsigned s = shard; s < (1u << NQ); s += nsh) {
        vc::note(vc::cat("primary truth ", ti, " ", sets(s)));
        vc::state(vc::cat("primary:", ti, ":", sets(s)));
        for (int h = 0; h < (vc::thorough() ? 3 + NQ : 4); ++h) {
            PrimaryDistributionRecord r(ParticleType::NuMu);
            r.SetHelicity(t.h); r.SetInitialTime(t.t0);
            std::string hist = vc::cat("truth", ti, " history", h);
            if (h == 0) for (int q = 0; q < NQ; ++q) { if (s >> q & 1) setp(r, q, t); }
            else if (h == 1) {                       // stale values first, everything asked in between
                for (int q = 0; q < NQ; ++q) if (s >> q & 1) setp(r, q, o);
                r.SetHelicity(o.h); r.SetInitialTime(o.t0);
                check_all(r, s, o, 0, hist + " (first values)");
                for (int q = NQ; q-- > 0;) if (s >> q & 1) setp(r, q, t);
                r.SetHelicity(t.h); r.SetInitialTime(t.t0);
            } else if (h == 2) {                     // asked after every single set
                unsigned part = 0;
                for (int q = NQ; q-- > 0;) if (s >> q & 1) { setp(r, q, t); part |= 1u << q; for (int g = 0; g < NQ; ++g) { std::string got; int a = ask(r, g, t, got);
                    VC_EXPECT(a != 2 && (a == 1) >= der(g, part), vc::cat("incremental:", QN[g]), hist, " set=", sets(part), " ", QN[g], "=", got); } }
            } else {
                if ((s >> E_ & 1) && (s >> P & 1)) { r.SetFourMomentum({t.E, t.p[0], t.p[1], t.p[2]}); for (int q = 0; q < NQ; ++q) if ((s >> q & 1) && q != E_ && q != P) setp(r, q, t); }
                else for (int q = 0; q < NQ; ++q) if (s >> q & 1) setp(r, (q + h) % NQ == q ? q : q, t);
                if ((s & 0xff & ~(1u << K_) & ~(1u << D) & ~(1u << V)) == ((1u << M) | (1u << E_) | (1u << P) | (1u << L_) | (1u << X))) {
                    PrimaryDistributionRecord r2(ParticleType::NuMu); Particle p; p.id = r2.GetID(); p.type = ParticleType::NuMu; p.mass = t.m; p.momentum = {t.E, t.p[0], t.p[1], t.p[2]}; p.position = t.x; p.length = t.L; p.helicity = t.h;
                    r2.SetParticle(p); r2.SetInitialTime(t.t0);
                    for (int q : {K_, D, V, C, DV, DI}) if (s >> q & 1) setp(r2, q, t);
                    check_all(r2, s, t, 0, hist + " (via particle)");
                    p.id = ParticleID(7, 7); bool threw = false; try { r2.SetParticle(p); } catch (std::runtime_error const &) { threw = true; }
                    VC_EXPECT(threw, "foreign-particle-accepted", "SetParticle with another id was accepted");
                    p.id = r2.GetID(); p.type = ParticleType::NuE; threw = false; try { r2.SetParticle(p); } catch (std::runtime_error const &) { threw = true; }
                    VC_EXPECT(threw, "foreign-particle-accepted", "SetParticle with another type was accepted");
                }
            }
            check_all(r, s, t, (h * 5) % NQ, hist);
            // an explicit interaction time always wins
            r.SetInteractionTime(98.5); VC_EXPECT(r.GetInteractionTime() == 98.5, "explicit-time", hist, " set=", sets(s));
            vc::trace();
        }
    }
}
static void secondary(int ti) {
    auto T = truths(); Truth const &t = T[ti]; Truth const &o = T[(ti + 1) % T.size()];
    InteractionRecord parent; parent.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons}; parent.interaction_vertex = {1, 2, 3}; parent.interaction_time = 4.5;
    for (unsigned s = 0; s < (1u << 5); ++s) for (int h = 0; h < 4; ++h) {
        vc::note(vc::cat("secondary truth ", ti, " ", sets(s))); vc::state(vc::cat("secondary:", ti, ":", s, ":", h));
        SecondaryParticleRecord r(parent, h & 1);
        std::string hist = vc::cat("secondary truth", ti, " history", h);
        if (h == 1) { for (int q = 0; q < 5; ++q) if (s >> q & 1) { setq(r, q, o); for (int g = 0; g < 5; ++g) { std::string got; askq(r, g, o, got); } } r.SetHelicity(o.h); }
        if (h == 2 && (s >> E_ & 1) && (s >> P & 1)) { r.SetFourMomentum({t.E, t.p[0], t.p[1], t.p[2]}); for (int q : {M, K_, D}) if (s >> q & 1) setq(r, q, t); }
        else if (h == 3 && (s & ((1u<<M)|(1u<<E_)|(1u<<P))) == ((1u<<M)|(1u<<E_)|(1u<<P))) {
            Particle p; p.id = r.GetID(); p.type = r.GetType(); p.mass = t.m; p.momentum = {t.E, t.p[0], t.p[1], t.p[2]}; p.helicity = t.h; r.SetParticle(p);
            for (int q : {K_, D}) if (s >> q & 1) setq(r, q, t); }
        else for (int q = 5; q-- > 0;) if (s >> q & 1) setq(r, q, t);
        r.SetHelicity(t.h);
        for (int first = 0; first < 5; ++first) for (int i = 0; i < 5; ++i) {
            int q = (first + i) % 5; std::string got; int a = askq(r, q, t, got); vc::step();
            if (der(q, s)) VC_EXPECT(a == 1, vc::cat(a ? "secondary-inconsistent:" : "secondary-refused:", QN[q]), hist, " set=", sets(s), " ", QN[q], "=", got);
            else VC_EXPECT(a != 2, vc::cat("secondary-invented:", QN[q]), hist, " set=", sets(s), " ", QN[q], "=", got);
        }
        bool full4 = der(P, s) && der(E_, s);
        try { auto f = r.GetFourMomentum(); VC_EXPECT(full4 && vc::close(f[0], t.E) && veq({f[1], f[2], f[3]}, t.p, t.E), "secondary-four-momentum", hist, " set=", sets(s)); }
        catch (std::runtime_error const &) { VC_EXPECT(!full4, "secondary-four-momentum-refused", hist, " set=", sets(s)); }
        Particle p = r.GetParticle();
        VC_EXPECT(p.helicity == t.h && p.id == r.GetID() && p.type == r.GetType() && p.position == parent.interaction_vertex, "secondary-particle-view", hist);
        if (der(M, s)) VC_EXPECT(vc::close(p.mass, t.m, 1e-7, 1e-7 * t.E), "secondary-particle-view-mass", hist, " set=", sets(s));
        if (full4) VC_EXPECT(vc::close(p.momentum[0], t.E) && veq({p.momentum[1], p.momentum[2], p.momentum[3]}, t.p, t.E), "secondary-particle-view-momentum", hist, " set=", sets(s));
        VC_EXPECT(r.GetTime() == 4.5, "secondary-default-time", hist); r.SetTime(9.25); VC_EXPECT(r.GetTime() == 9.25, "secondary-explicit-time", hist);
        vc::trace();
    }
}
int main(int argc, char **argv) {
    std::vector<vc::Case> cases;
    for (int t = 0; t < 4; ++t) for (int sh = 0; sh < 2; ++sh) cases.push_back({vc::cat("primary_truth", t, "_shard", sh), [=] { primary(t, sh, 2); }, 0});
    for (int t = 0; t < 4; ++t) cases.push_back({vc::cat("secondary_truth", t), [=] { secondary(t); }, 0});
    return vc::run(argc, argv, cases);
}
