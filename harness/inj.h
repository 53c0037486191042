// Interactions and distributions with known behaviour for injectors and weighters.
#pragma once
#include "draw.h"
#include "world3.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/Decay.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/distributions/primary/vertex/VertexPositionDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryVertexPositionDistribution.h"
#include "SIREN/injection/Process.h"
#include "SIREN/injection/Injector.h"
#include "SIREN/injection/WeightingUtils.h"
#include <cereal/archives/binary.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/vector.hpp>
namespace inj {
using namespace w3; using namespace siren::distributions; using namespace siren::interactions; using namespace siren::dataclasses; using namespace siren::injection;
typedef ParticleType PT; using siren::utilities::SIREN_random; using siren::utilities::InjectionFailure;
typedef std::shared_ptr<siren::detector::DetectorModel const> CDM; typedef std::shared_ptr<InteractionCollection const> CIC;
static const PT P0 = PT::NuMu, A = PT::MuMinus, B = PT::PiPlus, X = PT::Gamma; static const double MASS = 0.4;
struct Chan { int32_t parent, target; std::vector<int32_t> sec; double s; template <class Ar> void serialize(Ar &a) { a(parent, target, sec, s); }
    InteractionSignature sig() const { InteractionSignature g; g.primary_type = PT(parent); g.target_type = PT(target); for (int t : sec) g.secondary_types.push_back(PT(t)); return g; } };
inline Chan chan(PT p, PT t, std::vector<PT> s, double v) { Chan c{int32_t(p), int32_t(t), {}, v}; for (PT x : s) c.sec.push_back(int32_t(x)); return c; }
// what the fakes did
struct Call { char kind; int who; ParticleID id; InteractionSignature sig; double t; std::array<double, 3> a, b; std::vector<std::array<double, 4>> p; double t0 = 0; };
inline std::vector<Call> L; inline bool thrown = false; inline void const *want_detector = nullptr, *want_random = nullptr; inline long foreign = 0;
inline double mass(PT t) { return t == P0 ? MASS : t == A ? 0.11 : t == B ? 0.14 : 0; }
inline bool late(int who, size_t i) { return (who == 1 || who == 4) && i == 1; }   // this interaction delays that secondary
inline void final_state(int who, CrossSectionDistributionRecord &r) {
    Call c{'X', who, r.GetPrimaryID(), r.GetSignature(), r.GetInteractionTime(), r.GetInteractionVertex(), r.GetPrimaryInitialPosition(), {}}; c.t0 = c.t; auto &s = r.GetSecondaryParticleRecords(); double E = r.GetPrimaryMomentum()[0];
    for (size_t i = 0; i < s.size(); ++i) { double m = mass(r.GetSignature().secondary_types[i]), e = m + E * (0.3 + 0.1 * i + 0.01 * who), p = std::sqrt(e * e - m * m); Vector3D d(0.3 + 0.2 * i, -0.4 + 0.1 * who, 0.5 - 0.4 * i); d.normalize(); std::array<double, 4> q = {e, p * d.GetX(), p * d.GetY(), p * d.GetZ()}; s[i].SetMass(m); s[i].SetFourMomentum(q); s[i].SetHelicity(0.5 - i); if (late(who, i)) s[i].SetTime(r.GetInteractionTime() + 40); c.p.push_back(q); }
    r.SetInteractionParameter("who", who); L.push_back(c); }
// a cross section with several channels; its value depends on all it is told
struct IX : CrossSection { int32_t id = 0; double shift = 0; std::vector<Chan> c; IX() {} IX(int id, std::vector<Chan> c, double shift = 0) : id(id), shift(shift), c(c) {}
    static double val(double s, double E, double tm) { return s * std::sqrt(E) * (1 + 0.01 * tm); } static double fsp(int id, InteractionRecord const &r) { double v = 0.2 + 0.07 * id; for (auto &p : r.secondary_momenta) v += 0.03 * p[0]; return v; }
    bool equal(CrossSection const &o) const override { auto x = dynamic_cast<IX const *>(&o); return x && x->id == id; }
    double TotalCrossSection(InteractionRecord const &r) const override { for (auto &q : c) if (q.sig() == r.signature) return std::fabs(r.primary_mass - mass(PT(q.parent))) > 1e-9 ? 1e30 : val(q.s, r.primary_momentum[0], r.target_mass); return 1e30; }
    double TotalCrossSectionAllFinalStates(InteractionRecord const &r) const override { double s = 0; for (auto &q : c) if (PT(q.parent) == r.signature.primary_type && PT(q.target) == r.signature.target_type) s += val(q.s, r.primary_momentum[0], r.target_mass); return s; }
    double DifferentialCrossSection(InteractionRecord const &) const override { return 0; } double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &r, std::shared_ptr<SIREN_random>) const override { final_state(id, r); }
    double SampleInteractionTime(CrossSectionDistributionRecord const &r, std::shared_ptr<SIREN_random>) const override { double t = r.GetInteractionTime() + shift; L.back().t = t; return t; }
    std::vector<PT> GetPossibleTargets() const override { std::vector<PT> t; for (auto &q : c) t.push_back(PT(q.target)); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); return t; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return GetPossibleTargets(); }
    std::vector<PT> GetPossiblePrimaries() const override { return {PT(c[0].parent)}; } std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> s; for (auto &q : c) s.push_back(q.sig()); return s; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT t) const override { std::vector<InteractionSignature> s; for (auto &q : c) if (PT(q.parent) == p && PT(q.target) == t) s.push_back(q.sig()); return s; }
    double FinalStateProbability(InteractionRecord const &r) const override { return fsp(id, r); } std::vector<std::string> DensityVariables() const override { return id % 2 ? std::vector<std::string>{vc::cat("x", id), "y"} : std::vector<std::string>{"y"}; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, shift, c); a(cereal::virtual_base_class<CrossSection>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, shift, c); a(cereal::virtual_base_class<CrossSection>(this)); } };
struct ID : Decay { int32_t id = 0; double shift = 0; std::vector<Chan> c; ID() {} ID(int id, std::vector<Chan> c, double shift = 0) : id(id), shift(shift), c(c) {}   // channel value: width in GeV
    bool equal(Decay const &o) const override { auto x = dynamic_cast<ID const *>(&o); return x && x->id == id; }
    double TotalDecayWidthAllFinalStates(InteractionRecord const &r) const override { double s = 0; for (auto &q : c) if (PT(q.parent) == r.signature.primary_type) s += q.s; return s; } double TotalDecayWidth(PT p) const override { double s = 0; for (auto &q : c) if (PT(q.parent) == p) s += q.s; return s; }
    double TotalDecayWidth(InteractionRecord const &r) const override { for (auto &q : c) if (q.sig() == r.signature) return q.s; return 1e30; } double DifferentialDecayWidth(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &r, std::shared_ptr<SIREN_random>) const override { final_state(id, r); }
    double SampleDecayTime(CrossSectionDistributionRecord const &r, std::shared_ptr<SIREN_random>) const override { double t = r.GetInteractionTime() + shift; L.back().t = t; return t; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> s; for (auto &q : c) s.push_back(q.sig()); return s; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT p) const override { std::vector<InteractionSignature> s; for (auto &q : c) if (PT(q.parent) == p) s.push_back(q.sig()); return s; }
    double FinalStateProbability(InteractionRecord const &r) const override { return IX::fsp(id, r); } std::vector<std::string> DensityVariables() const override { return {}; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, shift, c); a(cereal::virtual_base_class<Decay>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, shift, c); a(cereal::virtual_base_class<Decay>(this)); } };
inline void saw(std::shared_ptr<SIREN_random> const &r, CDM const &d) { if ((want_detector && d.get() != want_detector) || (want_random && r.get() != want_random)) ++foreign; }
// sets the kinematics of the primary
struct FP : virtual PrimaryInjectionDistribution { int32_t id = 0; double E = 0; Vector3D dir; FP() {} FP(int id, double E, Vector3D d) : id(id), E(E), dir(d) { dir.normalize(); }
    void Sample(std::shared_ptr<SIREN_random> r, CDM d, CIC, PrimaryDistributionRecord &rec) const override { saw(r, d); rec.SetMass(MASS); rec.SetEnergy(E); rec.SetDirection((std::array<double, 3>)dir); rec.SetHelicity(-0.5); rec.SetInitialTime(3.0); L.push_back({'P', id, rec.GetID(), {}, 0, {}, {}, {}}); }
    static double den(int id, InteractionRecord const &r) { return 0.31 + 0.11 * id + 0.02 * r.primary_momentum[0]; } double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return den(id, r); }
    std::string Name() const override { return "FP"; } std::shared_ptr<PrimaryInjectionDistribution> clone() const override { return std::make_shared<FP>(*this); } std::vector<std::string> DensityVariables() const override { return {"FP"}; }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FP const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FP const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { double x = dir.GetX(), y = dir.GetY(), z = dir.GetZ(); a(id, E, x, y, z); a(cereal::virtual_base_class<PrimaryInjectionDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { double x, y, z; a(id, E, x, y, z); dir = Vector3D(x, y, z); a(cereal::virtual_base_class<PrimaryInjectionDistribution>(this)); } };
// a factor of the density that sets nothing
struct FG : virtual PrimaryInjectionDistribution { int32_t id = 0; double k = 1; FG() {} FG(int id, double k = 1) : id(id), k(k) {} void Sample(std::shared_ptr<SIREN_random> r, CDM d, CIC, PrimaryDistributionRecord &rec) const override { saw(r, d); L.push_back({'P', id, rec.GetID(), {}, 0, {}, {}, {}}); }
    static double den(int id, double k, InteractionRecord const &r) { return k * (0.4 + 0.13 * id + 0.05 * std::fabs(r.interaction_vertex[id % 3])); } double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return den(id, k, r); }
    std::string Name() const override { return "FG"; } std::shared_ptr<PrimaryInjectionDistribution> clone() const override { return std::make_shared<FG>(*this); } std::vector<std::string> DensityVariables() const override { return {"FG"}; }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FG const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FG const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, k); a(cereal::virtual_base_class<PrimaryInjectionDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, k); a(cereal::virtual_base_class<PrimaryInjectionDistribution>(this)); } };
// places the primary vertex; refuses a fifth of its words
struct FV : virtual VertexPositionDistribution { int32_t id = 0; double before = 1, after = 1, cut = -1e9; FV() {} FV(int id, double before = 1, double after = 1, double cut = -1e9) : id(id), before(before), after(after), cut(cut) {}
    std::tuple<Vector3D, Vector3D> SamplePosition(std::shared_ptr<SIREN_random> r, CDM d, CIC, PrimaryDistributionRecord &rec) const override { saw(r, d); double u = r->Uniform(0, 1); if (u < 0.2) { thrown = true; throw InjectionFailure("refused"); } Vector3D dir(rec.GetDirection()), v(0.1 + u, 0.2, -0.3); Vector3D i = v - dir * 2.5; L.push_back({'V', id, rec.GetID(), {}, 0, (std::array<double, 3>)v, (std::array<double, 3>)i, {}}); return std::make_tuple(i, v); }
    static bool in(double cut, InteractionRecord const &r) { return r.interaction_vertex[0] >= cut; }
    static double den(int id, double cut, InteractionRecord const &r) { return in(cut, r) ? 0.15 + 0.05 * id + 0.02 * std::fabs(r.interaction_vertex[1]) : 0; } double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return den(id, cut, r); }
    static std::tuple<Vector3D, Vector3D> bounds(double before, double after, double cut, InteractionRecord const &r) { if (!in(cut, r)) return std::make_tuple(Vector3D(0, 0, 0), Vector3D(0, 0, 0)); Vector3D d(r.primary_momentum[1], r.primary_momentum[2], r.primary_momentum[3]), v(r.interaction_vertex); d.normalize(); return std::make_tuple(v - d * before, v + d * after); }
    std::tuple<Vector3D, Vector3D> InjectionBounds(CDM, CIC, InteractionRecord const &r) const override { return bounds(before, after, cut, r); }
    std::string Name() const override { return "FV"; } std::shared_ptr<PrimaryInjectionDistribution> clone() const override { return std::make_shared<FV>(*this); }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FV const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FV const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, before, after, cut); a(cereal::virtual_base_class<VertexPositionDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, before, after, cut); a(cereal::virtual_base_class<VertexPositionDistribution>(this)); } };
struct FS : virtual SecondaryVertexPositionDistribution { int32_t id = 0; double before = 1, after = 1, cut = -1e9; FS() {} FS(int id, double before = 1, double after = 1, double cut = -1e9) : id(id), before(before), after(after), cut(cut) {}
    void SampleVertex(std::shared_ptr<SIREN_random> r, CDM d, CIC, SecondaryDistributionRecord &rec) const override { saw(r, d); double u = r->Uniform(0, 1); if (u < 0.2) { thrown = true; throw InjectionFailure("refused"); } rec.SetLength(0.2 + u); if (id == 7) rec.SetInteractionTime(rec.initial_time + 5); L.push_back({'S', id, rec.id, {}, 0.2 + u, {}, {}, {}}); }
    double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return FV::den(id, cut, r); } std::tuple<Vector3D, Vector3D> InjectionBounds(CDM, CIC, InteractionRecord const &r) const override { return FV::bounds(before, after, cut, r); }
    std::string Name() const override { return "FS"; } std::shared_ptr<SecondaryInjectionDistribution> clone() const override { return std::make_shared<FS>(*this); }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FS const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FS const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, before, after, cut); a(cereal::virtual_base_class<SecondaryVertexPositionDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, before, after, cut); a(cereal::virtual_base_class<SecondaryVertexPositionDistribution>(this)); } };
struct FH : virtual SecondaryInjectionDistribution { int32_t id = 0; double k = 1; FH() {} FH(int id, double k = 1) : id(id), k(k) {} void Sample(std::shared_ptr<SIREN_random> r, CDM d, CIC, SecondaryDistributionRecord &rec) const override { saw(r, d); L.push_back({'H', id, rec.id, {}, 0, {}, {}, {}}); }
    double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return FG::den(id, k, r); } std::string Name() const override { return "FH"; } std::shared_ptr<SecondaryInjectionDistribution> clone() const override { return std::make_shared<FH>(*this); } std::vector<std::string> DensityVariables() const override { return {"FH"}; }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FH const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FH const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, k); a(cereal::virtual_base_class<SecondaryInjectionDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, k); a(cereal::virtual_base_class<SecondaryInjectionDistribution>(this)); } };
// a physical-only factor, with a normalisation
struct FW : virtual WeightableDistribution, virtual PhysicallyNormalizedDistribution { int32_t id = 0; double k = 1; FW() {} FW(int id, double k = 1) : id(id), k(k) {} double GenerationProbability(CDM, CIC, InteractionRecord const &r) const override { return FG::den(id + 5, k, r); } std::string Name() const override { return "FW"; } std::vector<std::string> DensityVariables() const override { return {"FW"}; }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<FW const *>(&o); return x && x->id == id; } bool less(WeightableDistribution const &o) const override { return id < dynamic_cast<FW const &>(o).id; }
    template <class Ar> void save(Ar &a, std::uint32_t const) const { a(id, k); a(cereal::virtual_base_class<WeightableDistribution>(this)); a(cereal::virtual_base_class<PhysicallyNormalizedDistribution>(this)); } template <class Ar> void load(Ar &a, std::uint32_t const) { a(id, k); a(cereal::virtual_base_class<WeightableDistribution>(this)); a(cereal::virtual_base_class<PhysicallyNormalizedDistribution>(this)); } };
// the rates per cm of all channels of a set of interactions at a point
struct Rate { int who; InteractionSignature sig; double rate; };
inline double width(double length_m, double p, double m) { return p / m / length_m * siren::utilities::Constants::hbarc; }
inline bool rates(Det const &D, std::vector<IX> const &xs, std::vector<ID> const &ds, InteractionRecord const &r, std::vector<Rate> &out) {
    out.clear(); Vector3D g = D.f.rot.rotate(Vector3D(r.interaction_vertex), false) + D.f.origin; bool c; int v = D.M.at(g, c); if (!c) return false; double rho = D.M.rho(v, g), E = r.primary_momentum[0], p = std::sqrt(std::max(0.0, E * E - r.primary_mass * r.primary_mass));
    for (auto &x : xs) for (auto &q : x.c) if (PT(q.parent) == r.signature.primary_type) { double n = per_target(D, v, {PT(q.target)})[0] * rho; out.push_back({x.id, q.sig(), n * IX::val(q.s, E, D.d->GetTargetMass(PT(q.target)))}); }
    for (auto &d : ds) for (auto &q : d.c) if (PT(q.parent) == r.signature.primary_type) out.push_back({d.id, q.sig(), q.s * r.primary_mass / p / siren::utilities::Constants::hbarc / 100});
    return true; }
inline double total(std::vector<Rate> const &v) { double s = 0; for (auto &r : v) s += r.rate; return s; }
inline double selected(std::vector<Rate> const &v, InteractionRecord const &r) { double s = 0, t = 0; for (auto &q : v) { t += q.rate; if (q.sig == r.signature) s += q.rate * IX::fsp(q.who, r); } return t > 0 ? s / t : 0; }
inline std::shared_ptr<InteractionCollection> collection(PT p, std::vector<IX> const &xs, std::vector<ID> const &ds) { std::vector<std::shared_ptr<CrossSection>> a; std::vector<std::shared_ptr<Decay>> b; for (auto &x : xs) a.push_back(std::make_shared<IX>(x)); for (auto &d : ds) b.push_back(std::make_shared<ID>(d)); return std::make_shared<InteractionCollection>(p, a, b); }
inline std::string sname(InteractionSignature const &s) { std::string o = vc::cat(int(s.primary_type), "+", int(s.target_type), "->"); for (PT t : s.secondary_types) o += vc::cat(" ", int(t)); return o; }
}
#define INJ_REG(T, BASE) CEREAL_CLASS_VERSION(inj::T, 0); CEREAL_REGISTER_TYPE(inj::T); CEREAL_REGISTER_POLYMORPHIC_RELATION(BASE, inj::T);
INJ_REG(IX, siren::interactions::CrossSection) INJ_REG(ID, siren::interactions::Decay) INJ_REG(FP, siren::distributions::PrimaryInjectionDistribution) INJ_REG(FG, siren::distributions::PrimaryInjectionDistribution) INJ_REG(FV, siren::distributions::VertexPositionDistribution)
INJ_REG(FS, siren::distributions::SecondaryVertexPositionDistribution) INJ_REG(FH, siren::distributions::SecondaryInjectionDistribution) INJ_REG(FW, siren::distributions::WeightableDistribution)
