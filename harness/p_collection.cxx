// P19: a collection of interactions answers for exactly the interactions put into it, however it was built.
#define DRAW_NO_DISTRIBUTIONS
#include "draw.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/ElasticScattering.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/utilities/Constants.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <sstream>
#include <limits>
using namespace siren::interactions; using namespace siren::dataclasses; typedef ParticleType PT; using siren::utilities::SIREN_random;
static PT const TG[3] = {PT::HNucleus, PT::O16Nucleus, PT::EMinus};
struct MX : CrossSection { // targets by bit mask; nsig signatures on each; value depends on everything asked
    int id, mask, nsig; MX(int id, int mask, int nsig) : id(id), mask(mask), nsig(nsig) {}
    static double val(int id, int t, size_t sig) { return (1 << (4 * id)) * (1 + t) * (sig == 2 ? 1 : 0.25 * (double)sig + 0.01); }
    bool equal(CrossSection const &o) const override { auto x = dynamic_cast<MX const *>(&o); return x && x->id == id && x->mask == mask && x->nsig == nsig; }
    double TotalCrossSection(InteractionRecord const &r) const override { for (int t = 0; t < 3; ++t) if (r.signature.target_type == TG[t] && (mask >> t & 1)) return val(id, t, r.signature.secondary_types.size()) * r.primary_momentum[0]; return -1e9; }
    double DifferentialCrossSection(InteractionRecord const &) const override { return 0; } double InteractionThreshold(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &x, std::shared_ptr<SIREN_random>) const override { auto &s = x.GetSecondaryParticleRecords(); for (size_t i = 0; i < s.size(); ++i) { s[i].SetMass(0); s[i].SetFourMomentum({1.0 + i + id, 0, 0, 1.0 + i + id}); s[i].SetHelicity(0.5 * id); } x.SetInteractionParameters({{"id", (double)id}}); }
    std::vector<PT> GetPossibleTargets() const override { std::vector<PT> v; for (int t = 2; t >= 0; --t) if (mask >> t & 1) v.push_back(TG[t]); return v; }
    std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return GetPossibleTargets(); } std::vector<PT> GetPossiblePrimaries() const override { return {PT::NuMu, PT::NuE}; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> v; for (PT p : GetPossiblePrimaries()) for (PT t : GetPossibleTargets()) for (auto const &s : GetPossibleSignaturesFromParents(p, t)) v.push_back(s); return v; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT t) const override { std::vector<InteractionSignature> v; auto tg = GetPossibleTargets(); if (std::find(tg.begin(), tg.end(), t) == tg.end() || (p != PT::NuMu && p != PT::NuE)) return v; for (int k = 1; k <= nsig; ++k) { InteractionSignature s; s.primary_type = p; s.target_type = t; s.secondary_types.assign(k + 1, PT::Gamma); v.push_back(s); } return v; }
    double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; }
};
struct MD : Decay { int id; double w; MD(int id, double w) : id(id), w(w) {} bool equal(Decay const &o) const override { auto x = dynamic_cast<MD const *>(&o); return x && x->id == id && x->w == w; }
    double TotalDecayWidthAllFinalStates(InteractionRecord const &r) const override { return w * (r.signature.primary_type == PT::NuMu ? 1 : 2); } double TotalDecayWidth(PT) const override { return w; } double TotalDecayWidth(InteractionRecord const &) const override { return 0.5 * w; } double DifferentialDecayWidth(InteractionRecord const &) const override { return 0; }
    void SampleFinalState(CrossSectionDistributionRecord &, std::shared_ptr<SIREN_random>) const override {} std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT) const override { return {}; } double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; } };
struct Neither : Interaction {};
typedef std::vector<std::shared_ptr<CrossSection>> XS; typedef std::vector<std::shared_ptr<Decay>> DS;
static InteractionRecord rec(PT p, double E, double m, int t) { InteractionRecord r; r.signature.primary_type = p; r.primary_mass = m; r.primary_momentum = {E, 0, 0, std::sqrt(E * E - m * m)}; r.signature.target_type = t < 0 ? PT::unknown : TG[t]; r.signature.secondary_types = {PT::Gamma, PT::Gamma}; return r; }
static void same(InteractionCollection const &c, PT pt, XS const &xs, DS const &ds, std::string const &w) {
    VC_EXPECT(c.GetPrimaryType() == pt, "collection:primary", w); VC_EXPECT(c.GetCrossSections() == xs && c.GetDecays() == ds, "collection:members", w); VC_EXPECT(c.HasCrossSections() == !xs.empty() && c.HasDecays() == !ds.empty(), "collection:has", w);
    std::map<PT, XS> by; for (auto const &x : xs) for (PT t : x->GetPossibleTargets()) by[t].push_back(x); std::set<PT> tt; for (auto const &p : by) tt.insert(p.first);
    VC_EXPECT(c.TargetTypes() == tt, "collection:targets", w, " has ", c.TargetTypes().size(), " expected ", tt.size()); VC_EXPECT(c.GetCrossSectionsByTarget() == by, "collection:by-target", w);
    for (PT t : {TG[0], TG[1], TG[2], PT::unknown, PT::C12Nucleus}) VC_EXPECT(c.GetCrossSectionsForTarget(t) == (by.count(t) ? by[t] : XS{}), "collection:for-target", w, " target ", (int)t);
    for (PT p : {PT::NuMu, PT::NuE}) for (double E : {2.0, 5.0}) for (int rt = -1; rt < 3; ++rt) { InteractionRecord r = rec(p, E, 0.5, rt); InteractionRecord keep = r; auto a = c.TotalCrossSectionByTarget(r), b = c.TotalCrossSectionByTargetAllFinalStates(r); vc::step(); vc::trace();
        std::map<PT, double> ea, eb; for (auto const &q : by) { double A = 0, B = 0; int t = q.first == TG[0] ? 0 : q.first == TG[1] ? 1 : 2; for (auto const &x : q.second) { auto m = std::dynamic_pointer_cast<MX>(x); A += MX::val(m->id, t, 2) * E; for (int k = 1; k <= m->nsig; ++k) B += MX::val(m->id, t, k + 1) * E; } ea[q.first] = A; eb[q.first] = B; }
        auto cmp = [&](std::map<PT, double> const &g, std::map<PT, double> const &e, char const *k) { bool ok = g.size() == e.size(); for (auto const &q : e) ok = ok && g.count(q.first) && vc::close(g.at(q.first), q.second, 1e-12); VC_EXPECT(ok, std::string("collection:") + k, w, " primary ", (int)p, " E=", E, " recorded target ", rt); }; cmp(a, ea, "total-by-target"); cmp(b, eb, "total-all-final-states");
        double W = 0; for (auto const &d : ds) W += d->TotalDecayWidthAllFinalStates(r); double L = W > 0 ? std::sqrt(E * E - 0.25) / 0.5 / W * 1.973269804e-16 : std::numeric_limits<double>::infinity(); VC_EXPECT(vc::close(c.TotalDecayWidthAllFinalStates(r), W, 1e-12), "collection:width", w, " ", c.TotalDecayWidthAllFinalStates(r), " expected ", W);
        double g = c.TotalDecayLengthAllFinalStates(r); VC_EXPECT(std::isinf(L) ? (std::isinf(g) && g > 0) : vc::close(g, L, 1e-3), "collection:decay-length", w, " ", g, " expected ", L); VC_EXPECT(c.MatchesPrimary(r) == (p == pt), "collection:matches", w); VC_EXPECT(r == keep, "collection:record-untouched", w); }
}
static void explore(int nx) {
    int maxd = 2; std::vector<std::shared_ptr<MD>> dec = {std::make_shared<MD>(1, 1e-15), std::make_shared<MD>(2, 3e-15), std::make_shared<MD>(3, 0.0)};
    std::vector<int> masks(nx, 0); std::function<void(int)> go = [&](int k) { if (k < nx) { for (int m = 0; m < 8; ++m) { masks[k] = m; go(k + 1); } return; }
        XS xs; std::string w = "targets"; for (int i = 0; i < nx; ++i) { xs.push_back(std::make_shared<MX>(i + 1, masks[i], 1 + (i + masks[i]) % 3)); w += vc::cat(" ", masks[i]); }
        std::vector<std::vector<int>> dsets = {{}, {0}, {2}, {0, 1}, {1, 2}, {1, 0, 2}}; if (nx == 3 && !vc::thorough()) dsets = {{}, {1, 0, 2}}; (void)maxd;
        for (auto const &di : dsets) { DS ds; for (int d : di) ds.push_back(dec[d]); std::string w2 = vc::cat(w, " decays ", ds.size()); vc::state(vc::cat(w2, di.empty() ? -1 : di[0])); vc::note(w2);
            for (PT pt : {PT::NuMu, PT::NuE}) { if (ds.empty()) same(InteractionCollection(pt, xs), pt, xs, ds, w2 + " (cross sections)"); if (xs.empty()) same(InteractionCollection(pt, ds), pt, xs, ds, w2 + " (decays)"); InteractionCollection both(pt, xs, ds); same(both, pt, xs, ds, w2 + " (both)");
                // every interleaving of the two lists through the generic constructor
                std::vector<std::shared_ptr<Interaction>> all; std::function<void(size_t, size_t)> mix = [&](size_t i, size_t j) { if (i == xs.size() && j == ds.size()) { InteractionCollection g(pt, all); same(g, pt, xs, ds, w2 + " (generic)"); VC_EXPECT(g == both, "collection:equality", w2, " generic constructor"); return; } if (i < xs.size()) { all.push_back(xs[i]); mix(i + 1, j); all.pop_back(); } if (j < ds.size()) { all.push_back(ds[j]); mix(i, j + 1); all.pop_back(); } }; mix(0, 0);
                for (PT np : {PT::NuE, PT::NuMu}) { InteractionCollection c2(both); c2.SetPrimaryType(np); same(c2, np, xs, ds, w2 + " (retyped)"); VC_EXPECT((c2 == both) == (np == pt), "collection:equality", w2, " retyped"); same(both, pt, xs, ds, w2 + " (source of copy)"); InteractionCollection c3; c3 = c2; same(c3, np, xs, ds, w2 + " (assigned)"); } }
            // equal contents held in different objects; different contents
            XS xc; for (auto const &x : xs) xc.push_back(std::make_shared<MX>(*std::dynamic_pointer_cast<MX>(x))); DS dc; for (auto const &d : ds) dc.push_back(std::make_shared<MD>(*std::dynamic_pointer_cast<MD>(d))); InteractionCollection A(PT::NuMu, xs, ds), B(PT::NuMu, xc, dc); VC_EXPECT(A == B, "collection:equality", w2, " equal contents");
            if (nx) { XS xd = xc; xd.pop_back(); VC_EXPECT(!(A == InteractionCollection(PT::NuMu, xd, dc)), "collection:equality", w2, " one cross section fewer"); xd = xc; xd.back() = std::make_shared<MX>(9, masks[nx - 1], 1); VC_EXPECT(!(A == InteractionCollection(PT::NuMu, xd, dc)), "collection:equality", w2, " other cross section"); }
            if (!ds.empty()) { DS dd = dc; dd.back() = std::make_shared<MD>(9, 1e-15); VC_EXPECT(!(A == InteractionCollection(PT::NuMu, xc, dd)), "collection:equality", w2, " other decay"); dd.pop_back(); VC_EXPECT(!(A == InteractionCollection(PT::NuMu, xc, dd)), "collection:equality", w2, " one decay fewer"); } } };
    go(0);
    if (nx == 0) { bool threw = false; try { InteractionCollection c(PT::NuMu, std::vector<std::shared_ptr<Interaction>>{std::make_shared<MX>(1, 1, 1), std::make_shared<Neither>()}); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "collection:neither", "an interaction that is neither kind was accepted"); }
}
static void smp(CrossSection const &X, InteractionRecord &r) { CrossSectionDistributionRecord c(r); X.SampleFinalState(c, draw::rng()); c.Finalize(r); }
// defaults every model inherits
static void defaults() {
    for (int id = 1; id <= 3; ++id) for (int ns = 0; ns <= 3; ++ns) for (int t = 0; t < 3; ++t) for (double tm : {0.0, 7.5}) { MX x(id, 7, ns); InteractionRecord a = rec(PT::NuMu, 3, 0, t); a.interaction_time = tm; InteractionRecord b = a; draw::script({}); smp(x, a); { CrossSectionDistributionRecord c(b); x.SampleFinalState(c, draw::rng()); VC_EXPECT(x.SampleInteractionTime(c, draw::rng()) == tm, "defaults:time", tm); MD d(1, 1); VC_EXPECT(static_cast<Decay const &>(d).SampleDecayTime(c, draw::rng()) == tm, "defaults:time", tm); c.Finalize(b); }
        b.secondary_ids = a.secondary_ids; VC_EXPECT(a.secondary_momenta == b.secondary_momenta && a.secondary_helicities == b.secondary_helicities && a.interaction_parameters == b.interaction_parameters && a.secondary_masses == b.secondary_masses, "defaults:sample", id);
        double e = 0; for (int k = 1; k <= ns; ++k) e += MX::val(id, t, k + 1) * 3; VC_EXPECT(vc::close(x.TotalCrossSectionAllFinalStates(a), e, 1e-12, 1e-300), "defaults:all-final-states", id, " ", ns); vc::trace(); vc::step(); vc::state(vc::cat(id, ns, t, tm)); }
}
template <class O, class I> static std::shared_ptr<InteractionCollection> trip(std::shared_ptr<InteractionCollection> c) { std::stringstream s; { O o(s); o(::cereal::make_nvp("C", c)); } std::shared_ptr<InteractionCollection> r; { I i(s); i(::cereal::make_nvp("C", r)); } return r; }
static void persist() {
    auto tab2 = [] { siren::utilities::TableData2D<double> t; for (double E : {1., 2., 5.}) for (double y : {0.1, 0.4, 0.9}) { t.x.push_back(E); t.y.push_back(y); t.f.push_back(E / y); } return siren::utilities::Interpolator2D<double>(t); }; auto tab1 = [] { siren::utilities::TableData1D<double> t; for (double E : {1., 2., 5.}) { t.x.push_back(E); t.f.push_back(E * 3); } return siren::utilities::Interpolator1D<double>(t); };
    auto hd = [&](double g, HNLDipoleFromTable::HelicityChannel ch, bool z, bool inv, bool inel, std::set<PT> pr) { auto X = std::make_shared<HNLDipoleFromTable>(0.1, g, ch, z, inv, inel, pr); X->AddDifferentialCrossSection(PT::HNucleus, tab2()); X->AddTotalCrossSection(PT::HNucleus, tab1()); X->AddDifferentialCrossSection(PT::O16Nucleus, tab2()); X->AddTotalCrossSection(PT::O16Nucleus, tab1()); return X; };
    std::vector<std::function<std::shared_ptr<CrossSection>()>> xf = {[] { return std::make_shared<DummyCrossSection>(); }, [] { return std::make_shared<ElasticScattering>(); }, [] { return std::make_shared<ElasticScattering>(std::set<PT>{PT::NuMu}); }};
    std::set<PT> all = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar}; for (int k = 0; k < 16; ++k) xf.push_back([=] { return hd(k & 8 ? 1e-6 : 2e-6, k & 1 ? HNLDipoleFromTable::HelicityChannel::Conserving : HNLDipoleFromTable::HelicityChannel::Flipping, k & 2, k & 4, !(k & 1), k & 8 ? all : std::set<PT>{PT::NuMu, PT::NuEBar}); });
    std::vector<std::function<std::shared_ptr<Decay>()>> df = {[] { return std::make_shared<HNLDipoleDecay>(0.4, std::vector<double>{1e-6, 2e-6, 3e-6}, HNLDipoleDecay::ChiralNature::Dirac); }, [] { return std::make_shared<HNLDipoleDecay>(0.4, std::vector<double>{1e-6, 2e-6, 3e-6}, HNLDipoleDecay::ChiralNature::Majorana); }, [] { return std::make_shared<HNLDipoleDecay>(0.4, std::vector<double>{0, 2e-6, 0}, HNLDipoleDecay::ChiralNature::Dirac); }, [] { return std::make_shared<HNLDecay>(0.4, std::vector<double>{1e-3, 2e-3, 3e-3}, HNLDecay::ChiralNature::Dirac); }, [] { return std::make_shared<HNLDecay>(2.5, std::vector<double>{1e-3, 0, 3e-3}, HNLDecay::ChiralNature::Majorana); },
        [] { return std::make_shared<ElectroweakDecay>(std::set<PT>{PT::Z0}); }, [] { return std::make_shared<ElectroweakDecay>(std::set<PT>{PT::WPlus, PT::WMinus}); }, [] { return std::make_shared<CharmMesonDecay>(); }, [] { return std::make_shared<CharmMesonDecay3Body>(); }};
    // compare what the models answer, not only what they claim to equal
    auto probeX = [&](CrossSection const &a, CrossSection const &b, std::string const &w) { VC_EXPECT(a == b && b == a, "persist:equal", w); auto sa = a.GetPossibleSignatures(), sb = b.GetPossibleSignatures(); VC_EXPECT(sa == sb, "persist:signatures", w); VC_EXPECT(a.DensityVariables() == b.DensityVariables(), "persist:variables", w);
        for (auto const &s : sa) for (double E : {1.5, 4.0}) { InteractionRecord r = rec(s.primary_type, E, 0, -1); r.signature = s; r.target_mass = 0.938; r.primary_helicity = -0.5; double ta = 0, tb = 0; bool ka = true, kb = true; try { ta = a.TotalCrossSection(r); } catch (std::exception const &) { ka = false; } try { tb = b.TotalCrossSection(r); } catch (std::exception const &) { kb = false; } VC_EXPECT(ka == kb && ta == tb, "persist:total", w, " ", ta, " vs ", tb); if (!ka) continue;
            InteractionRecord x = r, y = r; bool sx = true, sy = true; std::vector<double> u(300, 0.37); draw::script(u); try { smp(a, x); } catch (std::exception const &) { sx = false; } draw::script(u); try { smp(b, y); } catch (std::exception const &) { sy = false; } VC_EXPECT(sx == sy && x.secondary_momenta == y.secondary_momenta && x.secondary_helicities == y.secondary_helicities, "persist:sample", w); if (sx) VC_EXPECT(a.DifferentialCrossSection(x) == b.DifferentialCrossSection(x), "persist:differential", w); vc::trace(); } };
    auto probeD = [&](Decay const &a, Decay const &b, std::string const &w) { VC_EXPECT(a == b && b == a, "persist:equal", w); auto sa = a.GetPossibleSignatures(), sb = b.GetPossibleSignatures(); VC_EXPECT(sa == sb, "persist:signatures", w, " ", sa.size(), " vs ", sb.size());
        for (auto const &s : sa) { InteractionRecord r = rec(s.primary_type, 500, s.primary_type == PT::N4 || s.primary_type == PT::N4Bar ? 0.4 : s.primary_type == PT::Z0 ? 91 : 80, -1); r.signature = s; r.target_mass = 0; r.primary_helicity = 0.5; VC_EXPECT(a.TotalDecayWidth(r) == b.TotalDecayWidth(r) && a.TotalDecayWidthAllFinalStates(r) == b.TotalDecayWidthAllFinalStates(r), "persist:width", w); vc::trace(); } };
    std::vector<std::shared_ptr<InteractionCollection>> cols; auto add = [&](std::vector<int> x, std::vector<int> d) { XS xs; DS ds; for (int i : x) xs.push_back(xf[i]()); for (int i : d) ds.push_back(df[i]()); cols.push_back(std::make_shared<InteractionCollection>(PT::NuMu, xs, ds)); };
    add({}, {}); for (size_t i = 0; i < xf.size(); ++i) add({(int)i}, {}); for (size_t i = 0; i < df.size(); ++i) add({}, {(int)i}); for (size_t i = 0; i < xf.size(); ++i) for (size_t j = 0; j < df.size(); ++j) add({(int)i, 0, 1}, {(int)j, 0}); 
    for (size_t k = 0; k < cols.size(); ++k) { auto c = cols[k]; for (int fmt = 0; fmt < 3; ++fmt) { std::string w = vc::cat("collection ", k, " format ", fmt); vc::note(w); vc::state(w); vc::step(); std::shared_ptr<InteractionCollection> r; try { r = fmt == 0 ? trip<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(c) : fmt == 1 ? trip<cereal::JSONOutputArchive, cereal::JSONInputArchive>(c) : trip<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>(c); } catch (std::exception const &e) { VC_EXPECT(false, "persist:reload", w, " ", e.what()); continue; }
        VC_EXPECT(*r == *c && *c == *r, "persist:collection-equal", w); VC_EXPECT(r->TargetTypes() == c->TargetTypes() && r->GetPrimaryType() == c->GetPrimaryType() && r->GetCrossSections().size() == c->GetCrossSections().size() && r->GetDecays().size() == c->GetDecays().size(), "persist:lists", w); if (r->GetCrossSections().size() != c->GetCrossSections().size() || r->GetDecays().size() != c->GetDecays().size()) continue;
        for (auto const &p : c->GetCrossSectionsByTarget()) { auto const &q = r->GetCrossSectionsForTarget(p.first); VC_EXPECT(q.size() == p.second.size(), "persist:by-target", w); for (size_t i = 0; i < q.size() && i < p.second.size(); ++i) { VC_EXPECT(*q[i] == *p.second[i], "persist:by-target", w); VC_EXPECT(std::find(r->GetCrossSections().begin(), r->GetCrossSections().end(), q[i]) != r->GetCrossSections().end(), "persist:by-target", w, " holds a different object"); } }
        for (size_t i = 0; i < c->GetCrossSections().size(); ++i) if (k < 1 + xf.size()) probeX(*c->GetCrossSections()[i], *r->GetCrossSections()[i], w); for (size_t i = 0; i < c->GetDecays().size(); ++i) if (k < 1 + xf.size() + df.size()) probeD(*c->GetDecays()[i], *r->GetDecays()[i], w); }
        if (k < 1 + xf.size() + df.size()) for (size_t j = 1; j < 1 + xf.size() + df.size(); ++j) if (j != k) VC_EXPECT(!(*cols[j] == *c), "persist:distinct", "collections ", j, " and ", k, " hold different models but compare equal"); }
}
int main(int argc, char **argv) { std::vector<vc::Case> c; for (int n = 0; n <= 3; ++n) c.push_back({vc::cat("explore-", n), [n] { explore(n); }, 0}); c.push_back({"defaults", defaults, 0}); c.push_back({"persist", persist, 0}); return vc::run(argc, argv, c); }
