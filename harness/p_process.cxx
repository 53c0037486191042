// P07: the distribution lists of a process follow their rules through every operation history.
#include "vc.h"
#include "SIREN/injection/Process.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/interactions/DummyCrossSection.h"
using namespace siren; using namespace siren::injection; using namespace siren::distributions;
using dataclasses::ParticleType;
// a secondary distribution with a value, compared by value like every built-in one
struct Sec : SecondaryInjectionDistribution {
    int v; Sec(int v) : v(v) {}
    double GenerationProbability(std::shared_ptr<detector::DetectorModel const>, std::shared_ptr<interactions::InteractionCollection const>, dataclasses::InteractionRecord const &) const override { return v; }
    std::string Name() const override { return "Sec"; }
    void Sample(std::shared_ptr<utilities::SIREN_random>, std::shared_ptr<detector::DetectorModel const>, std::shared_ptr<interactions::InteractionCollection const>, dataclasses::SecondaryDistributionRecord &) const override {}
    std::shared_ptr<SecondaryInjectionDistribution> clone() const override { return std::make_shared<Sec>(v); }
    bool equal(WeightableDistribution const &o) const override { auto x = dynamic_cast<Sec const *>(&o); return x && x->v == v; }
    bool less(WeightableDistribution const &o) const override { return v < dynamic_cast<Sec const &>(o).v; }
};
// alphabet: 0 and 1 are equal in value but different objects; 2, 3 differ
static int value(int k) { return k == 1 ? 0 : k; }
template <class T> struct Kit;
template <> struct Kit<PhysicalProcess> {
    typedef WeightableDistribution D; static const bool injection = false;
    static std::vector<std::shared_ptr<D>> alphabet() { return {std::make_shared<Monoenergetic>(1.0), std::make_shared<Monoenergetic>(1.0), std::make_shared<Monoenergetic>(2.0), std::make_shared<NormalizationConstant>(3.0)}; }
    static void add(PhysicalProcess &p, std::shared_ptr<D> d) { p.AddPhysicalDistribution(d); }
    static void set(PhysicalProcess &p, std::vector<std::shared_ptr<D>> const &d) { p.SetPhysicalDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(PhysicalProcess const &p) { return p.GetPhysicalDistributions(); }
};
template <> struct Kit<PrimaryInjectionProcess> {
    typedef PrimaryInjectionDistribution D; static const bool injection = true;
    static std::vector<std::shared_ptr<D>> alphabet() { return {std::make_shared<Monoenergetic>(1.0), std::make_shared<Monoenergetic>(1.0), std::make_shared<PrimaryMass>(0.0), std::make_shared<FixedDirection>(math::Vector3D(0, 0, 1))}; }
    static void add(PrimaryInjectionProcess &p, std::shared_ptr<D> d) { p.AddPrimaryInjectionDistribution(d); }
    static void set(PrimaryInjectionProcess &p, std::vector<std::shared_ptr<D>> const &d) { p.SetPrimaryInjectionDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(PrimaryInjectionProcess const &p) { return p.GetPrimaryInjectionDistributions(); }
};
template <> struct Kit<SecondaryInjectionProcess> {
    typedef SecondaryInjectionDistribution D; static const bool injection = true;
    static std::vector<std::shared_ptr<D>> alphabet() { return {std::make_shared<Sec>(1), std::make_shared<Sec>(1), std::make_shared<Sec>(2), std::make_shared<Sec>(3)}; }
    static void add(SecondaryInjectionProcess &p, std::shared_ptr<D> d) { p.AddSecondaryInjectionDistribution(d); }
    static void set(SecondaryInjectionProcess &p, std::vector<std::shared_ptr<D>> const &d) { p.SetSecondaryInjectionDistributions(d); }
    static std::vector<std::shared_ptr<D>> get(SecondaryInjectionProcess const &p) { return p.GetSecondaryInjectionDistributions(); }
};
static std::shared_ptr<interactions::InteractionCollection> coll(ParticleType t) {
    std::vector<std::shared_ptr<interactions::CrossSection>> xs{std::make_shared<interactions::DummyCrossSection>()};
    return std::make_shared<interactions::InteractionCollection>(t, xs);
}
struct Model { std::vector<int> list; ParticleType type; int inter; };
static bool dup(std::vector<int> const &l) { for (size_t i = 0; i < l.size(); ++i) for (size_t j = i + 1; j < l.size(); ++j) if (value(l[i]) == value(l[j])) return true; return false; }

template <class T> static void explore(int depth) {
    typedef Kit<T> K; auto al = K::alphabet();
    std::vector<std::vector<int>> lists{{}, {0}, {2}, {0, 2}, {2, 0}, {0, 1}, {0, 0}, {1, 2, 3}, {2, 3, 0, 1}, {3, 2, 3}, {0, 2, 1}, {2, 1}};
    int nops = 4 + lists.size() + 4 + 2 + 2 + (K::injection ? 1 : 0);
    std::vector<int> seq;
    std::function<void()> run = [&]() {
        std::vector<std::shared_ptr<interactions::InteractionCollection>> cs{coll(ParticleType::NuMu), coll(ParticleType::NuE)};
        auto p = std::make_shared<T>(ParticleType::NuMu, cs[0]); Model m{{}, ParticleType::NuMu, 0};
        std::string h;
        auto check = [&](T const &q, Model const &e, std::string const &what) {
            auto l = K::get(q); bool ok = l.size() == e.list.size();
            for (size_t i = 0; ok && i < l.size(); ++i) ok = l[i] == al[e.list[i]];
            VC_EXPECT(ok, what + ":list", h);
            auto const &ph = q.GetPhysicalDistributions(); ok = ph.size() == e.list.size();
            for (size_t i = 0; ok && i < ph.size(); ++i) ok = ph[i] == std::shared_ptr<WeightableDistribution>(al[e.list[i]]);
            VC_EXPECT(ok, what + ":physical-list", h);
            VC_EXPECT(q.GetPrimaryType() == e.type && q.GetInteractions() == cs[e.inter] && cs[e.inter]->GetPrimaryType() == e.type, what + ":head", h);
        };
        for (int op : seq) {
            Model before = m; bool threw = false, expect_throw = false;
            int k = op;
            if (k < 4) { h += vc::cat(" Add", k); for (int x : m.list) expect_throw |= value(x) == value(k); try { K::add(*p, al[k]); } catch (std::runtime_error const &) { threw = true; } if (!expect_throw) m.list.push_back(k); }
            else if ((k -= 4) < (int)lists.size()) {
                h += " Set{"; for (int x : lists[k]) h += vc::cat(x); h += "}";
                std::vector<std::shared_ptr<typename K::D>> l; for (int x : lists[k]) l.push_back(al[x]);
                expect_throw = dup(lists[k]); try { K::set(*p, l); } catch (std::runtime_error const &) { threw = true; } if (!expect_throw) m.list = lists[k];
            }
            else if ((k -= lists.size()) < 4) {
                static char const *n[] = {" copy", " move", " copy-assign", " move-assign"}; h += n[k];
                std::shared_ptr<T> q;
                if (k == 0) { q = std::make_shared<T>(*p); check(*p, m, "source-of-copy"); }
                if (k == 1) q = std::make_shared<T>(std::move(*p));
                if (k >= 2) { q = std::make_shared<T>(ParticleType::NuTau, nullptr); K::add(*q, al[3]); }
                if (k == 2) { *q = *p; check(*p, m, "source-of-assignment"); }
                if (k == 3) *q = std::move(*p);
                p = q;
            }
            else if ((k -= 4) < 2) { h += vc::cat(" SetPrimaryType", k); ParticleType t = k ? ParticleType::NuTau : ParticleType::NuMu; p->SetPrimaryType(t); m.type = t; }
            else if ((k -= 2) < 2) { h += vc::cat(" SetInteractions", k); p->SetInteractions(cs[k]); m.inter = k; m.type = cs[k]->GetPrimaryType(); }
            else { h += " AddPhysical"; expect_throw = true; try { static_cast<PhysicalProcess &>(*p).AddPhysicalDistribution(al[3]); } catch (std::runtime_error const &) { threw = true; } }
            vc::note(h); vc::step();
            VC_EXPECT(threw == expect_throw, threw ? "refused" : "duplicate-accepted", h);
            if (threw != expect_throw) return;
            check(*p, m, "state");
        }
        vc::state(h); vc::trace();
    };
    std::function<void()> rec = [&]() { run(); if ((int)seq.size() < depth) for (int o = 0; o < nops; ++o) { seq.push_back(o); rec(); seq.pop_back(); } };
    rec();
}
static void heads() {
    ParticleType ts[3] = {ParticleType::NuMu, ParticleType::NuE, ParticleType::N4};
    std::vector<std::shared_ptr<interactions::InteractionCollection>> cs{nullptr, coll(ts[0]), coll(ts[1])};
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) {
        auto a = std::make_shared<PhysicalProcess>(ts[i / 3], cs[i % 3]); auto b = std::make_shared<PhysicalProcess>(ts[j / 3], cs[j % 3]);
        std::string h = vc::cat(i, "~", j); vc::state(h); vc::trace(); vc::step(2);
        VC_EXPECT((*a == *b) == (i == j), "process-equality", h);
        VC_EXPECT(a->MatchesHead(b) == (i / 3 == j / 3), "matches-head", h);
    }
    SecondaryInjectionProcess s(ts[0], cs[1]); s.SetSecondaryType(ts[2]);
    VC_EXPECT(s.GetSecondaryType() == ts[2] && s.GetPrimaryType() == ts[2] && cs[1]->GetPrimaryType() == ts[2], "secondary-type", "SetSecondaryType");
}
int main(int c, char **v) {
    bool th = false; for (int i = 1; i < c; ++i) th |= !strcmp(v[i], "thorough");
    int d = th ? 5 : 4;
    return vc::run(c, v, {{"physical", [d] { explore<PhysicalProcess>(d); }, 0}, {"primary", [d] { explore<PrimaryInjectionProcess>(d); }, 0}, {"secondary", [d] { explore<SecondaryInjectionProcess>(d); }, 0}, {"heads", heads, 0}});
}
