// P06: comparison of distributions is a proper equality and a strict weak order consistent with it.
#include "vc.h"
#include "zoo.h"
using namespace zoo;
static void laws(std::vector<Entry> const &a, std::vector<Entry> const &b, std::string tag) {
    size_t n = a.size();
    std::vector<std::vector<char>> lt(n, std::vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        std::string h = a[i].label + " ~ " + b[j].label; vc::note(h); vc::state(h); vc::trace();
        bool same = a[i].label == b[j].label;
        bool eq = *a[i].d == *b[j].d, qe = *b[j].d == *a[i].d; vc::step(2);
        VC_EXPECT(eq == same, vc::cat("equality:", a[i].type, same ? "" : "/" + b[j].type), h, " == gives ", eq);
        VC_EXPECT(eq == qe, vc::cat("equality-symmetry:", a[i].type, "/", b[j].type), h);
        bool l = *a[i].d < *b[j].d, g = *b[j].d < *a[i].d; vc::step(2); lt[i][j] = l;
        VC_EXPECT(!(l && g), vc::cat("order-asymmetry:", a[i].type, "/", b[j].type), h);
        VC_EXPECT((l || g) == !same, vc::cat("order-total:", a[i].type, "/", b[j].type), h, " < gives ", l, " > gives ", g);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (lt[i][j]) for (size_t k = 0; k < n; ++k) if (lt[j][k])
        VC_EXPECT(lt[i][k], vc::cat("order-transitivity:", a[i].type), a[i].label, " < ", a[j].label, " < ", a[k].label);
}
static void pairs() { auto a = make(), b = make(); laws(a, b, ""); }
static void selfref() {
    auto a = make();
    for (auto &e : a) {
        vc::note(e.label); vc::state(e.label); vc::trace();
        VC_EXPECT(*e.d == *e.d && !(*e.d < *e.d), "reflexivity:" + e.type, e.label);
        std::shared_ptr<WeightableDistribution> c;
        if (auto p = std::dynamic_pointer_cast<PrimaryInjectionDistribution>(e.d)) c = p->clone();
        else if (auto s = std::dynamic_pointer_cast<SecondaryInjectionDistribution>(e.d)) c = s->clone();
        if (!c) continue;
        vc::step();
        VC_EXPECT(c != e.d && typeid(*c) == typeid(*e.d) && *c == *e.d && *e.d == *c && !(*c < *e.d) && !(*e.d < *c), "clone:" + e.type, e.label);
        VC_EXPECT(c->Name() == e.d->Name() && c->DensityVariables() == e.d->DensityVariables(), "clone-name:" + e.type, e.label);
        auto n1 = std::dynamic_pointer_cast<PhysicallyNormalizedDistribution>(e.d), n2 = std::dynamic_pointer_cast<PhysicallyNormalizedDistribution>(c);
        if (n1) VC_EXPECT(n2 && n1->IsNormalizationSet() == n2->IsNormalizationSet() && n1->GetNormalization() == n2->GetNormalization(), "clone-normalization:" + e.type, e.label);
    }
    // a sorted set keeps exactly one of each, whatever the insertion order
    auto cmp = [](Entry const *x, Entry const *y) { return *x->d < *y->d; };
    auto b = make(); std::vector<Entry const *> all; for (auto &e : a) all.push_back(&e); for (auto &e : b) all.push_back(&e);
    for (size_t rot = 0; rot < all.size(); rot += 7) for (size_t stride : {1, 3, 5}) {
        std::set<Entry const *, decltype(cmp)> s(cmp); std::set<std::string> labels;
        for (size_t i = 0; i < all.size(); ++i) s.insert(all[(rot + i * stride) % all.size()]), labels.insert(all[(rot + i * stride) % all.size()]->label);
        vc::state(vc::cat("set rot", rot, " stride ", stride)); vc::trace();
        VC_EXPECT(s.size() == labels.size(), "sorted-set", "rotation ", rot, " stride ", stride, ": ", s.size(), " kept of ", labels.size(), " different ones");
    }
}
// user-defined functions of another class must be ordered consistently with the built-in ones
struct MyDepth : DepthFunction {
    double operator()(ParticleType const &, double) const override { return 1; }
    bool equal(DepthFunction const &o) const override { return dynamic_cast<MyDepth const *>(&o); }
    bool less(DepthFunction const &) const override { return false; }
};
struct MyRange : RangeFunction {
    double operator()(ParticleType const &, double) const override { return 1; }
    bool equal(RangeFunction const &o) const override { return dynamic_cast<MyRange const *>(&o); }
    bool less(RangeFunction const &) const override { return false; }
};
static void userfunctions() {
    auto d = depths(); auto r = ranges(); MyDepth md, md2; MyRange mr, mr2;
    VC_EXPECT(md == md2 && !(md < md2), "user-depth-equal", ""); VC_EXPECT(mr == mr2 && !(mr < mr2), "user-range-equal", "");
    bool dl = false, rl = false;
    for (size_t i = 1; i < d.size(); ++i) {
        DepthFunction &a = *d[i]; std::string h = vc::cat("depth ", i, " ~ user-defined"); vc::note(h); vc::state(h); vc::trace(); vc::step(4);
        VC_EXPECT(!(a == md) && !(md == a), "mixed-depth-equality", h); VC_EXPECT((a < md) != (md < a), "mixed-depth-order", h);
        if (i == 1) dl = a < md; VC_EXPECT((a < md) == dl, "mixed-depth-order-consistency", h);
    }
    for (size_t i = 1; i < r.size(); ++i) {
        RangeFunction &a = *r[i]; std::string h = vc::cat("range ", i, " ~ user-defined"); vc::note(h); vc::state(h); vc::trace(); vc::step(4);
        VC_EXPECT(!(a == mr) && !(mr == a), "mixed-range-equality", h); VC_EXPECT((a < mr) != (mr < a), "mixed-range-order", h);
        if (i == 1) rl = a < mr; VC_EXPECT((a < mr) == rl, "mixed-range-order-consistency", h);
    }
}
static void functions() {
    auto d1 = depths(), d2 = depths(); auto r1 = ranges(), r2 = ranges();
    for (size_t i = 1; i < d1.size(); ++i) for (size_t j = 1; j < d2.size(); ++j) {
        std::string h = vc::cat("depth ", i, " ~ ", j); vc::state(h); vc::trace(); vc::step(4);
        DepthFunction &a = *d1[i], &b = *d2[j];
        VC_EXPECT((a == b) == (i == j) && (b == a) == (i == j), "depth-function-equality", h);
        VC_EXPECT(!((a < b) && (b < a)) && ((a < b) || (b < a)) == (i != j), "depth-function-order", h);
    }
    for (size_t i = 1; i < r1.size(); ++i) for (size_t j = 1; j < r2.size(); ++j) {
        std::string h = vc::cat("range ", i, " ~ ", j); vc::state(h); vc::trace(); vc::step(4);
        RangeFunction &a = *r1[i], &b = *r2[j];
        VC_EXPECT((a == b) == (i == j) && (b == a) == (i == j), "range-function-equality", h);
        VC_EXPECT(!((a < b) && (b < a)) && ((a < b) || (b < a)) == (i != j), "range-function-order", h);
    }
}
int main(int c, char **v) { return vc::run(c, v, {{"pairs", pairs, 0}, {"clone-and-sets", selfref, 0}, {"depth-range-functions", functions, 0}, {"user-functions", userfunctions, 0}}); }
