// P22: shapes are values: copies, assignments, exchanges, moves and archived copies behave exactly like the shape they
// were made from, and comparison is a consistent equality and order.
#include <map>
#include <sstream>
#include "vc.h"
#include "shapes.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/memory.hpp>
#include "SIREN/geometry/serializable.h"
using namespace shapes;
typedef std::shared_ptr<Geometry> G;
static std::string kind(std::string const &n) { return n.substr(0, n.find('(')); }
static std::vector<Shape> &cat() { static std::vector<Shape> c = catalogue(); return c; }
static std::vector<Placement> &placements() {
    static std::vector<Placement> p = [] { Quaternion q; q.SetAxisAngle(Vector3D(-1, 2, 1) / std::sqrt(6.0), 1.1); Quaternion r; r.SetAxisAngle(Vector3D(0, 0, 1), 0.5); return std::vector<Placement>{Placement(), Placement(Vector3D(3, -2, 5)), Placement(Vector3D(-1, 0.5, 2), q), Placement(Vector3D(-1, 0.5, 2), r), Placement(Vector3D(0, 0, 0), q)}; }();
    return p;
}
struct Obs { std::vector<std::pair<double, bool>> h; double box[6]; bool operator==(Obs const &o) const {
    if (h.size() != o.h.size()) return false;
    for (size_t i = 0; i < h.size(); ++i) if (h[i].second != o.h[i].second || !(std::fabs(h[i].first - o.h[i].first) <= 1e-9)) return false;
    for (int i = 0; i < 6; ++i) if (!(std::fabs(box[i] - o.box[i]) < 1e-9)) return false;
    return true; } };
static Obs observe(Geometry const &g, double size) {
    Obs r;
    for (int p = 0; p < 5; ++p) {
        Placement const &pl = placements()[p];
        for (double x : {-0.61, 0.07, 0.53}) for (double y : {-0.37, 0.23}) for (auto d : {Vector3D(0.3, 0.5, 0.81), Vector3D(-0.7, 0.2, 0.1)}) {
            d = d / d.magnitude(); auto h = g.Intersections(pl.LocalToGlobalPosition(Vector3D(x * size, y * size, 0.11 * size)), d);
            r.h.push_back({double(h.size()), true}); for (auto &i : h) r.h.push_back({i.distance, i.entering});
        }
    }
    auto b = g.GetWorldBoundingBox(); double v[6] = {b.min_corner.GetX(), b.min_corner.GetY(), b.min_corner.GetZ(), b.max_corner.GetX(), b.max_corner.GetY(), b.max_corner.GetZ()}; std::copy(v, v + 6, r.box);
    return r;
}
struct V { size_t s; int p; bool operator<(V const &o) const { return s < o.s || (s == o.s && p < o.p); } };
static G fresh(V v) { G g = cat()[v.s].g->create(); g->SetPlacement(placements()[v.p]); return g; }
static Obs const &expected(V v) {
    static std::map<V, Obs> m; auto i = m.find(v); if (i != m.end()) return i->second;
    return m[v] = observe(*fresh(v), cat()[v.s].size);
}
static void check(G const &g, V v, std::string const &h) {
    std::string const &n = cat()[v.s].name; std::string k = kind(n); ++vc::R.evaluations; G f = fresh(v);
    VC_EXPECT(*g == *f && *f == *g && !(*g != *f) && !(*g < *f) && !(*f < *g), "value " + k, h, " is not equal to ", n, " at placement ", v.p);
    VC_EXPECT(g->GetName() == f->GetName() && g->GetPlacement() == placements()[v.p], "identity " + k, h);
    VC_EXPECT(observe(*g, cat()[v.s].size) == expected(v), "behaviour " + k, h, " does not behave like ", n, " at placement ", v.p);
}
template <class O, class I> static G roundtrip(G const &g) { std::stringstream ss; { O o(ss); o(cereal::make_nvp("g", g)); } G r; { I i(ss); i(cereal::make_nvp("g", r)); } return r; }
static char const *OPS[] = {"x=create(x)", "x.assign(y)", "y.assign(x)", "swap(x,y)", "x.assign(x)", "binary(x)", "json(y)", "xml(x)", "place(x)", "place(y)", "box(x)"};
static const int NOPS = 11;
static void histories(size_t a, size_t b, int depth) {
    std::vector<int> seq; 
    std::function<void()> rec = [&] {
        if (!seq.empty()) {
            G x = fresh({a, 0}), y = fresh({b, 1}); V vx{a, 0}, vy{b, 1}; std::string h = cat()[a].name + " x, " + cat()[b].name + " y:";
            for (int o : seq) {
                h += std::string(" ") + OPS[o]; vc::step();
                switch (o) {
                    case 0: x = x->create(); break;
                    case 1: *x = *y; vx = vy; break;
                    case 2: *y = *x; vy = vx; break;
                    case 3: x->swap(*y); std::swap(vx, vy); break;
                    case 4: *x = *x; break;
                    case 5: x = roundtrip<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x); break;
                    case 6: y = roundtrip<cereal::JSONOutputArchive, cereal::JSONInputArchive>(y); break;
                    case 7: x = roundtrip<cereal::XMLOutputArchive, cereal::XMLInputArchive>(x); break;
                    case 8: vx.p = (vx.p + 2) % placements().size(); x->SetPlacement(placements()[vx.p]); break;
                    case 9: vy.p = (vy.p + 1) % placements().size(); y->SetPlacement(placements()[vy.p]); break;
                    case 10: x->GetWorldBoundingBox(); y->GetWorldBoundingBox(); break;
                }
            }
            vc::state(h); vc::trace(); vc::note(h);
            check(x, vx, h + " => x"); check(y, vy, h + " => y");
        }
        if ((int)seq.size() < depth) for (int o = 0; o < NOPS; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
    };
    rec();
}
static void foreign(size_t a, size_t b) {   // assignment and exchange between different kinds leave both unchanged
    for (int o = 0; o < 3; ++o) {
        G x = fresh({a, 2}), y = fresh({b, 1}); std::string h = cat()[a].name + " x, " + cat()[b].name + " y: " + OPS[o + 1]; vc::note(h); vc::state(h); vc::trace(); vc::step();
        try { if (o == 0) *x = *y; else if (o == 1) *y = *x; else x->swap(*y); } catch (std::runtime_error const &) {}   // may be refused
        check(x, {a, 2}, h); check(y, {b, 1}, h);
    }
}
static void order() {
    auto A = catalogue(), B = catalogue(); struct E { std::string n; G g, f; }; std::vector<E> e;
    for (size_t i = 0; i < A.size(); ++i) for (int p : {0, 2}) { G g = A[i].g->create(), f = B[i].g->create(); g->SetPlacement(placements()[p]); f->SetPlacement(placements()[p]); e.push_back({vc::cat(A[i].name, " at ", p), g, f}); }
    size_t n = e.size(); std::vector<std::vector<char>> lt(n, std::vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        vc::step(3); vc::trace(); ++vc::R.evaluations;
        bool eq = *e[i].g == *e[j].f, l = *e[i].g < *e[j].f; lt[i][j] = l;
        if (eq != (e[i].n == e[j].n)) { auto h = observe(*e[i].g, 2), k = observe(*e[j].g, 2); VC_EXPECT(eq && h == k, "equality " + kind(e[i].n), e[i].n, " ~ ", e[j].n, " == gives ", eq); }
        VC_EXPECT(!(l && eq), "less-but-equal " + kind(e[i].n), e[i].n, " ~ ", e[j].n);
        VC_EXPECT((*e[i].g != *e[j].f) == !eq, "not-equal " + kind(e[i].n), e[i].n, " ~ ", e[j].n);
    }
    vc::state(vc::cat(n, " shapes"));
    std::vector<size_t> rank(n, 0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (i != j) VC_EXPECT(lt[i][j] != lt[j][i] || e[i].n == e[j].n || *e[i].g == *e[j].f, "order-total " + kind(e[i].n), e[i].n, " ~ ", e[j].n); rank[i] += lt[j][i]; }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (lt[i][j]) VC_EXPECT(rank[i] < rank[j], "order-transitive " + kind(e[i].n), e[i].n, " ~ ", e[j].n);
}
int main(int argc, char **argv) {
    std::vector<vc::Case> c; auto &S = cat(); std::map<std::string, std::vector<size_t>> by; for (size_t i = 0; i < S.size(); ++i) by[kind(S[i].name)].push_back(i);
    for (auto &k : by) {
        auto v = k.second; size_t n = v.size();
        for (size_t i = 0; i < n; i += 8) c.push_back({vc::cat("short_", k.first, "_", i), [=] { for (size_t j = i; j < std::min(n, i + 8); ++j) histories(v[j], v[(j + n / 2 + 1) % n], 1 + (vc::thorough() || j % 8 == 0)); }});
        c.push_back({"deep_" + k.first, [=] { histories(v[n / 3], v[n - 1], vc::thorough() ? 4 : 3); }});
    }
    c.push_back({"foreign", [=] { for (auto &k : by) for (auto &l : by) if (k.first != l.first) foreign(k.second.back(), l.second.front()); }});
    c.push_back({"order", order});
    return vc::run(argc, argv, c);
}
