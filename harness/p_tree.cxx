// P04: the event tree.  All growth histories up to a depth: each step attaches a node (three overloads, possibly
// with stale bookkeeping in the datum handed in) to any earlier node or as a root.
#include "events.h"
using namespace ev;
struct Op { int parent; int how; };
static std::shared_ptr<InteractionTree> build(std::vector<Op> const &ops) {
    auto t = std::make_shared<InteractionTree>();
    std::vector<std::shared_ptr<InteractionTreeDatum>> h;
    for (size_t i = 0; i < ops.size(); ++i) {
        InteractionRecord r = rec(int(i), int(i % 3));
        std::shared_ptr<InteractionTreeDatum> par = ops[i].parent < 0 ? nullptr : h[ops[i].parent];
        std::shared_ptr<InteractionTreeDatum> n;
        if (ops[i].how == 0) n = t->add_entry(r, par);
        else {
            InteractionTreeDatum d(r); d.node_id = 99; d.parent_index = 42; d.daughter_indices = {7, 8};
            if (ops[i].how == 1) n = t->add_entry(d, par); else n = t->add_entry(std::make_shared<InteractionTreeDatum>(d), par);
        }
        h.push_back(n); vc::step();
    }
    return t;
}
static std::string show(std::vector<Op> const &o) { std::string s; for (auto &x : o) s += vc::cat(x.parent < 0 ? std::string("R") : std::to_string(x.parent), "rds"[x.how], " "); return s; }
static void check(std::vector<Op> const &ops) {
    std::string h = show(ops); vc::note(h); vc::state(h); vc::trace();
    auto t = build(ops);
    VC_EXPECT(t->tree.size() == ops.size(), "node-count", h);
    std::vector<int> depth(ops.size());
    for (size_t i = 0; i < ops.size(); ++i) {
        depth[i] = ops[i].parent < 0 ? 0 : depth[ops[i].parent] + 1;
        std::vector<uint32_t> kids; for (size_t j = i + 1; j < ops.size(); ++j) if (ops[j].parent == int(i)) kids.push_back(j);
        auto const &n = t->tree[i];
        VC_EXPECT(n->node_id == i, "node-id", h, " node ", i, " has id ", n->node_id);
        VC_EXPECT(n->parent_index == (ops[i].parent < 0 ? kNoParent : uint32_t(ops[i].parent)), "parent-index", h, " node ", i);
        VC_EXPECT(n->is_root() == (ops[i].parent < 0), "is-root", h, " node ", i);
        VC_EXPECT(n->daughter_indices == kids, "daughters", h, " node ", i, " has ", n->daughter_indices.size(), " daughters, want ", kids.size());
        VC_EXPECT(n->depth(*t) == depth[i] && t->depth(i) == depth[i], "depth", h, " node ", i, " depth ", n->depth(*t), " want ", depth[i]);
        VC_EXPECT(t->at(i).get() == n.get(), "at", h, " node ", i);
        auto d = diff(n->record, rec(int(i), int(i % 3))); VC_EXPECT(d.empty(), "record-content", h, " node ", i, " ", d);
    }
    // equality is the field-by-field one
    auto u = build(ops); VC_EXPECT(*t == *u && *u == *t, "equal-trees", h);
}
static void gen(std::vector<Op> &ops, int n, int hows) {
    if (!ops.empty()) check(ops);
    if ((int)ops.size() == n) return;
    for (int p = -1; p < (int)ops.size(); ++p) for (int w = 0; w < hows; ++w) { ops.push_back({p, w}); gen(ops, n, hows); ops.pop_back(); }
}
static void equality() {
    std::vector<std::vector<Op>> shapes = {{{-1, 0}}, {{-1, 0}, {0, 0}}, {{-1, 0}, {0, 0}, {0, 0}}, {{-1, 0}, {0, 0}, {1, 0}}, {{-1, 0}, {-1, 0}, {0, 0}}};
    for (auto &s : shapes) {
        auto a = build(s); a->header.event_number = 5; a->header.weights = {1, 2}; a->header.provenance["k"] = "v";
        auto fresh = [&] { auto b = build(s); b->header = a->header; return b; };
        VC_EXPECT(*a == *fresh(), "equal-trees", show(s));
        auto ne = [&](std::string n, std::function<void(InteractionTree &)> f) { auto b = fresh(); f(*b); vc::state(show(s) + n); vc::trace(); VC_EXPECT(!(*a == *b) && !(*b == *a), "unequal-trees-equal", show(s), " differ in ", n, " but compare equal"); };
        ne("event number", [](auto &b) { b.header.event_number++; }); ne("weight", [](auto &b) { b.header.weights[1] = 7; }); ne("weights+", [](auto &b) { b.header.weights.push_back(1); });
        ne("provenance", [](auto &b) { b.header.provenance["k"] = "w"; }); ne("extra node", [](auto &b) { InteractionRecord r = rec(0, 1); b.add_entry(r); });
        ne("null node", [](auto &b) { b.tree[0] = nullptr; });
        for (size_t i = 0; i < s.size(); ++i) {
            ne(vc::cat("node id ", i), [i](auto &b) { b.tree[i]->node_id += 1; }); ne(vc::cat("parent ", i), [i](auto &b) { b.tree[i]->parent_index = 17; }); ne(vc::cat("daughters ", i), [i](auto &b) { b.tree[i]->daughter_indices.push_back(3); });
            for (auto &m : mutants(a->tree[i]->record)) ne(vc::cat("node ", i, " ", m.first), [&](auto &b) { b.tree[i]->record = m.second; });
        }
    }
}
// every kind of stale bookkeeping in the datum handed in, at every position of every shape up to n nodes
static void stale(int n) {
    std::vector<std::vector<int>> shapes; std::function<void(std::vector<int> &)> g = [&](std::vector<int> &v) { if (!v.empty()) shapes.push_back(v); if ((int)v.size() == n) return; for (int p = -1; p < (int)v.size(); ++p) { v.push_back(p); g(v); v.pop_back(); } };
    std::vector<int> v0; g(v0);
    std::vector<std::vector<uint32_t>> kidss = {{}, {0}, {1}, {2}, {7}, {kNoParent}, {0, 0}, {1, 2}, {7, 8}, {1, 2, 3}, {9, 8, 7, 6}};
    for (auto &sh : shapes) for (size_t at = 0; at < sh.size(); ++at) for (uint32_t id : {0u, 1u, 2u, 99u, uint32_t(kNoParent)}) for (uint32_t pi : {0u, 1u, 2u, 42u, uint32_t(kNoParent)}) for (size_t k = 0; k < kidss.size(); ++k) for (int how = 1; how < 3; ++how) {
        std::string h; for (int p : sh) h += vc::cat(p, " "); h += vc::cat("| stale node ", at, " id ", id, " parent ", pi, " daughters#", k, " how ", how);
        vc::note(h); vc::state(h); vc::trace();
        InteractionTree t; std::vector<std::shared_ptr<InteractionTreeDatum>> hs;
        for (size_t i = 0; i < sh.size(); ++i) {
            InteractionRecord r = rec(int(i), int(i % 3)); auto par = sh[i] < 0 ? nullptr : hs[sh[i]]; vc::step();
            if (i != at) { hs.push_back(t.add_entry(r, par)); continue; }
            InteractionTreeDatum d(r); d.node_id = id; d.parent_index = pi; d.daughter_indices = kidss[k];
            hs.push_back(how == 1 ? t.add_entry(d, par) : t.add_entry(std::make_shared<InteractionTreeDatum>(d), par));
        }
        for (size_t i = 0; i < sh.size(); ++i) {
            std::vector<uint32_t> kids; for (size_t j = i + 1; j < sh.size(); ++j) if (sh[j] == int(i)) kids.push_back(j);
            auto const &x = *t.tree[i];
            VC_EXPECT(x.node_id == i && x.parent_index == (sh[i] < 0 ? kNoParent : uint32_t(sh[i])) && x.is_root() == (sh[i] < 0), "stale-links", h, " node ", i);
            VC_EXPECT(x.daughter_indices == kids, "stale-daughters", h, " node ", i, " has ", x.daughter_indices.size(), " daughters, want ", kids.size());
        }
    }
}
// every assignment of parent pointers (including cycles and dangling ones) on n nodes: depth() terminates, and is right or refuses
static void corrupt(int n) {
    std::vector<Op> ops; for (int i = 0; i < n; ++i) ops.push_back({-1, 0});
    auto t = build(ops);
    std::vector<int> par(n, -1);
    for (;;) {
        std::string h; for (int p : par) h += vc::cat(p, " "); vc::note("corrupt " + h); vc::state("corrupt " + h);
        for (int i = 0; i < n; ++i) t->tree[i]->parent_index = par[i] < 0 ? kNoParent : par[i];
        for (int i = 0; i < n; ++i) {
            int d = 0, c = i; bool bad = false;
            while (par[c] >= 0) { if (par[c] >= n || ++d > n) { bad = true; break; } c = par[c]; }
            vc::step(); int got = -1; bool threw = false;
            try { got = t->depth(i); } catch (std::exception const &) { threw = true; }
            VC_EXPECT(bad ? threw : (!threw && got == d), "depth-of-corrupt-tree", "parents ", h, " node ", i, " got ", got, " threw ", threw);
        }
        vc::trace();
        int k = 0; while (k < n && ++par[k] > n) par[k++] = -1;
        if (k == n) break;
    }
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
    std::vector<vc::Case> c;
    int n = th ? 6 : 5;
    for (int w0 = 0; w0 < 3; ++w0) for (int p1 = -1; p1 < 1; ++p1) for (int w1 = 0; w1 < 3; ++w1)
        c.push_back({vc::cat("grow_", w0, "_", p1, "_", w1), [=] { std::vector<Op> o = {{-1, w0}, {p1, w1}}; gen(o, n, 3); }, 0});
    c.push_back({"grow_single", [] { std::vector<Op> o; gen(o, 1, 3); }, 0});
    c.push_back({"grow_one_overload", [=] { std::vector<Op> o; gen(o, th ? 9 : 7, 1); }, 0});
    c.push_back({"equality", equality, 0});
    for (int k = 1; k <= (th ? 4 : 3); ++k) c.push_back({vc::cat("stale_", k), [=] { stale(k); }, 0});
    for (int k = 1; k <= (th ? 6 : 5); ++k) c.push_back({vc::cat("corrupt_", k), [=] { corrupt(k); }, 0});
    return vc::run(argc, argv, c);
}
