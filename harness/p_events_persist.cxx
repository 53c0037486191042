// P05: saved events come back exactly; an incomplete or failed save never yields a different event list silently.
#include "events.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
using namespace ev;
typedef std::vector<std::shared_ptr<InteractionTree>> Trees;
// ---- layouts of version-0 files (written by older releases) ----
struct Rec0 { InteractionRecord r; template <class A> void save(A &a, std::uint32_t const) const {
    a(r.signature, r.primary_id, r.primary_initial_position, r.primary_mass, r.primary_momentum, r.primary_helicity, r.target_id, r.target_mass, r.target_helicity, r.interaction_vertex, r.secondary_ids, r.secondary_masses, r.secondary_momenta, r.secondary_helicities, r.interaction_parameters); } };
CEREAL_CLASS_VERSION(Rec0, 0);
template <class R> struct Datum0 { R record; std::shared_ptr<Datum0> parent; std::vector<std::shared_ptr<Datum0>> daughters; template <class A> void save(A &a, std::uint32_t const) const { a(record, parent, daughters); } template <class A> void load(A &, std::uint32_t const) {} };
CEREAL_CLASS_VERSION(Datum0<Rec0>, 0);
CEREAL_CLASS_VERSION(Datum0<InteractionRecord>, 0);
template <class R> struct Tree0 { std::vector<std::shared_ptr<Datum0<R>>> tree; template <class A> void save(A &a, std::uint32_t const) const { a(tree); } template <class A> void load(A &, std::uint32_t const) {} };
CEREAL_CLASS_VERSION(Tree0<Rec0>, 0);
CEREAL_CLASS_VERSION(Tree0<InteractionRecord>, 0);

static std::shared_ptr<InteractionTree> mk(std::vector<int> const &parents, int base) {
    auto t = std::make_shared<InteractionTree>();
    for (size_t i = 0; i < parents.size(); ++i) { InteractionRecord r = rec(base + int(i), int((i + base) % 4), (base + i) % 2, int(i % 3)); t->add_entry(r, parents[i] < 0 ? nullptr : t->tree[parents[i]]); }
    t->header.event_number = base ? 0xffffffff00000000ull + base : 0; for (int i = 0; i < base % 3; ++i) t->header.weights.push_back(1e-30 * (i + 1)); if (base % 2) t->header.provenance["run"] = "x\ty\"\xc3\xa9" + std::to_string(base);
    return t;
}
static void shapes(int n, std::function<void(std::vector<int> const &)> f) {
    std::vector<int> p(n, -1);
    if (n == 0) { f(p); return; }
    for (;;) { f(p); int k = n - 1; while (k >= 0 && ++p[k] >= k) { p[k] = -1; --k; } if (k < 0) break; if (k == 0) break; }
}
static std::string slurp(std::string const &f) { FILE *h = fopen(f.c_str(), "rb"); std::string s; char b[65536]; size_t n; if (!h) return s; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void spit(std::string const &f, std::string const &s) { FILE *h = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), h); fclose(h); }
static std::string name(char const *n) { char const *d = getenv("VERIF_SCRATCH"); return vc::cat(d ? d : "/tmp", "/", n, getpid()); }
static std::string cmp(Trees const &a, Trees const &b) {
    if (a.size() != b.size()) return vc::cat("number of events ", b.size(), " instead of ", a.size());
    for (size_t i = 0; i < a.size(); ++i) { if (bool(a[i]) != bool(b[i])) return "null event"; if (!a[i]) continue; auto d = diff(*a[i], *b[i]); if (!d.empty()) return vc::cat("event ", i, ": ", d); }
    return "";
}
static void roundtrip(int n) {
    std::string f = name("rt");
    shapes(n, [&](std::vector<int> const &p) {
        std::string s; for (int x : p) s += vc::cat(x, ",");
        for (int extra = 0; extra < 3; ++extra) {
            vc::note("roundtrip " + s); vc::state(vc::cat("rt:", s, ":", extra)); vc::trace();
            Trees t = {mk(p, extra)}; if (extra) { t.push_back(mk({-1, 0}, 5)); t.push_back(extra == 2 ? nullptr : mk({}, 7)); if (extra == 2) t.push_back(t[0]); }
            SaveInteractionTrees(t, f); Trees u = LoadInteractionTrees(f); vc::step(2);
            auto d = cmp(t, u); VC_EXPECT(d.empty(), "file-roundtrip", s, ": ", d);
            if (extra == 2 && u.size() == 4) VC_EXPECT(u[3] == u[0], "shared-event-identity", s);
            // daughters keep pointing at the same nodes, records remain independent objects
            { std::stringstream ss; { cereal::JSONOutputArchive a(ss); a(cereal::make_nvp("t", t)); } Trees v; { cereal::JSONInputArchive a(ss); a(cereal::make_nvp("t", v)); } auto e = cmp(t, v); VC_EXPECT(e.empty(), "json-roundtrip", s, ": ", e); }
        }
    });
    unlink((f + ".siren_events").c_str());
}
// every single-field change of a record is visible after a round trip
static void fields() {
    for (int k = 0; k < 4; ++k) for (auto &m : mutants(rec(k, k))) {
        vc::note("field " + m.first); vc::state(vc::cat(k, m.first)); vc::trace();
        auto t = std::make_shared<InteractionTree>(); t->add_entry(m.second); Trees v = {t};
        std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(v); } Trees u; { cereal::BinaryInputArchive a(ss); a(u); }
        auto d = cmp(v, u); VC_EXPECT(d.empty(), "record-roundtrip", m.first, ": ", d); vc::step(2);
    }
}
// every truncation point of a file: loading refuses
static void truncated(int n) {
    std::string f = name("tr");
    Trees t = {mk(n == 1 ? std::vector<int>{-1} : std::vector<int>{-1, 0, 0}, 1), mk({-1}, 2)}; SaveInteractionTrees(t, f);
    std::string full = slurp(f + ".siren_events");
    for (size_t k = 0; k < full.size(); ++k) {
        vc::note(vc::cat("truncated at ", k)); vc::state(vc::cat("trunc", n, ":", k)); vc::trace(); vc::step();
        spit(f + ".siren_events", full.substr(0, k)); bool threw = false; std::string d;
        try { Trees u = LoadInteractionTrees(f); d = cmp(t, u); } catch (std::exception const &) { threw = true; }
        VC_EXPECT(threw, "truncated-file-accepted", "file cut after ", k, " of ", full.size(), " bytes was loaded: ", d);
    }
    unlink((f + ".siren_events").c_str());
    bool threw = false; try { LoadInteractionTrees(f); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "missing-file-accepted", "");
}
// the disk fills up after k bytes, for every k: the save reports it (or the file is complete)
static void diskfull(int part, int parts) {
    std::string f = name(vc::cat("df", part, "_").c_str()); signal(SIGXFSZ, SIG_IGN);
    Trees t = {mk({-1, 0, 0}, 1), mk({-1}, 2)}; if (part == parts - 1) for (int i = 0; i < 12; ++i) t.push_back(mk({-1, 0, 1, 1}, i));
    SaveInteractionTrees(t, f); size_t full = slurp(f + ".siren_events").size();
    size_t stepk = part == parts - 1 ? 97 : 1;
    for (size_t k = part; k < full; k += (part == parts - 1 ? stepk : parts - 1)) {
        vc::note(vc::cat("write fails after ", k)); vc::state(vc::cat("full:", part, ":", k)); vc::trace(); vc::step();
        unlink((f + ".siren_events").c_str());
        rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim);
        bool threw = false; try { SaveInteractionTrees(t, f); } catch (std::exception const &) { threw = true; }
        setrlimit(RLIMIT_FSIZE, &old);
        size_t got = slurp(f + ".siren_events").size();
        VC_EXPECT(threw || got == full, "failed-save-unreported", "the file system stopped accepting data after ", k, " bytes; the save returned normally with ", got, " of ", full, " bytes on disk");
    }
    unlink((f + ".siren_events").c_str());
    bool threw = false; try { SaveInteractionTrees(t, "/nonexistent-directory/x"); } catch (std::exception const &) { threw = true; } VC_EXPECT(threw, "unwritable-save-unreported", "");
}
// files with inconsistent links are refused (all assignments of node id / parent / daughter on small trees)
static void inconsistent(int n) {
    auto base = [&] { std::vector<int> p(n, -1); return mk(p, 1); };
    std::vector<uint32_t> vals; for (int i = 0; i <= n; ++i) vals.push_back(i); vals.push_back(kNoParent); vals.push_back(kNoParent - 1); vals.push_back(1u << 31);
    auto attempt = [&](std::shared_ptr<InteractionTree> t, bool bad, std::string h) {
        vc::note(h); vc::state(h); vc::trace(); vc::step(2); Trees v = {t}, u; std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(v); }
        bool threw = false; try { cereal::BinaryInputArchive a(ss); a(u); } catch (std::exception const &) { threw = true; }
        VC_EXPECT(threw == bad, bad ? "inconsistent-file-accepted" : "consistent-file-refused", h);
        if (!threw && !bad) { auto d = cmp(v, u); VC_EXPECT(d.empty(), "link-roundtrip", h, d); }
    };
    for (int i = 0; i < n; ++i) for (uint32_t v : vals) {
        { auto t = base(); t->tree[i]->node_id = v; attempt(t, v != uint32_t(i), vc::cat("n=", n, " node ", i, " id ", v)); }
        { auto t = base(); t->tree[i]->parent_index = v; attempt(t, v != kNoParent && v >= uint32_t(n), vc::cat("n=", n, " node ", i, " parent ", v)); }
        for (uint32_t w : vals) { auto t = base(); t->tree[i]->daughter_indices = {w, v}; attempt(t, v >= uint32_t(n) || w >= uint32_t(n), vc::cat("n=", n, " node ", i, " daughters ", w, ",", v)); }
        { auto t = base(); t->tree[i] = nullptr; attempt(t, true, vc::cat("n=", n, " node ", i, " null")); }
    }
}
// files of older releases (pointer-linked trees, records with or without times)
template <class R> static void legacy(int n, bool times, char const *kind) {
    std::string f = name("lg");
    shapes(n, [&](std::vector<int> const &p) {
        auto want = mk(p, 3); want->header = InteractionTreeHeader();
        for (auto &d : want->tree) if (!times) { d->record.primary_initial_time = 0; d->record.interaction_time = 0; d->record.secondary_times.assign(d->record.secondary_momenta.size(), 0); }
        auto t0 = std::make_shared<Tree0<R>>();
        for (size_t i = 0; i < p.size(); ++i) { auto d = std::make_shared<Datum0<R>>(); if constexpr (std::is_same<R, Rec0>::value) d->record.r = want->tree[i]->record; else d->record = want->tree[i]->record; if (p[i] >= 0) { d->parent = t0->tree[p[i]]; t0->tree[p[i]]->daughters.push_back(d); } t0->tree.push_back(d); }
        std::string s; for (int x : p) s += vc::cat(x, ","); vc::note("legacy " + s); vc::state(vc::cat(kind, s)); vc::trace(); vc::step(2);
        { std::vector<std::shared_ptr<Tree0<R>>> v = {t0}; std::ofstream os(f + ".siren_events", std::ios::binary); cereal::BinaryOutputArchive a(os); a(v); }
        Trees u = LoadInteractionTrees(f); auto d = cmp({want}, u); VC_EXPECT(d.empty(), std::string("legacy-load-") + kind, s, ": ", d);
        for (auto &x : u) for (auto &y : x->tree) VC_EXPECT(!y->legacy_parent && y->legacy_daughters.empty(), "legacy-links-kept", s);
        for (auto &d : t0->tree) { d->parent = nullptr; d->daughters.clear(); }
    });
    unlink((f + ".siren_events").c_str());
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i < argc; ++i) th = th || std::string(argv[i]) == "thorough";
    std::vector<vc::Case> c; int mx = th ? 6 : 5;
    for (int n = 0; n <= mx; ++n) c.push_back({vc::cat("roundtrip_", n), [=] { roundtrip(n); }, 0});
    c.push_back({"fields", fields, 0});
    for (int n : {1, 3}) c.push_back({vc::cat("truncated_", n), [=] { truncated(n); }, 0});
    for (int k = 0; k < 5; ++k) c.push_back({vc::cat("write_failure_", k), [=] { diskfull(k, 5); }, 0});
    for (int n = 1; n <= 3; ++n) c.push_back({vc::cat("inconsistent_", n), [=] { inconsistent(n); }, 0});
    for (int n = 1; n <= mx; ++n) { c.push_back({vc::cat("legacy_v0_", n), [=] { legacy<Rec0>(n, false, "v0"); }, 0}); c.push_back({vc::cat("legacy_v1records_", n), [=] { legacy<InteractionRecord>(n, true, "v0tree-v1record"); }, 0}); }
    return vc::run(argc, argv, c);
}
