// P37: events written as HepMC3.  The real writer and reader (both guarded out where HepMC3 is missing) run on a stand-in for
// HepMC3 (shim/HepMC3); all event trees up to a size, all lists of events, all lost attributes.
#include "events.h"
#include "SIREN/io/HepMC3Writer.h"
#include "SIREN/io/HepMC3Reader.h"
#include "SIREN/utilities/Constants.h"
#include <HepMC3/ReaderAscii.h>
#include <set>
using namespace ev; namespace C = siren::utilities::Constants; namespace io = siren::io;
using TP = std::shared_ptr<InteractionTree>;
static bool near(double a, double b) { return a == b || (std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b))); }
struct Spec { std::vector<int> parent, slot, kind; int ids = 0, nsec = 2, salt = 0; };
static std::string show(Spec const &s) { std::string o; for (size_t i = 0; i < s.parent.size(); ++i) o += vc::cat(s.parent[i] < 0 ? std::string("root") : vc::cat("node", s.parent[i], ".", s.slot[i]), "ndu"[s.kind[i]], " "); return o + vc::cat("ids", s.ids, " secondaries", s.nsec); }
// a tree in which a daughter's primary is its parent's secondary
static TP build(Spec const &s) {
    auto t = std::make_shared<InteractionTree>(); std::vector<std::shared_ptr<InteractionTreeDatum>> h;
    for (size_t i = 0; i < s.parent.size(); ++i) {
        InteractionRecord r = rec(int(i) + 10 * s.salt, s.nsec, true, int(i) % 3); for (auto &x : r.secondary_ids) x = ParticleID(0xabc0000000000000ull + x.GetMajorID() + 100 * s.salt, x.GetMinorID());
        for (size_t j = 0; j < r.secondary_momenta.size(); ++j) { auto &p = r.secondary_momenta[j]; p[0] = std::sqrt(p[1] * p[1] + p[2] * p[2] + p[3] * p[3] + r.secondary_masses[j] * r.secondary_masses[j]); }
        r.signature.target_type = s.kind[i] == 0 ? (i % 2 ? ParticleType::O16Nucleus : ParticleType::Nucleon) : s.kind[i] == 1 ? ParticleType::Decay : ParticleType::unknown;
        if (s.kind[i]) { r.target_mass = 0; r.target_helicity = 0; r.target_id = ParticleID(); } else if (s.ids & 1) r.target_id = ParticleID(); else r.target_id = ParticleID(5000 + i, -1);
        r.interaction_time *= 1e-3; r.primary_initial_time *= 1e-3; for (auto &x : r.secondary_times) x *= 1e-3;
        std::shared_ptr<InteractionTreeDatum> par;
        if (s.parent[i] >= 0) {
            par = h[s.parent[i]]; auto &q = par->record; int k = s.slot[i]; r.signature.primary_type = q.signature.secondary_types[k]; r.primary_id = q.secondary_ids[k]; r.primary_mass = q.secondary_masses[k];
            r.primary_momentum = q.secondary_momenta[k]; r.primary_helicity = q.secondary_helicities[k]; r.primary_initial_position = q.interaction_vertex; r.primary_initial_time = q.interaction_time;
        } else if (s.ids & 2) r.primary_id = ParticleID();
        h.push_back(t->add_entry(r, par));
    }
    if (s.ids & 4) for (size_t i = 0; i < h.size(); ++i) for (size_t k = 0; k < h[i]->record.secondary_ids.size(); ++k) { bool used = false; for (size_t j = 0; j < h.size(); ++j) used |= s.parent[j] == int(i) && s.slot[j] == int(k); if (!used) h[i]->record.secondary_ids[k] = ParticleID(); }
    return t;
}
static std::string rdiff(InteractionRecord const &a, InteractionRecord const &b, std::set<std::pair<uint64_t, int>> *fresh = nullptr) {
    auto id = [&](ParticleID const &x, ParticleID const &y, bool gen) { if (x.IsSet()) return y.IsSet() && x.GetMajorID() == y.GetMajorID() && x.GetMinorID() == y.GetMinorID(); return gen ? y.IsSet() && (!fresh || fresh->insert({y.GetMajorID(), y.GetMinorID()}).second) : !y.IsSet(); };
    auto vec = [](auto const &x, auto const &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (!near(x[i], y[i])) return false; return true; };
    if (a.signature.primary_type != b.signature.primary_type) return "primary type";
    if (a.signature.target_type != b.signature.target_type) return "target type";
    if (a.signature.secondary_types != b.signature.secondary_types) return "secondary types";
    if (!id(a.primary_id, b.primary_id, true)) return "primary id";
    if (!id(a.target_id, b.target_id, false)) return "target id";
    if (!vec(a.primary_initial_position, b.primary_initial_position)) return "primary initial position";
    if (!near(a.primary_initial_time, b.primary_initial_time)) return "primary initial time";
    if (!near(a.primary_mass, b.primary_mass) || !vec(a.primary_momentum, b.primary_momentum) || a.primary_helicity != b.primary_helicity) return "primary mass, momentum or helicity";
    if (!near(a.target_mass, b.target_mass) || a.target_helicity != b.target_helicity) return "target mass or helicity";
    if (!vec(a.interaction_vertex, b.interaction_vertex)) return "interaction vertex";
    if (!near(a.interaction_time, b.interaction_time)) return "interaction time";
    if (a.secondary_ids.size() != b.secondary_ids.size()) return "number of secondary ids";
    for (size_t i = 0; i < a.secondary_ids.size(); ++i) if (!id(a.secondary_ids[i], b.secondary_ids[i], true)) return "secondary id";
    if (!vec(a.secondary_masses, b.secondary_masses) || !vec(a.secondary_helicities, b.secondary_helicities) || !vec(a.secondary_times, b.secondary_times)) return "secondary masses, helicities or times";
    if (a.secondary_momenta.size() != b.secondary_momenta.size()) return "number of secondary momenta";
    for (size_t i = 0; i < a.secondary_momenta.size(); ++i) if (!vec(a.secondary_momenta[i], b.secondary_momenta[i])) return "secondary momenta";
    if (a.interaction_parameters != b.interaction_parameters) return "interaction parameters";
    return "";
}
static std::string tdiff(InteractionTree const &a, InteractionTree const &b) {
    if (a.tree.size() != b.tree.size()) return "number of interactions";
    std::set<std::pair<uint64_t, int>> fresh;
    for (size_t i = 0; i < a.tree.size(); ++i) {
        if (a.tree[i]->parent_index != b.tree[i]->parent_index) return vc::cat("parent of interaction ", i);
        if (a.tree[i]->daughter_indices != b.tree[i]->daughter_indices) return vc::cat("daughters of interaction ", i);
        auto d = rdiff(a.tree[i]->record, b.tree[i]->record, &fresh); if (!d.empty()) return vc::cat(d, " of interaction ", i);
    }
    return "";
}
#define EX(cond, key, ...) ([&] { bool ok_ = bool(cond); ++vc::R.evaluations; if (!ok_) vc::fail((key), vc::cat(__VA_ARGS__)); return ok_; }())
static std::string FILE_() { return vc::cat("events-", getpid(), ".hepmc3"); }
static std::vector<std::shared_ptr<HepMC3::GenEvent>> raw(std::string const &f) {
    std::vector<std::shared_ptr<HepMC3::GenEvent>> v; HepMC3::ReaderAscii r(f);
    while (true) { auto e = std::make_shared<HepMC3::GenEvent>(); if (!r.read_event(*e) || r.failed()) break; v.push_back(e); }
    return v;
}
// the HepMC3 event against the tree: momenta, units, vertices, who is joined to whom, status codes
static void against(InteractionTree const &t, HepMC3::GenEvent const &e, std::string const &w) {
    auto const &V = e.vertices(); if (!EX(V.size() == t.tree.size(), "vertices", vc::cat(w, ": ", V.size(), " vertices"))) return;
    EX(e.momentum_unit() == HepMC3::Units::GEV && e.length_unit() == HepMC3::Units::CM, "units", w);
    size_t expected = 0; int beams = 0, targets = 0; bool first = true; int s4 = 0, s20 = 0;
    for (auto const &p : e.particles()) { s4 += p->status() == 4; s20 += p->status() == 20; }
    for (size_t i = 0; i < t.tree.size(); ++i) {
        auto const &r = t.tree[i]->record; auto const &v = V[i]; bool root = t.tree[i]->is_root(), prim = root && first; if (root) first = false;
        bool decay = r.signature.target_type == ParticleType::Decay, unk = r.signature.target_type == ParticleType::unknown, tgt = !decay && !unk;
        EX(v->status() == (prim ? 1 : decay ? 22 : 21), "vertex-status", vc::cat(w, ": vertex ", i, " has status ", v->status()));
        auto x = v->position(); double ct = 29979245800.0 * (r.interaction_time / C::second);
        EX(near(x.x(), 100 * r.interaction_vertex[0]) && near(x.y(), 100 * r.interaction_vertex[1]) && near(x.z(), 100 * r.interaction_vertex[2]), "position", vc::cat(w, ": vertex ", i, " at ", x.x(), " ", x.y(), " ", x.z()));
        EX(std::abs(x.t() - ct) <= 1e-6 * std::abs(ct), "time", vc::cat(w, ": vertex ", i, " has c t = ", x.t(), " cm instead of ", ct));
        auto const &in = v->particles_in(); auto const &out = v->particles_out();
        if (!EX(in.size() == 1 + size_t(tgt) && out.size() == r.signature.secondary_types.size(), "particles", vc::cat(w, ": vertex ", i, " has ", in.size(), " particles in and ", out.size(), " out"))) continue;
        auto P = in[0]; EX(P->pid() == int(r.signature.primary_type) && near(P->momentum().e(), r.primary_momentum[0]) && near(P->momentum().px(), r.primary_momentum[1]) && near(P->momentum().py(), r.primary_momentum[2]) && near(P->momentum().pz(), r.primary_momentum[3]) && near(P->generated_mass(), r.primary_mass), "primary", vc::cat(w, ": vertex ", i));
        EX(P->status() == (prim ? 4 : 2), "primary-status", vc::cat(w, ": vertex ", i, ": ", P->status()));
        if (root) { EX(!P->production_vertex() || P->production_vertex()->id() == 0, "root-joined", vc::cat(w, ": vertex ", i)); ++expected; }
        else EX(P->production_vertex() == V[t.tree[i]->parent_index], "join", vc::cat(w, ": the primary of vertex ", i, " does not come from its parent's vertex"));
        beams += prim;
        if (tgt) { auto T = in[1]; ++expected; targets += prim; EX(T->pid() == int(r.signature.target_type) && T->status() == (prim ? 20 : 22) && T->momentum().px() == 0 && T->momentum().py() == 0 && T->momentum().pz() == 0 && near(T->momentum().e(), r.target_mass) && near(T->generated_mass(), r.target_mass), "target", vc::cat(w, ": vertex ", i, ": ", T->pid(), " status ", T->status())); }
        for (size_t j = 0; j < out.size(); ++j) {
            auto O = out[j]; auto const &p = r.secondary_momenta[j]; ++expected; int child = -1; for (auto d : t.tree[i]->daughter_indices) { auto const &a = t.tree[d]->record.primary_id, &b = r.secondary_ids[j]; if (b.IsSet() && a.GetMajorID() == b.GetMajorID() && a.GetMinorID() == b.GetMinorID()) child = d; }
            EX(O->pid() == int(r.signature.secondary_types[j]) && near(O->momentum().e(), p[0]) && near(O->momentum().px(), p[1]) && near(O->momentum().py(), p[2]) && near(O->momentum().pz(), p[3]) && near(O->generated_mass(), r.secondary_masses[j]), "secondary", vc::cat(w, ": vertex ", i, " secondary ", j));
            EX(O->status() == (child >= 0 ? 2 : 1), "secondary-status", vc::cat(w, ": vertex ", i, " secondary ", j, ": ", O->status()));
            EX(child >= 0 ? O->end_vertex() == V[child] : !O->end_vertex(), "end-vertex", vc::cat(w, ": vertex ", i, " secondary ", j));
        }
    }
    EX(e.particles().size() == expected, "particle-count", vc::cat(w, ": ", e.particles().size(), " particles instead of ", expected)); EX(s4 == beams && s20 == targets, "beam-and-target", vc::cat(w, ": ", s4, " beams and ", s20, " targets"));
}
static void one(Spec const &s) {
    std::string w = show(s), f = FILE_(); vc::note(w); vc::state(w); vc::trace(); vc::step(); TP t = build(s); t->header.weights = {0.125 + s.parent.size()}; t->header.event_number = 17;
    io::SaveInteractionTreesAsHepMC3({t}, f); auto e = raw(f); if (!EX(e.size() == 1, "event-count", w)) return;
    against(*t, *e[0], w); EX(e[0]->event_number() == 17 && e[0]->weights() == t->header.weights, "event-header", w);
    for (int strict = 0; strict < 2; ++strict) { auto b = io::LoadInteractionTreesFromHepMC3(f, strict); if (!EX(b.size() == 1, "loaded-count", w)) continue; auto d = tdiff(*t, *b[0]); EX(d.empty(), "round-trip", vc::cat(w, ": ", d, " differs after reading back")); EX(b[0]->header.event_number == 17 && b[0]->header.weights == t->header.weights, "loaded-header", w); }
    // the same event in MeV and mm
    { std::string g = f + "m"; auto ri = e[0]->run_info(); e[0]->set_units(HepMC3::Units::MEV, HepMC3::Units::MM); HepMC3::WriterAscii o(g, ri); o.write_event(*e[0]); o.close(); auto b = io::LoadInteractionTreesFromHepMC3(g); auto d = b.size() == 1 ? tdiff(*t, *b[0]) : "number of events"; EX(d.empty(), "other-units", vc::cat(w, ": ", d, " differs after reading the event in MeV and mm")); unlink(g.c_str()); }
    unlink(f.c_str());
}
static void shapes(int n, int part, int of) {
    int k = 0; Spec s; s.parent.assign(n, -1); s.slot.assign(n, 0); s.kind.assign(n, 0);
    std::function<void(int)> go = [&](int i) {
        if (i == n) {
            std::set<std::pair<int, int>> used; for (int j = 0; j < n; ++j) if (s.parent[j] >= 0 && !used.insert({s.parent[j], s.slot[j]}).second) return;
            int K = 1; for (int j = 0; j < n; ++j) K *= 3; bool all = n <= 3 || vc::thorough();
            for (int c = 0; c < (all ? K : 3); ++c) for (int ids = 0; ids < 8; ++ids) { if (++k % of != part) continue; int q = c; for (int j = 0; j < n; ++j) { s.kind[j] = all ? q % 3 : (c + j) % 3; q /= 3; } s.ids = ids; one(s); }
            return;
        }
        for (int p = -1; p < i; ++p) for (int sl = 0; sl < (p < 0 ? 1 : s.nsec); ++sl) { s.parent[i] = p; s.slot[i] = sl; go(i + 1); }
    };
    for (s.nsec = 1; s.nsec <= 3; ++s.nsec) { if (s.nsec == 3 && n > 3) continue; go(0); }
}
// lists of events: numbers, weights, counts, process registry, options
static void lists(int state) {
    const uint64_t NUM[] = {0, 1, 2, 2147483648ull, 1099511627776ull}; std::string f = FILE_(); char const *STATE[] = {"header", "computed", "unweighted"};
    // 0 null, 1 empty, 2.. trees of three signatures
    auto make = [&](int kind, uint64_t num, int nw) -> TP { if (kind == 0) return nullptr; if (kind == 1) return std::make_shared<InteractionTree>(); Spec s; s.parent = {-1, 0}; s.slot = {0, 1}; s.kind = {kind - 2, 0}; s.salt = kind == 4 ? 1 : 0; TP t = build(s); t->header.event_number = num; for (int i = 0; i < nw; ++i) t->header.weights.push_back(0.5 * (kind + 1) + 3 * i + num % 7); return t; };
    for (int len = 0; len <= 3; ++len) {
        int total = 1; for (int i = 0; i < len; ++i) total *= 5 * 5;
        for (int c = 0; c < total; ++c) for (int opt = 0; opt < (len < 3 ? 48 : 6); ++opt) {
            std::vector<int> kind, num; int q = c; for (int i = 0; i < len; ++i) { kind.push_back(q % 5); num.push_back(q / 5 % 5); q /= 25; }
            bool skip = false; for (int i = 0; i < len; ++i) skip |= kind[i] < 2 && num[i]; if (skip) continue;
            int names = 1 + opt % 2, nw = opt / 2 % 3; bool atom = opt / 6 & 1, part = opt / 12 & 1, given = opt / 24 & 1; std::vector<TP> ts; for (int i = 0; i < len; ++i) ts.push_back(make(kind[i], NUM[num[i]], nw));
            std::string w = vc::cat(STATE[state], " events"); for (int i = 0; i < len; ++i) w += vc::cat(" ", kind[i] == 0 ? "null" : kind[i] == 1 ? "empty" : vc::cat("tree", kind[i] - 2, "#", NUM[num[i]])); w += vc::cat(", ", names, " weight names, ", nw, " weights, options ", opt / 6); vc::note(w); vc::state(w); vc::step(); vc::trace();
            io::HepMC3Writer::Options o; o.weights_state = STATE[state]; o.weight_names = names == 1 ? std::vector<std::string>{"CV"} : std::vector<std::string>{"CV", "up"}; o.fatx_per_atom = atom; o.fatx_partition_by_primary = part; o.siren_version = "1.2.3"; o.provenance["seed"] = "99"; if (given) { o.attempted_events = 1000; o.events_to_inject = 500; }
            io::SaveInteractionTreesAsHepMC3(ts, f, o); auto e = raw(f); std::vector<TP> real; for (auto &t : ts) if (t && !t->tree.empty()) real.push_back(t);
            if (!EX(e.size() == real.size(), "list-count", vc::cat(w, ": ", e.size(), " events in the file"))) continue;
            auto back = io::LoadInteractionTreesFromHepMC3(f); if (!EX(back.size() == real.size(), "list-loaded", vc::cat(w, ": ", back.size(), " events read back"))) continue;
            std::set<uint64_t> seen; std::set<uint64_t> expl; for (auto &t : real) if (t->header.event_number) expl.insert(t->header.event_number);
            double sum = 0; std::map<int, double> by; std::map<int, int> acc; std::map<std::string, int> proc;
            HepMC3::ReaderAscii rr(f); HepMC3::GenEvent dummy; rr.read_event(dummy); auto ri = dummy.run_info();
            for (size_t i = 0; i < real.size(); ++i) {
                auto &h = back[i]->header; uint64_t want = real[i]->header.event_number; auto d = tdiff(*real[i], *back[i]); EX(d.empty(), "list-round-trip", vc::cat(w, ": ", d, " of event ", i));
                if (want) EX(h.event_number == want, "event-number", vc::cat(w, ": event ", i, " has number ", h.event_number));
                else EX(!expl.count(h.event_number) && seen.insert(h.event_number).second, "number-reused", vc::cat(w, ": event ", i, " gets number ", h.event_number, " again"));
                double cv = nw ? real[i]->header.weights[0] : 1.0; sum += cv; by[int(real[i]->tree[0]->record.signature.primary_type)] += cv; acc[int(real[i]->tree[0]->record.signature.primary_type)]++;
                EX(e[i]->weights().size() == size_t(names) && e[i]->weights()[0] == cv && h.weights == e[i]->weights(), "weights", vc::cat(w, ": weight ", e[i]->weights().empty() ? -1 : e[i]->weights()[0])); if (nw == names) EX(e[i]->weights() == real[i]->header.weights, "all-weights", w);
                EX(h.provenance["siren.weights_state"] == STATE[state], "weights-state", w);
                auto sp = e[i]->attribute<HepMC3::IntAttribute>("signal_process_id"); auto lab = e[i]->attribute<HepMC3::VectorDoubleAttribute>("lab_pos"); bool nu = state != 2;
                if (EX(bool(sp) == nu && bool(lab) == nu, "process-id", vc::cat(w, ": event ", i)) && nu) {
                    auto const &sg = real[i]->tree[0]->record.signature; std::string key = vc::cat(int(sg.primary_type), " ", int(sg.target_type)); for (auto x : sg.secondary_types) key += vc::cat(" ", int(x));
                    auto it = proc.find(key); EX(it == proc.end() || it->second == sp->value(), "process-differs", vc::cat(w, ": one signature, two process ids")); for (auto &k : proc) EX(k.first == key || k.second != sp->value(), "process-shared", vc::cat(w, ": one process id, two signatures")); proc[key] = sp->value();
                    auto L = lab->value(); EX(L.size() == 3 && near(L[0], 100 * real[i]->tree[0]->record.interaction_vertex[0]) && near(L[1], 100 * real[i]->tree[0]->record.interaction_vertex[1]) && near(L[2], 100 * real[i]->tree[0]->record.interaction_vertex[2]), "lab-pos", w);
                }
            }
            auto num_ = [&](std::string const &n) { auto a = ri ? ri->attribute<HepMC3::DoubleAttribute>(n) : nullptr; return a ? a->value() : std::nan(""); }; auto str = [&](std::string const &n) { auto a = ri ? ri->attribute<HepMC3::StringAttribute>(n) : nullptr; return a ? a->value() : std::string("-"); };
            if (real.empty()) continue;
            bool nu = state != 2; std::set<std::string> names_; for (auto &n : ri->attribute_names()) names_.insert(n);
            EX(str("siren.seed") == "99" && ri->tools().size() == 1 && ri->tools()[0].name == "SIREN" && ri->tools()[0].version == "1.2.3" && ri->weight_names() == o.weight_names, "run-info", w);
            EX(num_("siren.accepted_events") == double(real.size()), "accepted", vc::cat(w, ": ", num_("siren.accepted_events"))); EX(given ? num_("siren.attempted_events") == 1000 && num_("siren.events_to_inject") == 500 : !names_.count("siren.attempted_events") && !names_.count("siren.events_to_inject"), "attempted", w);
            if (!nu) { for (auto &n : names_) EX(n.substr(0, 8) != "NuHepMC." && n.substr(0, 10) != "siren.fatx", "unweighted-claims", vc::cat(w, ": ", n)); continue; }
            EX(near(num_("NuHepMC.FluxAveragedTotalCrossSection"), 3.894e8 * sum) && near(num_("siren.fatx.weight_sum"), sum) && near(num_("siren.fatx.value"), 3.894e8 * sum) && str("NuHepMC.Units.CrossSection.Unit") == "pb", "cross-section", vc::cat(w, ": ", num_("NuHepMC.FluxAveragedTotalCrossSection"), " for a weight sum of ", sum));
            EX(str("NuHepMC.Units.CrossSection.TargetScale") == (atom ? "PerAtom" : "-"), "target-scale", w);
            EX(bool(names_.count("siren.fatx_partitioned")) == (part && by.size() > 1), "partition", w);
            if (part && by.size() > 1) for (auto &b : by) EX(near(num_(vc::cat("siren.fatx.", b.first)), 3.894e8 * b.second) && near(num_(vc::cat("siren.fatx.", b.first, ".weight_sum")), b.second) && num_(vc::cat("siren.fatx.", b.first, ".accepted")) == acc[b.first], "partition", vc::cat(w, ": primary ", b.first));
            auto ids = ri->attribute<HepMC3::VectorIntAttribute>("NuHepMC.ProcessIDs"); std::set<int> want, have; for (auto &k : proc) want.insert(k.second); if (ids) for (int i : ids->value()) { have.insert(i); EX(!str(vc::cat("NuHepMC.ProcessInfo[", i, "].Name")).empty() && i >= 700, "process-name", w); } EX(want == have, "process-registry", vc::cat(w, ": ", have.size(), " processes declared, ", want.size(), " used"));
            for (auto r : {"VertexStatus", "ParticleStatus"}) { auto a = ri->attribute<HepMC3::VectorIntAttribute>(vc::cat("NuHepMC.", r, "IDs")); std::set<int> dec; if (a) for (int i : a->value()) { dec.insert(i); EX(names_.count(vc::cat("NuHepMC.", r, "Info[", i, "].Name")), "status-info", w); } for (auto &x : e) { if (r[0] == 'V') for (auto &v : x->vertices()) EX(dec.count(v->status()), "status-undeclared", w); else for (auto &p : x->particles()) EX(dec.count(p->status()), "status-undeclared", w); } }
            auto ap = ri->attribute<HepMC3::VectorIntAttribute>("NuHepMC.AdditionalParticleNumbers"); std::set<int> add; if (ap) for (int i : ap->value()) add.insert(i); for (int i : {5901, 5902, 5903, 5910, -5910, 5911, 5912, 5913, 5914, -5914, 5915, -5915, 5916, -5916, 5921}) EX(add.count(i), "particle-undeclared", vc::cat(w, ": ", i));
        }
    }
    unlink(f.c_str());
}
// process ids do not depend on the order of the events
static void order() {
    std::string f = FILE_(); std::vector<int> p = {0, 1, 2, 3}; std::map<std::string, int> ref; Spec b; b.parent = {-1}; b.slot = {0};
    do {
        std::vector<TP> ts; for (int i : p) { Spec s = b; s.kind = {i % 3}; s.salt = i / 3; s.nsec = 1 + i % 2; ts.push_back(build(s)); }
        vc::step(); vc::trace(); std::string w; for (int i : p) w += vc::cat(i, " "); vc::note(w); vc::state(w); io::SaveInteractionTreesAsHepMC3(ts, f); auto e = raw(f);
        for (size_t i = 0; i < e.size(); ++i) { auto a = e[i]->attribute<HepMC3::IntAttribute>("signal_process_id"); if (!EX(bool(a), "order-missing", w)) continue; auto k = std::to_string(p[i]); auto it = ref.find(k); EX(it == ref.end() || it->second == a->value(), "order-dependent", vc::cat("events in order ", w, ": the process of event ", k, " is ", a->value())); ref[k] = a->value(); }
    } while (std::next_permutation(p.begin(), p.end()));
    unlink(f.c_str());
}
// a file in which one attribute is missing
static void lost() {
    std::string f = FILE_(), g = f + "l";
    for (int v = 0; v < 6; ++v) {
        Spec s; s.parent = {-1, 0, 0, 1}; s.slot = {0, 0, 1, 1}; s.kind = {v % 3, (v + 1) % 3, v / 3, 2}; s.parent.resize(v < 3 ? 3 : 4); s.slot.resize(s.parent.size()); s.kind.resize(s.parent.size()); TP t = build(s); io::SaveInteractionTreesAsHepMC3({t}, f);
        std::vector<std::string> lines; { std::ifstream i(f); std::string l; while (std::getline(i, l)) lines.push_back(l); }
        for (size_t k = 0; k < lines.size(); ++k) {
            if (lines[k][0] != 'A') continue;
            { std::ofstream o(g); for (size_t j = 0; j < lines.size(); ++j) if (j != k) o << lines[j] << "\n"; }
            std::string w = vc::cat(show(s), " without the line ", lines[k]); vc::note(w); vc::state(w); vc::step(); vc::trace(); bool need = lines[k].find("siren.helicity") != std::string::npos || lines[k].find("siren.primary_initial") != std::string::npos, threw = false;
            try { auto b = io::LoadInteractionTreesFromHepMC3(g, true); EX(b.size() == 1 && b[0]->tree.size() == t->tree.size(), "lost-structure", w); } catch (std::runtime_error const &) { threw = true; }
            EX(threw == need, "lost-strict", vc::cat(w, threw ? ": refused" : ": accepted")); auto b = io::LoadInteractionTreesFromHepMC3(g, false); if (!EX(b.size() == 1 && b[0]->tree.size() == t->tree.size(), "lost-lax", w)) continue;
            for (size_t i = 0; i < t->tree.size(); ++i) EX(t->tree[i]->parent_index == b[0]->tree[i]->parent_index && t->tree[i]->record.primary_momentum == b[0]->tree[i]->record.primary_momentum, "lost-lax", vc::cat(w, ": interaction ", i));
        }
    }
    unlink(f.c_str()); unlink(g.c_str());
}
static void files() {
    std::string f = FILE_(); Spec s; s.parent = {-1, 0}; s.slot = {0, 0}; s.kind = {0, 1}; TP t = build(s);
    auto refused = [&](std::string const &n, std::function<void()> fn) { vc::note(n); vc::state(n); vc::step(); vc::trace(); bool threw = false; try { fn(); } catch (std::runtime_error const &) { threw = true; } EX(threw, "file-accepted", n); };
    refused("a missing file", [&] { io::LoadInteractionTreesFromHepMC3(f + "none"); }); refused("an empty file", [&] { { std::ofstream o(f); } io::LoadInteractionTreesFromHepMC3(f); }); refused("a folder that does not exist", [&] { io::SaveInteractionTreesAsHepMC3({t}, "no/such/folder/x.hepmc3"); });
    io::HepMC3Writer::Options o; o.gzip = true; io::SaveInteractionTreesAsHepMC3({t, t}, f, o); { std::ifstream i(f, std::ios::binary); EX(i.get() == 0x1f && i.get() == 0x8b, "gzip", "not compressed"); } auto b = io::LoadInteractionTreesFromHepMC3(f); EX(b.size() == 2 && tdiff(*t, *b[1]).empty(), "gzip", "compressed events differ"); vc::step(); vc::trace();
    for (int n = 0; n <= 3; ++n) for (int close = 0; close < 2; ++close) { { io::HepMC3Writer wr(f); for (int i = 0; i < n; ++i) wr.Write(*t, 5 + i); if (close) { wr.Close(); wr.Close(); } } std::string w = vc::cat(n, " events through the writer, ", close ? "closed" : "destroyed"); vc::note(w); vc::state(w); vc::step(); vc::trace(); auto c = io::LoadInteractionTreesFromHepMC3(f); EX(c.size() == size_t(n), "writer", vc::cat(w, ": ", c.size())); for (size_t i = 0; i < c.size(); ++i) EX(c[i]->header.event_number == 5 + i && tdiff(*t, *c[i]).empty(), "writer", w); }
    unlink(f.c_str());
}
int main(int argc, char **argv) {
    std::vector<vc::Case> cases;
    for (int n = 1; n <= 4; ++n) { int of = n < 3 ? 1 : 8; for (int p = 0; p < of; ++p) cases.push_back({vc::cat("shapes", n, "-", p), [=] { shapes(n, p, of); }, 0}); }
    for (int s = 0; s < 3; ++s) cases.push_back({vc::cat("lists", s), [=] { lists(s); }, 0});
    cases.push_back({"order", order, 0}); cases.push_back({"lost", lost, 0}); cases.push_back({"files", files, 0});
    return vc::run(argc, argv, cases);
}
