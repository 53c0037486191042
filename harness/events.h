// Builders for interaction records / trees with every field distinctive.
#pragma once
#include "vc.h"
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/dataclasses/InteractionRecord.h"
namespace ev {
using namespace siren::dataclasses;
inline InteractionRecord rec(int k, int nsec, bool ids = true, int npar = 1) {
    InteractionRecord r; double b = 1000.0 * (k + 1);
    r.signature.primary_type = k % 2 ? ParticleType::NuMu : ParticleType::NuTauBar;
    r.signature.target_type = k % 3 == 2 ? ParticleType::Decay : ParticleType::Nucleon;
    ParticleType ty[] = {ParticleType::MuMinus, ParticleType::Hadrons, ParticleType::N4, ParticleType::Gamma};
    r.primary_id = ids ? ParticleID(0xfeedfacecafe0000ull + k, -3 - k) : ParticleID();
    r.primary_initial_position = {b + 0.25, b + 1.25, -b - 2.25}; r.primary_initial_time = b + 3.125; r.primary_mass = b + 4.5;
    r.primary_momentum = {b + 5, b + 6, b + 7, -b - 8}; r.primary_helicity = -0.5;
    r.target_id = ids && k % 2 ? ParticleID(77 + k, 5) : ParticleID(); r.target_mass = b + 9.1; r.target_helicity = 0.5;
    r.interaction_vertex = {b + 10, -b - 11, 1 / 3.0 + b}; r.interaction_time = b + 13;
    for (int i = 0; i < nsec; ++i) {
        r.signature.secondary_types.push_back(ty[(i + k) % 4]);
        r.secondary_ids.push_back(ids ? ParticleID(900 + k, i) : ParticleID()); r.secondary_masses.push_back(b + 20 + i);
        r.secondary_momenta.push_back({b + 30 + i, b + 31 + i, -b - 32 - i, 0.1 * (i + 1)}); r.secondary_helicities.push_back(0.25 * (i + 1)); r.secondary_times.push_back(b + 40 + i);
    }
    for (int i = 0; i < npar; ++i) r.interaction_parameters[vc::cat("par", i)] = b + 50 + i;
    return r;
}
// independent field-by-field comparison (does not use the library's operator==)
inline std::string diff(InteractionRecord const &a, InteractionRecord const &b, bool times = true) {
    auto id = [](ParticleID const &x, ParticleID const &y) { return x.IsSet() == y.IsSet() && (!x.IsSet() || (x.GetMajorID() == y.GetMajorID() && x.GetMinorID() == y.GetMinorID())); };
    if (a.signature.primary_type != b.signature.primary_type) return "primary type";
    if (a.signature.target_type != b.signature.target_type) return "target type";
    if (a.signature.secondary_types != b.signature.secondary_types) return "secondary types";
    if (!id(a.primary_id, b.primary_id)) return "primary id";
    if (a.primary_initial_position != b.primary_initial_position) return "primary initial position";
    if (times && a.primary_initial_time != b.primary_initial_time) return "primary initial time";
    if (a.primary_mass != b.primary_mass) return "primary mass";
    if (a.primary_momentum != b.primary_momentum) return "primary momentum";
    if (a.primary_helicity != b.primary_helicity) return "primary helicity";
    if (!id(a.target_id, b.target_id)) return "target id";
    if (a.target_mass != b.target_mass) return "target mass";
    if (a.target_helicity != b.target_helicity) return "target helicity";
    if (a.interaction_vertex != b.interaction_vertex) return "interaction vertex";
    if (times && a.interaction_time != b.interaction_time) return "interaction time";
    if (a.secondary_ids.size() != b.secondary_ids.size()) return "number of secondary ids";
    for (size_t i = 0; i < a.secondary_ids.size(); ++i) if (!id(a.secondary_ids[i], b.secondary_ids[i])) return "secondary id";
    if (a.secondary_masses != b.secondary_masses) return "secondary masses";
    if (a.secondary_momenta != b.secondary_momenta) return "secondary momenta";
    if (a.secondary_helicities != b.secondary_helicities) return "secondary helicities";
    if (times && a.secondary_times != b.secondary_times) return "secondary times";
    if (a.interaction_parameters != b.interaction_parameters) return "interaction parameters";
    return "";
}
inline std::string diff(InteractionTree const &a, InteractionTree const &b, bool times = true) {
    if (a.header.event_number != b.header.event_number) return "event number";
    if (a.header.weights != b.header.weights) return "weights";
    if (a.header.provenance != b.header.provenance) return "provenance";
    if (a.tree.size() != b.tree.size()) return "number of nodes";
    for (size_t i = 0; i < a.tree.size(); ++i) {
        if (!a.tree[i] || !b.tree[i]) return "null node";
        if (a.tree[i]->node_id != b.tree[i]->node_id) return "node id";
        if (a.tree[i]->parent_index != b.tree[i]->parent_index) return "parent";
        if (a.tree[i]->daughter_indices != b.tree[i]->daughter_indices) return "daughters";
        auto d = diff(a.tree[i]->record, b.tree[i]->record, times);
        if (!d.empty()) return d;
    }
    return "";
}
// every single-field modification of a record
inline std::vector<std::pair<std::string, InteractionRecord>> mutants(InteractionRecord const &r) {
    std::vector<std::pair<std::string, InteractionRecord>> out;
    auto m = [&](std::string n, std::function<void(InteractionRecord &)> f) { InteractionRecord x = r; f(x); out.push_back({n, x}); };
    m("primary type", [](auto &x) { x.signature.primary_type = ParticleType::EPlus; });
    m("target type", [](auto &x) { x.signature.target_type = ParticleType::PPlus; });
    m("secondary types+", [](auto &x) { x.signature.secondary_types.push_back(ParticleType::Gamma); });
    if (!r.signature.secondary_types.empty()) m("secondary types", [](auto &x) { x.signature.secondary_types.back() = ParticleType::KPlus; });
    m("primary id", [](auto &x) { x.primary_id = ParticleID(1, 2); });
    m("primary id minor", [](auto &x) { x.primary_id = ParticleID(x.primary_id.GetMajorID(), x.primary_id.GetMinorID() + 1); });
    for (int i = 0; i < 3; ++i) m(vc::cat("initial position ", i), [i](auto &x) { x.primary_initial_position[i] += 1; });
    m("initial time", [](auto &x) { x.primary_initial_time += 1; }); m("mass", [](auto &x) { x.primary_mass += 1; });
    for (int i = 0; i < 4; ++i) m(vc::cat("momentum ", i), [i](auto &x) { x.primary_momentum[i] += 1; });
    m("helicity", [](auto &x) { x.primary_helicity += 1; }); m("target id", [](auto &x) { x.target_id = ParticleID(3, 4); });
    m("target mass", [](auto &x) { x.target_mass += 1; }); m("target helicity", [](auto &x) { x.target_helicity += 1; });
    for (int i = 0; i < 3; ++i) m(vc::cat("vertex ", i), [i](auto &x) { x.interaction_vertex[i] += 1; });
    m("interaction time", [](auto &x) { x.interaction_time += 1; });
    for (size_t k = 0; k < r.secondary_ids.size(); ++k) {
        m(vc::cat("secondary id ", k), [k](auto &x) { x.secondary_ids[k] = ParticleID(5, 6); }); m(vc::cat("secondary mass ", k), [k](auto &x) { x.secondary_masses[k] += 1; });
        for (int i = 0; i < 4; ++i) m(vc::cat("secondary momentum ", k, i), [k, i](auto &x) { x.secondary_momenta[k][i] += 1; });
        m(vc::cat("secondary helicity ", k), [k](auto &x) { x.secondary_helicities[k] += 1; }); m(vc::cat("secondary time ", k), [k](auto &x) { x.secondary_times[k] += 1; });
    }
    m("parameter value", [](auto &x) { x.interaction_parameters["par0"] += 1; }); m("parameter new", [](auto &x) { x.interaction_parameters["zz"] = 1; });
    return out;
}
}
