// Drawing from a sampler under a scripted random source.
#pragma once
#include "vc.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#ifndef DRAW_NO_DISTRIBUTIONS
#include "SIREN/distributions/Distributions.h"
#endif
namespace draw {
using siren::dataclasses::InteractionRecord; using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::ParticleType;
typedef std::verif_engine Eng;
// u in [0,1) -> raw word
inline uint64_t word(double u) { if (u <= 0) return 0; if (u >= 1) return ~uint64_t(0) << 11; return uint64_t(std::ldexp(u, 64)); }
inline void script(std::vector<double> const &us) { Eng::script.clear(); for (double u : us) Eng::script.push_back(word(u)); Eng::pos = 0; Eng::tail = 0; Eng::scripted = true; }
inline std::shared_ptr<siren::utilities::SIREN_random> rng() { static auto r = std::make_shared<siren::utilities::SIREN_random>(1); return r; }
// grid of n cell centres plus the two extreme values a generator can return
inline std::vector<double> grid(int n, bool ends = true) { std::vector<double> g; if (ends) g.push_back(0); for (int i = 0; i < n; ++i) g.push_back((i + 0.5) / n); if (ends) g.push_back(1); return g; }
inline double uval(double u) { return u >= 1 ? 1 - std::ldexp(1.0, -53) : u; }
inline InteractionRecord event(double E, double x = 0, double y = 0, double z = 1, double m = 0, ParticleType t = ParticleType::NuMu) {
    InteractionRecord r; r.signature.primary_type = t; r.primary_mass = m; double n = std::sqrt(x*x + y*y + z*z), p = std::sqrt(std::max(E*E - m*m, 0.0));
    r.primary_momentum = {E, p * x / n, p * y / n, p * z / n}; return r;
}
#ifndef DRAW_NO_DISTRIBUTIONS
inline double density(siren::distributions::WeightableDistribution const &d, InteractionRecord const &r) { return d.GenerationProbability(nullptr, nullptr, r); }
#endif
// composite Gauss-Legendre (independent of the library's integrators)
inline double quad(std::function<double(double)> const &f, double a, double b, int n = 200) {
    static double const X[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, W[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    double s = 0, h = (b - a) / n;
    for (int i = 0; i < n; ++i) { double c = a + (i + 0.5) * h; for (int k = 0; k < 4; ++k) s += W[k] * (f(c + 0.5 * h * X[k]) + f(c - 0.5 * h * X[k])); }
    return 0.5 * h * s;
}
}
