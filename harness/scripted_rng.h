// Forced include (-include): replaces std::mt19937_64 in every translation unit by a scripted engine, so
// that SIREN's real SIREN_random / std::uniform_real_distribution code runs unchanged while the harness
// decides every raw random word.  u = word / 2^64.
#pragma once
#include <random>
#include <cstdint>
#include <limits>
#include <vector>
namespace std {
struct verif_engine {
    typedef uint64_t result_type;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~result_type(0); }
    // script shared by all engines of the process
    static inline std::vector<uint64_t> script;
    static inline size_t pos = 0;           // words consumed
    static inline uint64_t tail = 0;        // state of the fallback (low-discrepancy) sequence
    static inline uint64_t last_seed = 0;
    static inline bool scripted = true;
    static inline size_t limit = 0;         // throw after that many words (0: unlimited)
    struct exhausted {};
    uint64_t state = 0;
    verif_engine() {}
    explicit verif_engine(uint64_t s) { seed(s); }
    void seed(uint64_t s = 5489u) { last_seed = s; state = s * 0x9E3779B97F4A7C15ull + 1; }
    template <class S> void seed_seq(S &) {}
    result_type operator()() {
        if (!scripted) { state += 0x9E3779B97F4A7C15ull; uint64_t z = state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        size_t p = pos++;
        if (limit && p >= limit) throw exhausted{};
        if (p < script.size()) return script[p];
        // golden-ratio (Weyl) sequence: equidistributed, lets rejection loops terminate
        tail += 0x9E3779B97F4A7C15ull;
        return tail;
    }
    void discard(unsigned long long n) { while (n--) (*this)(); }
    bool operator==(verif_engine const &o) const { return state == o.state; }
    bool operator!=(verif_engine const &o) const { return state != o.state; }
};
}
#define mt19937_64 verif_engine
