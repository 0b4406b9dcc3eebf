// Deterministic simulation core: one choice tape decides one run.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

/// What a harness declares about itself (used for the evidence file).
struct HarnessInfo {
    const char* property;
    const char* level;       // exploration | fault_enumeration
    const char* rule;        // how cases are made and what makes one non-trivial
    const char* real;        // components that ran real code
    const char* stub;        // components that ran a stub (the simulator)
    const char* step_unit;   // what one simulated step is
    const char* assumptions; // '|' separated
    uint64_t quick_runs;     // number of simulated runs, quick tier
    uint64_t thorough_runs;  // number of simulated runs, thorough tier
};

class Ctx {
public:
    /// A choice in [0, n). 0 is the simplest value (what a shrunk tape contains).
    uint64_t pick(uint64_t n, const char* label);
    /// true with probability num/den; false is the simple value
    bool chance(unsigned num, unsigned den, const char* label) {
        return pick(den, label) >= den - num;
    }
    int64_t range(int64_t lo, int64_t hi, const char* label) {
        return lo + static_cast<int64_t>(pick(static_cast<uint64_t>(hi - lo + 1), label));
    }
    /// A choice in [0,n) that prefers small values (log-uniform).
    uint64_t skew(uint64_t n, const char* label);
    template <typename T> const T& of(const std::vector<T>& v, const char* label) {
        return v[pick(v.size(), label)];
    }

    /// Append an event to the history: hashed always, text kept when tracing.
    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    /// Mix a value into the history hash only.
    void mix(uint64_t v);
    void mix(const std::string& s);
    /// Count that a fault kind fired or a rare condition was reached.
    void probe(const char* name, uint64_t n = 1);
    /// One simulated step (logical time).
    void step(uint64_t n = 1);
    /// Record an abstract state reached (distinct ones are counted).
    void state(uint64_t h);
    /// Declare the run non-trivial; sig identifies it for counting distinct runs.
    void nontrivial(uint64_t sig);
    /// Report a violation of the property and end the run.
    [[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    /// The run is outside of what the property speaks about: end it silently.
    [[noreturn]] void discard();
    bool thorough() const;
    uint64_t hash() const;
};

/// Change into a scratch directory private to this run (removed afterwards).
void enterScratch(Ctx& c);

inline uint64_t mix64(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0x1234567);
inline uint64_t hashStr(const std::string& s, uint64_t h = 0x1234567) { return hashBytes(s.data(), s.size(), h); }
std::string printable(const std::string& s, size_t maxLen = 120);

} // namespace sim

// Provided by each harness:
extern const sim::HarnessInfo simHarness;
void simRun(sim::Ctx& c);
// Optional hooks (weak defaults in sim.cpp)
void simChildStart();

#endif
