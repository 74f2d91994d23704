// Shared monitor framework: deterministic case generator state, verdict recording, shard driver.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

class ModelHydro;
namespace mon {
// Called from the guarded observation points in /repo (end of a simulated step / of a spin-up step).
std::function<void(const char*, ModelHydro*)>& onEvent();

struct Rng {  // splitmix64-seeded xoshiro256**
    uint64_t s[4];
    explicit Rng(uint64_t seed) {
        for (auto& v : s) {
            seed += 0x9E3779B97F4A7C15ULL;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            v = z ^ (z >> 31);
        }
    }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double u() { return (next() >> 11) * 0x1.0p-53; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }  // inclusive
    bool p(double q) { return u() < q; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    double logu(double a, double b) { return a * std::pow(b / a, u()); }
};

// Verdicts of one case. A violation carries a key (its class and site; matched against the known-findings
// file) and a detail (the witness).
struct Ctx {
    uint64_t seed = 0;
    long index = 0;
    bool thorough = false;
    bool verbose = false;
    Rng rng{0};
    std::vector<std::pair<std::string, std::string>> violations;
    std::map<std::string, long> counts;  // what the monitors observed
    std::string signature;               // identifies the case for the distinct count; empty = trivial
    std::string sample;                  // human readable description of the case
    void count(const std::string& k, long n = 1) { counts[k] += n; }
    void fail(const std::string& key, const std::string& detail) {
        for (auto& v : violations) if (v.first == key) return;  // first witness per key and case
        violations.emplace_back(key, detail);
    }
};

struct Check {
    std::string id;
    long quickCases, thoroughCases;
    std::function<void(Ctx&)> run;
    std::string rule;
};

// Each check program defines this.
Check GetCheck();

std::string scratchDir();  // private scratch directory of this process, removed by the runner
std::string& capturedLog();    // what the core logged during the current case
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

inline bool close(double a, double b, double atol, double rtol = 0) {
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

}  // namespace mon
