// Core of the monitors: random numbers, verdict lines, statistics, samples.
// A monitor program is called as  PROG <property> <seed> <scale>  and prints
//   V <text>            a violation of that property was observed
//   STAT <name> <n>     a count measured during this run
//   SAMPLE <text>       one actual case
//   DONE                last line: the whole workload ran
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s{ seed * 0x9E3779B97F4A7C15ull + 0x1234567ull } {}
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool chance(int percent) { return below(100) < static_cast<std::uint64_t>(percent); }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 29);
}

struct State {
    std::mutex m;
    std::string prop;
    std::uint64_t seed = 1;
    int scale = 1;
    std::map<std::string, long> stats;
    std::vector<std::string> samples;
    std::unordered_set<std::uint64_t> distinct;
    long violations = 0;
};
inline State &state() {
    static State s;
    return s;
}

inline std::string format(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string format(const char *fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *p = buf; *p; ++p)
        if (*p == '\n' || *p == '\r') *p = ' ';
    return buf;
}

inline void violation(const std::string &text) {
    std::lock_guard lock{ state().m };
    if (++state().violations <= 20) {
        std::printf("V %s\n", text.c_str());
        std::fflush(stdout);
    }
}

// counts are kept per thread, so that the monitors do not order the threads they watch
struct Local {
    std::map<std::string, long> stats;
    std::vector<std::string> samples;
    std::unordered_set<std::uint64_t> distinct;
    void flush() {
        std::lock_guard lock{ state().m };
        for (auto &[k, n] : stats) state().stats[k] += n;
        state().distinct.insert(distinct.begin(), distinct.end());
        for (auto &x : samples)
            if (state().samples.size() < 3) state().samples.push_back(x);
        stats.clear(), samples.clear(), distinct.clear();
    }
    ~Local() { flush(); }
};
inline Local &local() {
    state();
    static thread_local Local l;
    return l;
}
inline void stat(const char *name, long n = 1) { local().stats[name] += n; }
// one evaluated case; `h` identifies it, `nontrivial` says whether it counts as such
inline void evaluated(std::uint64_t h, bool nontrivial) {
    ++local().stats["evaluations"];
    if (nontrivial) local().distinct.insert(h);
}
inline void merge(long n, const std::unordered_set<std::uint64_t> &cases) {
    local().stats["evaluations"] += n;
    local().distinct.insert(cases.begin(), cases.end());
}
inline void sample(const std::string &text) {
    if (local().samples.size() < 3) local().samples.push_back(text);
}

inline bool check(bool ok, const std::string &text) {
    if (!ok) violation(text);
    return ok;
}

#define CHECK(cond, ...) \
    (::mon::stat("checks"), (cond) ? true : (::mon::violation(::mon::format("%s:%d: ", __FILE__, __LINE__) + ::mon::format(__VA_ARGS__)), false))

// the same for the properties listed only; what breaks only others does not end the workload
#define CHECK_FOR(props, cond, ...) \
    ((cond) ? (::mon::stat("checks"), true) : (std::strstr(props, ::mon::state().prop.c_str()) ? (::mon::violation(::mon::format("%s:%d: ", __FILE__, __LINE__) + ::mon::format(__VA_ARGS__)), false) : true))

inline void begin(int argc, char **argv) {
    state().prop = argc > 1 ? argv[1] : "?";
    state().seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
    state().scale = argc > 3 ? std::atoi(argv[3]) : 1;
}
inline int end() {
    local().flush();
    for (auto &[k, n] : state().stats) std::printf("STAT %s %ld\n", k.c_str(), n);
    std::printf("STAT distinct %ld\n", static_cast<long>(state().distinct.size()));
    for (auto &s : state().samples) std::printf("SAMPLE %s\n", s.c_str());
    std::printf("DONE\n");
    std::fflush(stdout);
    return 0;
}

} // namespace mon
