// Lazy functions in the ways users combine them, beyond random trees.
#pragma once
#include "types.h"

#include <pigro/lazy.h>

#include <algorithm>
#include <any>
#include <list>

namespace sp {

using namespace lm;
using pigro::lazy;

inline int src[32];
inline long evals[64];
inline long consulted[32];
template<int I>
struct Src {
    int operator()() const {
        ++consulted[I];
        return src[I];
    }
};
inline long combine(std::initializer_list<long> v) {
    long r = 7;
    for (long x : v) r = static_cast<long>(static_cast<unsigned long>(r) * 31 + static_cast<unsigned long>(x));
    return r;
}
template<int K>
struct Fn {
    template<class... A>
    long operator()(const A &...a) const {
        ++evals[K];
        return combine({ static_cast<long>(a)... });
    }
};
template<int K, int M>
struct Mod {
    template<class... A>
    long operator()(const A &...a) const {
        ++evals[K];
        return ((combine({ static_cast<long>(a)... }) % M) + M) % M;
    }
};
inline void reset() {
    std::fill(std::begin(src), std::end(src), 0);
    std::fill(std::begin(evals), std::end(evals), 0);
    std::fill(std::begin(consulted), std::end(consulted), 0);
}
inline void seen(std::uint64_t what, std::uint64_t h, bool nontrivial = true) { mon::evaluated(mon::mix(what, h), nontrivial); }

// ---------------------------------------------------------------- every subset of changed dependencies

template<int N, class F>
void subsets(const char *name, F &f, mon::Rng &rng) {
    long last[N];
    auto value = [&] {
        long r = 7;
        for (int i = 0; i < N; ++i) r = static_cast<long>(static_cast<unsigned long>(r) * 31 + static_cast<unsigned long>(src[i]));
        return r;
    };
    for (int i = 0; i < N; ++i) src[i] = i;
    evals[0] = 0;
    const long initial = f();
    CHECK_FOR("C01", initial == value(), "%s: the result of the first call", name);
    CHECK_FOR("C02 C03", evals[0] == 1, "%s: evaluated %ld times in the first call", name, evals[0]);
    const unsigned total = 1u << N;
    for (unsigned n = 0; n < std::min(total, 1024u); ++n) {
        const unsigned s = total <= 1024 ? n : static_cast<unsigned>(rng.below(total));
        for (int i = 0; i < N; ++i) {
            last[i] = src[i];
            if (s >> i & 1) src[i] += static_cast<int>(1 + rng.below(3));
        }
        for (auto &c : consulted) c = 0;
        evals[0] = 0;
        const long got = f();
        mon::stat("calls");
        if (!CHECK_FOR("C01", got == value(), "%s: dependencies %#x changed: the result is not that of the current values", name, s)) return;
        if (!CHECK_FOR("C02 C03", evals[0] == (s != 0), "%s: dependencies %#x changed: evaluated %ld times", name, s, evals[0])) return;
        bool once = true;
        for (int i = 0; i < N; ++i) once = once && consulted[i] == 1;
        if (!CHECK_FOR("C04", once, "%s: a dependency is not consulted exactly once", name)) return;
        mon::stat(s ? "source_changes" : "cache_hits");
        seen(static_cast<std::uint64_t>(N), s, s != 0);
        // changed and changed back before the next call: nothing happened
        if (n % 5 == 0) {
            const int keep = src[s % N];
            src[s % N] = 1 << 20;
            src[s % N] = keep;
            evals[0] = 0;
            f();
            if (!CHECK_FOR("C02 C03", evals[0] == 0, "%s: evaluated although all dependencies are as they were", name)) return;
            mon::stat("cache_hits");
        }
        (void) last;
    }
}
template<int N>
void flat(mon::Rng &rng) {
    reset();
    auto f = []<std::size_t... I>(std::index_sequence<I...>) { return lazy(Fn<0>{}, Src<static_cast<int>(I)>{}...); }
    (std::make_index_sequence<N>{});
    subsets<N>(mon::format("%d plain dependencies", N).c_str(), f, rng);
    mon::sample(mon::format("lazy function of %d plain dependencies, all subsets changed", N));
}
template<int N>
void flat_lazy(mon::Rng &rng) {
    reset();
    struct Id {
        int operator()(const int &x) const { return x; }
    };
    auto f = []<std::size_t... I>(std::index_sequence<I...>) { return lazy(Fn<0>{}, lazy(Id{}, Src<static_cast<int>(I)>{})...); }
    (std::make_index_sequence<N>{});
    subsets<N>(mon::format("%d lazy dependencies", N).c_str(), f, rng);
}
// constants between the others
template<int = 0>
void flat_mixed(mon::Rng &rng) {
    reset();
    struct Id {
        int operator()(const int &x) const { return x; }
    };
    auto inner = [](const int &a, std::string, const int &b, double, const int &c, EmptyVal, const int &d) { ++evals[0]; return combine({ a, b, c, d }); };
    auto f = lazy(inner, Src<0>{}, std::string("constant"), lazy(Id{}, Src<1>{}), 2.5, Src<2>{}, EmptyVal{}, lazy(Id{}, lazy(Id{}, Src<3>{})));
    subsets<4>("a mix of dependencies", f, rng);
}

// ---------------------------------------------------------------- chains and diamonds

// the same function object in several places: each place is a copy of its own
template<int = 0>
void diamond(mon::Rng &rng) {
    reset();
    auto shared = lazy(Mod<1, 4>{}, Src<0>{});
    auto left = lazy(Mod<2, 3>{}, shared, Src<1>{});
    auto right = lazy(Mod<3, 3>{}, Src<1>{}, shared);
    auto top = lazy(Fn<0>{}, left, shared, right);
    long s = -1, l[2] = { -1, -1 }, r[2] = { -1, -1 }, t[3] = { -1, -1, -1 }, x0 = -1;
    auto mod = [](long v, long m) { return ((v % m) + m) % m; };
    for (int n = 0; n < 3000 * mon::state().scale; ++n) {
        src[0] = static_cast<int>(rng.below(9));
        if (rng.chance(30)) src[1] = static_cast<int>(rng.below(3));
        for (auto &e : evals) e = 0;
        const long got = top();
        const bool ds = x0 != src[0];
        const long nx = mod(combine({ src[0] }), 4);
        const bool dl = l[0] != nx || l[1] != src[1], dr = r[0] != src[1] || r[1] != nx;
        const long vl = mod(combine({ nx, src[1] }), 3), vr = mod(combine({ src[1], nx }), 3);
        const bool dt = t[0] != vl || t[1] != nx || t[2] != vr;
        if (!CHECK_FOR("C01", got == combine({ vl, nx, vr }), "a diamond: the result is not that of the current values")) return;
        if (!CHECK_FOR("C02 C03", evals[1] == 3 * ds && evals[2] == dl && evals[3] == dr && evals[0] == dt, "a diamond: evaluated %ld/%ld/%ld/%ld times instead of %d/%d/%d/%d", evals[1], evals[2], evals[3], evals[0], 3 * ds, dl, dr, dt)) return;
        if (ds && !dt) mon::stat("cutoffs");
        mon::stat("calls"), mon::stat("source_changes", ds), mon::stat("cache_hits", !dt);
        x0 = src[0], s = nx, l[0] = nx, l[1] = src[1], r[0] = src[1], r[1] = nx, t[0] = vl, t[1] = nx, t[2] = vr;
        seen(1001, static_cast<std::uint64_t>(ds + 2 * dl + 4 * dr + 8 * dt) * 100 + static_cast<std::uint64_t>(nx * 20 + vl * 4 + vr));
    }
    (void) s;
}

// ---------------------------------------------------------------- long histories

template<int = 0>
void long_history(mon::Rng &rng) {
    reset();
    auto inner = lazy([](const int &a, const int &b) { ++evals[1]; return std::to_string(a / 4) + "," + std::to_string(b); }, Src<0>{}, Src<1>{});
    auto f = lazy([](const std::string &s, const int &c, int k) { ++evals[0]; return s + ";" + std::to_string(c * k); }, inner, Src<2>{}, 3);
    std::string last = "none", last_inner = "none";
    int a = -1, b = -1, c = -1;
    for (long n = 0; n < 300000L * mon::state().scale; ++n) {
        if (rng.chance(30)) src[rng.below(3)] = static_cast<int>(rng.below(10));
        evals[0] = evals[1] = 0;
        const std::string got = f();
        const bool di = n == 0 || a != src[0] || b != src[1];
        const std::string in = std::to_string(src[0] / 4) + "," + std::to_string(src[1]);
        const bool df = n == 0 || in != last_inner || c != src[2];
        if (got != in + ";" + std::to_string(src[2] * 3) || evals[1] != di || evals[0] != df) {
            CHECK_FOR("C01", got == in + ";" + std::to_string(src[2] * 3), "call %ld: the result is not that of the current values", n);
            CHECK_FOR("C02 C03", evals[1] == di && evals[0] == df, "call %ld: evaluated %ld/%ld times instead of %d/%d", n, evals[1], evals[0], di, df);
            return;
        }
        mon::stat("cache_hits", !df), mon::stat("source_changes", di || df), mon::stat("cutoffs", di && !df);
        seen(1002, mon::mix(mon::mix(std::hash<std::string>{}(got), di), df), di || df);
        a = src[0], b = src[1], c = src[2], last_inner = in;
        mon::stat("calls");
    }
    mon::sample("one lazy function called 300000 times");
}

} // namespace sp
