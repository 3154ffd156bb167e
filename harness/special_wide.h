// Functions of many dependencies: more than fit a word of flags, or a byte.
#pragma once
#include "special.h"

namespace sp {

inline int wide_source[512];
inline int wide_order[1024], wide_calls;

struct WideSrc { // by index, so that there is only one type to compile
    int index;
    int operator()() const {
        if (wide_calls < 1024) wide_order[wide_calls++] = index;
        return wide_source[index];
    }
};
inline long wide_evaluations;
inline int wide_received[512];
struct WideFn {
    template<class... A>
    long operator()(const A &...a) const {
        ++wide_evaluations;
        int i = 0;
        ((wide_received[i++] = a), ...);
        long r = 17;
        ((r = (r * 31 + a) % 1000003), ...);
        return r;
    }
};
template<int N>
void very_wide(mon::Rng &rng) {
    reset();
    for (auto &s : wide_source) s = static_cast<int>(rng.below(100));
    auto f = []<std::size_t... I>(std::index_sequence<I...>) { return lazy(WideFn{}, WideSrc{ static_cast<int>(I) }...); }
    (std::make_index_sequence<N>{});
    long calls = 0;
    auto check = [&](bool changed, int which) {
        wide_evaluations = 0, wide_calls = 0;
        const long got = f();
        long want = 17;
        for (int i = 0; i < N; ++i) want = (want * 31 + wide_source[i]) % 1000003;
        ++calls;
        mon::stat("calls"), mon::stat(changed ? "source_changes" : "cache_hits"), mon::stat("evaluation_events", wide_evaluations);
        seen(3000 + N, static_cast<std::uint64_t>(which * 4 + changed * 2), changed);
        if (!CHECK_FOR("C01", got == want, "%d dependencies: the result is not that of the current values after a change of dependency %d", N, which)) return false;
        if (!CHECK_FOR("C02 C03", wide_evaluations == changed, "%d dependencies: evaluated %ld times instead of %d after a change of dependency %d", N, wide_evaluations, changed, which)) return false;
        bool ordered = wide_calls == N;
        for (int i = 0; i < N && ordered; ++i) ordered = wide_order[i] == i;
        if (!CHECK_FOR("C04", ordered, "%d dependencies: they were not consulted once each from left to right (%d consultations)", N, wide_calls)) return false;
        if (changed && !CHECK_FOR("C01 C04", std::equal(wide_received, wide_received + N, wide_source), "%d dependencies: the arguments are not the current values in order", N)) return false;
        return true;
    };
    if (!check(true, N)) return;
    if (!check(false, N)) return;
    for (int i = 0; i < N; ++i) { // each alone
        ++wide_source[i];
        if (!check(true, i)) return;
        if (i % 5 == 0 && !check(false, i)) return;
    }
    for (int n = 0; n < 100 * mon::state().scale; ++n) {
        int last = N;
        for (int k = static_cast<int>(rng.below(4)); k > 0; --k) wide_source[last = static_cast<int>(rng.below(N))] += 1;
        if (!check(last != N, last)) return;
    }
    mon::sample(mon::format("a lazy function of %d dependencies, each changed alone", N));
}

} // namespace sp
