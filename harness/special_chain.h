// A long chain: on its own, as such types are slow to compile.
#pragma once
#include "special.h"

namespace sp {

template<int = 0>
void chain(mon::Rng &rng) {
    reset();
    auto f = lazy(Fn<0>{}, lazy(Mod<1, 7>{}, lazy(Mod<2, 100>{}, lazy(Mod<3, 5>{}, lazy(Mod<4, 1000>{}, lazy(Mod<5, 50>{}, Src<0>{}))))));
    long cached[6] = { -1, -1, -1, -1, -1, -1 }, arg[6] = { -1, -1, -1, -1, -1, -1 };
    constexpr long mod[6] = { 0, 7, 100, 5, 1000, 50 };
    for (int n = 0; n < 3000 * mon::state().scale; ++n) {
        if (rng.chance(70)) src[0] = static_cast<int>(rng.below(40));
        for (auto &e : evals) e = 0;
        const long got = f();
        long v = src[0];
        bool stopped = false;
        for (int k = 5; k >= 0; --k) {
            const bool due = arg[k] != v;
            if (!CHECK_FOR("C02 C03", evals[k] == due, "a chain of 6: function %d is evaluated %ld times instead of %d", k, evals[k], due)) return;
            stopped = stopped || !due;
            if (due) {
                arg[k] = v;
                const long r = combine({ v });
                cached[k] = k ? ((r % mod[k]) + mod[k]) % mod[k] : r;
            }
            v = cached[k];
        }
        if (!CHECK_FOR("C01", got == v, "a chain of 6: the result is not that of the current value")) return;
        if (evals[5] && stopped) mon::stat("cutoffs");
        if (!evals[5]) mon::stat("cache_hits");
        mon::stat("calls"), mon::stat("source_changes", evals[5]);
        std::uint64_t h = 0;
        for (int k = 0; k < 6; ++k) h = h * 2 + static_cast<std::uint64_t>(evals[k]);
        seen(1000, mon::mix(h, static_cast<std::uint64_t>(v)), evals[5]);
    }
    mon::sample("a chain of 6 lazy functions with coarser and finer results");
}
} // namespace sp
