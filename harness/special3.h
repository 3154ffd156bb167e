// Every value type in every role, and wide functions in the middle of a tree.
#pragma once
#include "special.h"

namespace sp {

// ---------------------------------------------------------------- one type in every role

// T as the result of a plain dependency, of an inner function, as a constant and as the final result
template<class T>
void typed(mon::Rng &rng) {
    static tok_t plain = 0, other = 0;
    static long inner_evals = 0, top_evals = 0, bad = 0;
    constexpr tok_t dom = Codec<T>::dom;
    const tok_t fixed = static_cast<tok_t>(rng.below(static_cast<std::uint64_t>(dom)));
    static tok_t constant;
    constant = fixed;
    auto same = [](tok_t a, tok_t b) { return a == b && a != unequal_to_itself<T>(); };
    struct Plain {
        T operator()() const { return make<T>(plain, 1); }
    };
    struct Inner {
        T operator()(const T &p, const int &o) const {
            ++inner_evals;
            bad += dec(p) != plain || o != other;
            return make<T>(static_cast<tok_t>((plain / 2 + other / 2) % dom), 2);
        }
    };
    struct Top {
        T operator()(const T &i, const T &c) const {
            ++top_evals;
            const tok_t want = (plain / 2 + other / 2) % dom;
            bad += dec(i) != want || dec(c) != constant;
            return make<T>(static_cast<tok_t>((want + 3) % dom), 3);
        }
    };
    struct Other {
        int operator()() const { return static_cast<int>(other); }
    };
    bad = 0, plain = other = 0;
    auto f = lazy(Top{}, lazy(Inner{}, Plain{}, Other{}), make<T>(fixed, 4));
    tok_t last_plain = BAD, last_other = BAD, last_inner = BAD;
    const char *name = __PRETTY_FUNCTION__;
    for (int n = 0; n < 400 * mon::state().scale; ++n) {
        if (rng.chance(40)) plain = static_cast<tok_t>(rng.below(static_cast<std::uint64_t>(dom)));
        if (rng.chance(30)) other = static_cast<tok_t>(rng.below(4));
        inner_evals = top_evals = 0;
        const T got = f();
        const tok_t inner = (plain / 2 + other / 2) % dom;
        const bool changed = n == 0 || !same(plain, last_plain) || other != last_other;
        const bool due = n == 0 || (changed && !same(inner, last_inner));
        mon::stat("calls"), mon::stat(changed ? "source_changes" : "cache_hits");
        if (changed && !due) mon::stat("cutoffs");
        if (!CHECK_FOR("C01", dec(got) == (inner + 3) % dom && !bad, "%s, call %d: the result or an argument is not that of the current values", name, n)) return;
        if (!CHECK_FOR("C02", inner_evals == changed, "%s, call %d: a function whose dependencies did%s change is evaluated %ld times", name, n, changed ? "" : " not", inner_evals)) return;
        if (!CHECK_FOR("C02 C03", top_evals == due, "%s, call %d: a function whose dependency did%s change is evaluated %ld times", name, n, due ? "" : " not", top_evals)) return;
        if (changed) last_plain = plain, last_other = other, last_inner = inner;
        seen(std::hash<std::string_view>{}(name), static_cast<std::uint64_t>(plain * 64 + other * 2 + due), changed);
    }
    mon::sample(mon::format("%s: as a plain dependency, an inner result, a constant and the final result", name));
}
template<class... T>
void all_typed(mon::Rng &rng) {
    (typed<T>(rng), ...);
}

// ---------------------------------------------------------------- wide functions in the middle

struct Middle {
    template<class... A>
    std::string operator()(const A &...a) const {
        ++evals[1];
        return std::string(20, 'm') + std::to_string((a + ...) / 8);
    }
};
// N sources, whose sum by eights is what the functions above see
template<int N, int Where> // Where: position among the three dependencies of the function above
void wide_middle(mon::Rng &rng) {
    reset();
    struct Above {
        std::string operator()(const std::string &m, const int &x, char c) const { ++evals[2]; return m + c + std::to_string(x); }
        std::string operator()(const int &x, const std::string &m, char c) const { return (*this)(m, x, c); }
        std::string operator()(const int &x, char c, const std::string &m) const { return (*this)(m, x, c); }
    };
    struct Root {
        std::size_t operator()(const std::string &s) const { ++evals[0]; return std::hash<std::string>{}(s); }
    };
    auto middle = []<std::size_t... I>(std::index_sequence<I...>) { return lazy(Middle{}, Src<static_cast<int>(I)>{}...); }
    (std::make_index_sequence<N>{});
    auto above = [&] {
        if constexpr (Where == 0) return lazy(Above{}, middle, Src<20>{}, 'c');
        else if constexpr (Where == 1) return lazy(Above{}, Src<20>{}, middle, 'c');
        else return lazy(Above{}, Src<20>{}, 'c', middle);
    }();
    auto f = lazy(Root{}, above);
    int last[N], last_x = -1, last_sum = -1;
    std::fill(std::begin(last), std::end(last), -1);
    for (int n = 0; n < 600 * mon::state().scale; ++n) {
        if (n % 3)
            for (int k = static_cast<int>(rng.below(3)); k >= 0; --k) src[rng.below(N)] = static_cast<int>(rng.below(6));
        if (rng.chance(10)) src[20] = static_cast<int>(rng.below(3));
        for (auto &e : evals) e = 0;
        const auto got = f();
        int sum = 0;
        for (int i = 0; i < N; ++i) sum += src[i];
        sum /= 8;
        const bool dm = n == 0 || !std::equal(last, last + N, src), da = n == 0 || sum != last_sum || last_x != src[20];
        const auto want = std::hash<std::string>{}(std::string(20, 'm') + std::to_string(sum) + 'c' + std::to_string(src[20]));
        if (!CHECK_FOR("C01", got == want, "an inner function of %d dependencies: the result is not that of the current values", N)) return;
        if (!CHECK_FOR("C02 C03", evals[1] == dm && evals[2] == da && evals[0] == da, "an inner function of %d dependencies: evaluated %ld/%ld/%ld times instead of %d/%d/%d", N, evals[1], evals[2], evals[0], dm, da, da)) return;
        if (dm && !da) mon::stat("cutoffs");
        mon::stat("calls"), mon::stat(dm || da ? "source_changes" : "cache_hits");
        seen(2000 + N * 3 + Where, static_cast<std::uint64_t>(sum * 100 + src[20] * 10 + dm * 2 + da), dm || da);
        std::copy(src, src + N, last), last_sum = sum, last_x = src[20];
    }
    mon::sample(mon::format("an inner function of %d dependencies with a coarser result", N));
}

} // namespace sp
