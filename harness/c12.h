// Sizes.
#pragma once
#include "blocks.h"
#include "lazy_mon.h"

namespace bm {

constexpr std::size_t round_up(std::size_t n, std::size_t a) { return (n + a - 1) / a * a; }

inline void size_is(const char *what, std::size_t got, std::size_t want, bool at_most = false) {
    CHECK(at_most ? got <= want : got == want, "%s takes %zu bytes, expected %s%zu", what, got, at_most ? "at most " : "", want);
    mon::evaluated(hash(what), want > 1);
    mon::stat("sizes");
    if (mon::state().samples.size() < 3) mon::sample(mon::format("sizeof %s = %zu", what, got));
}

template<int N>
struct F0 { // stateless, callable
    tok_t operator()(const Nil<N> &) const { return N; }
};
template<int N, class T>
struct F1 { // stateful, callable
    T v;
    tok_t operator()(const Nil<N> &) const { return N; }
};
struct Cost {
    std::size_t size, align;
};
template<class R>
constexpr Cost cost_of() {
    if constexpr (std::is_void_v<R>)
        return { 1, 1 };
    else
        return { sizeof(std::optional<R>), alignof(std::optional<R>) };
}
inline std::size_t bound(std::initializer_list<Cost> cs) {
    std::size_t a = 1, n = 0;
    for (auto &c : cs) a = std::max(a, c.align);
    for (auto &c : cs) n += round_up(c.size, a);
    return n;
}

} // namespace bm
