// What blocks accept, compared with what the callable they hold accepts.
#pragma once
#include "c14.h"

namespace bm {

template<class... P>
struct TakesConst_ {
    int operator()(P...) const { return 1; }
};
template<class... P>
struct TakesMutable_ {
    int n = 0;
    int operator()(P...) { return ++n; }
};
template<class... P>
struct TakesSelf { // and is callable as non-const and constant lvalue and as rvalue
    template<class S>
    int operator()(S &&, P...) const & { return 1; }
    template<class S>
    int operator()(S &&, P..., int) & { return 1; }
    template<class S>
    int operator()(S &&, P...) && { return 1; }
};
template<class... P>
struct TakesLvalueSelf {
    template<class S>
    int operator()(S &, P...) const { return 1; }
    template<class S>
    int operator()(S &, const char *, P...) { return 1; }
};

template<class... P>
struct TakesByCategory { // as lvalue something else than as rvalue
    int operator()(P...) & { return 1; }
    int operator()(P..., int) const & { return 2; }
    const char *operator()(P..., char *) && { return "3"; }
};

inline void accepted(bool got, bool want, const char *what, const char *name) {
    mon::stat("checks"), mon::stat(want ? "accepted" : "rejected");
    mon::evaluated(mon::mix(hash(name), hash(what)), true);
    if (got != want) mon::violation(mon::format("%s: %s %s what its callable %s", name, what, got ? "accepts" : "rejects", want ? "accepts" : "rejects"));
}

// F called with the elements of a tuple in front of or behind the arguments
template<class F, class... E, class... A>
void accept_bound(const char *name, list<E...>, list<A...>) {
    using Front = decltype(pigro::bind_front_tuple(std::declval<F>(), std::declval<std::tuple<E...>>()));
    using Back = decltype(pigro::bind_back_tuple(std::declval<F>(), std::declval<std::tuple<E...>>()));
    accepted(std::is_invocable_v<Front &, A...>, std::is_invocable_v<F &, E &..., A...>, "a function bound in front", name);
    accepted(std::is_invocable_v<Back &, A...>, std::is_invocable_v<F &, A..., E &...>, "a function bound behind", name);
    using CFront = decltype(pigro::bind_front_tuple(std::declval<F>(), std::declval<pigro::compressed_tuple<E...>>()));
    using CBack = decltype(pigro::bind_back_tuple(std::declval<F>(), std::declval<pigro::compressed_tuple<E...>>()));
    accepted(std::is_invocable_v<CFront &, A...>, std::is_invocable_v<F &, E &..., A...>, "a function bound in front of a compressed tuple", name);
    accepted(std::is_invocable_v<CBack &, A...>, std::is_invocable_v<F &, A..., E &...>, "a function bound behind a compressed tuple", name);
}
template<class F, class... E, class... A>
void accept_bind_back(const char *name, list<E...>, list<A...>) {
    using B = decltype(pigro::bind_back(std::declval<F>(), std::declval<E &>()...));
    accepted(std::is_invocable_v<B &, A...>, std::is_invocable_v<F &, A..., E &...>, "bind_back of lvalues", name);
    using R = decltype(pigro::bind_back(std::declval<F>(), std::declval<E>()...));
    accepted(std::is_invocable_v<R &, A...>, std::is_invocable_v<F &, A..., E &...>, "bind_back of rvalues", name);
    using C = decltype(pigro::bind_back(std::declval<const F &>(), std::declval<const E &>()...));
    accepted(std::is_invocable_v<C &, A...>, std::is_invocable_v<const F &, A..., const E &...>, "bind_back of constants", name);
}
template<class F, class... E, class... A>
void accept_uncaptured(const char *name, list<E...>, list<A...>) {
    using U = decltype(pigro::uncaptured(std::declval<E>()...) >> std::declval<F>());
    accepted(std::is_invocable_v<U &, A...>, std::is_invocable_v<F &, A..., E &...> || std::is_invocable_v<const F &, A..., const E &...>, "an uncaptured callable", name);
    accepted(std::is_invocable_v<const U &, A...>, std::is_invocable_v<const F &, A..., const E &...>, "a constant uncaptured callable", name);
}
template<class F, class... A>
void accept_apply(const char *name, list<A...>) {
    auto can = []<class G, class T>(list<G, T>) { return requires { pigro::apply(std::declval<G>(), std::declval<T>()); }; };
    accepted(can(list<F &, std::tuple<A...>>{}), std::is_invocable_v<F &, A...>, "applying an rvalue", name);
    accepted(can(list<const F &, std::tuple<std::remove_cvref_t<A>...> &>{}), std::is_invocable_v<const F &, std::remove_cvref_t<A> &...>, "applying an lvalue", name);
    accepted(can(list<const F &, const std::tuple<std::remove_cvref_t<A>...> &>{}), std::is_invocable_v<const F &, const std::remove_cvref_t<A> &...>, "applying a constant", name);
}
template<class F, class... A>
void accept_recursive(const char *name, list<A...>) {
    using R = pigro::recursive<F>;
    accepted(std::is_invocable_v<R &, A...>, std::is_invocable_v<F &, R &, A...> || std::is_invocable_v<const F &, const R &, A...>, "a self-passing lvalue", name);
    accepted(std::is_invocable_v<const R &, A...>, std::is_invocable_v<const F &, const R &, A...>, "a self-passing constant", name);
}

} // namespace bm
