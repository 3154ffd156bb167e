// apply and to_tuple
#pragma once
#include "c14.h"

namespace bm {

template<class T, class F>
void apply_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    for (int i = 0; i < 10 * mon::state().scale && j.ok; ++i) {
        T t = make_tuple_of<T>::from(rng);
        auto go = [&](auto &&u, int category, const char *when) {
            const auto want = element_wants(t, category, true);
            const long c0 = Obj::copies, m0 = Obj::moves;
            F f{};
            log().clear();
            if constexpr (std::is_void_v<decltype(pigro::apply(f, static_cast<decltype(u)>(u)))>)
                pigro::apply(f, static_cast<decltype(u)>(u));
            else {
                auto &&r = pigro::apply(f, static_cast<decltype(u)>(u));
                if constexpr (std::is_same_v<F, ReturnsArg<0>>) {
                    if (log().calls.size() == 1 && address(r) != log().calls[0].at(0).addr) j.fail("the reference returned is not passed through");
                    using R = decltype(pigro::apply(f, static_cast<decltype(u)>(u)));
                    if (cat<R> != category || !std::is_reference_v<R>) j.fail("the type of the result is not that of the callable's");
                } else if constexpr (std::is_same_v<F, ReturnsMoveOnly>) {
                    if (dec(r) != 7) j.fail("the result is not passed through");
                } else if constexpr (!std::is_same_v<F, Overloaded>) {
                    auto h = mon::mix(5, static_cast<std::uint64_t>(log().who.empty() ? 0 : log().who[0]));
                    if (log().calls.size() == 1)
                        for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
                    if (static_cast<tok_t>(h >> 16) != r) j.fail("the result is not passed through");
                }
            }
            if (Obj::copies != c0 || Obj::moves != m0) j.fail(std::string(when) + ": elements are copied or moved");
            j.one_call(want, when);
            mon::stat("calls");
            mon::evaluated(hash(hash(name), want), !want.empty());
            if (i == 0 && j.ok) mon::sample(mon::format("%s received %s", name, show(log().calls[0]).c_str()));
        };
        go(t, 0, "lvalue");
        go(std::as_const(t), CN, "const lvalue");
        go(std::move(t), RV, "rvalue");
        go(std::move(std::as_const(t)), RV | CN, "const rvalue");
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

template<class T>
void view_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int i = 0; i < 10 * mon::state().scale && j.ok; ++i) {
        T t = make_tuple_of<T>::from(rng);
        auto go = [&](auto &&u, int category, const char *when) {
            const long c0 = Obj::copies, m0 = Obj::moves;
            auto v = pigro::to_tuple(static_cast<decltype(u)>(u));
            if (Obj::copies != c0 || Obj::moves != m0) j.fail(std::string(when) + ": elements are copied or moved");
            using V = std::remove_cvref_t<decltype(v)>;
            if (std::tuple_size_v<V> != std::tuple_size_v<T>) {
                j.fail("the view has another size");
                return;
            }
            if constexpr (std::tuple_size_v<V> == std::tuple_size_v<T>)
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    ([&] {
                        using E = std::tuple_element_t<I, std::remove_cvref_t<V>>;
                        using O = std::tuple_element_t<I, T>;
                        if (!std::is_same_v<std::remove_cvref_t<E>, std::remove_cvref_t<O>>) j.fail(mon::format("%s: element %zu has another type", when, I));
                        if (!std::is_reference_v<E>) j.fail(mon::format("%s: element %zu is not a reference", when, I));
                        if constexpr (!(is_compressed<T> && is_empty_v<O>)) {
                            if (cat<E> != category) j.fail(mon::format("%s: element %zu is a '%s' instead of a '%s'", when, I, cat_name(cat<E>).c_str(), cat_name(category).c_str()));
                            if (address(std::get<I>(v)) != address(get<I>(t))) j.fail(mon::format("%s: element %zu refers to another object", when, I));
                        }
                    }(),
                      ...);
                }
            (std::make_index_sequence<std::tuple_size_v<T>>{});
            mon::stat("views");
            mon::evaluated(hash(hash(name), element_wants(t, category, false)), std::tuple_size_v<T> > 0);
        };
        go(t, 0, "lvalue");
        go(std::as_const(t), CN, "const lvalue");
        go(std::move(t), RV, "rvalue");
        go(std::move(std::as_const(t)), RV | CN, "const rvalue");
    }
}

struct Qualified { // tells with which category it is called
    int called(int c, std::size_t n) const { return c + 16 * static_cast<int>(n); }
    template<class... A>
    int operator()(A &&...) & { return called(0, sizeof...(A)); }
    template<class... A>
    int operator()(A &&...) const & { return called(CN, sizeof...(A)); }
    template<class... A>
    int operator()(A &&...) && { return called(RV, sizeof...(A)); }
    template<class... A>
    int operator()(A &&...) const && { return called(RV | CN, sizeof...(A)); }
};
template<class T>
void callable_category(const char *name, T t) {
    const int n = 16 * static_cast<int>(std::tuple_size_v<T>);
    Qualified q;
    CHECK(pigro::apply(q, t) == n && pigro::apply(q, std::as_const(t)) == n, "apply to %s: the callable is an lvalue", name);
    CHECK(pigro::apply(std::as_const(q), t) == (n | CN), "apply to %s: the callable is a constant", name);
    CHECK(pigro::apply(Qualified{}, t) == (n | RV) && pigro::apply(std::move(q), std::move(t)) == (n | RV), "apply to %s: the callable is an rvalue", name);
    CHECK(pigro::apply(std::move(std::as_const(q)), t) == (n | RV | CN), "apply to %s: the callable is a constant rvalue", name);
    mon::stat("calls", 6);
    mon::evaluated(hash(name), true);
}

inline void apply_facts() {
    callable_category("an empty tuple", std::tuple<>{});
    callable_category("a tuple of one", std::tuple{ 1 });
    callable_category("a tuple", std::tuple{ 1, std::string("x"), Obj{ 2 } });
    callable_category("a pair", std::pair{ 1, 'c' });
    callable_category("an array", std::array{ 1, 2, 3, 4 });
    callable_category("an empty compressed tuple", pigro::compressed_tuple<>{});
    callable_category("a compressed tuple", pigro::compressed_tuple{ 1, Nil<0>{}, std::string("x") });
    struct S {
        int v;
        int add(int a, int b) { return v += a + 10 * b; }
        int get_v() const { return v; }
    };
    std::tuple<S, int, int> t{ { 1 }, 2, 3 };
    CHECK(pigro::apply(&S::add, t) == 33 && std::get<0>(t).v == 33, "member functions");
    S s{ 5 };
    CHECK(pigro::apply(&S::get_v, std::tuple<S *>{ &s }) == 5 && pigro::apply(&S::v, std::tuple<S &>{ s }) == 5, "member pointers");
    pigro::apply(&S::v, std::tuple<S &>{ s }) = 8;
    CHECK(s.v == 8, "references to member objects");
    CHECK(pigro::apply([] { return 4; }, std::tuple<>{}) == 4, "no elements");
    int x = 1;
    CHECK(&pigro::apply([](int &a) -> int & { return a; }, std::tuple<int &>{ x }) == &x, "reference elements");
    auto u = pigro::apply([](std::unique_ptr<int> p, MoveOnly q) { *p += *q.p; return p; }, std::tuple{ std::make_unique<int>(3), MoveOnly{ 4 } });
    CHECK(*u == 7, "move-only elements by value");
    CHECK(pigro::apply([](auto &&...a) { return (0 + ... + a); }, std::array{ 1, 2, 3, 4, 5, 6, 7, 8, 9 }) == 45, "arrays");
    Mutating m;
    pigro::apply(m, std::pair{ 1, 2 }), pigro::apply(m, std::pair{ 1, 2 });
    CHECK(m.n == 2, "the callable given is not the one called");
    // to_tuple of a compressed tuple writes through
    pigro::compressed_tuple c{ 1, std::string("a"), Nil<0>{} };
    std::get<0>(pigro::to_tuple(c)) = 9;
    std::get<1>(pigro::to_tuple(c)) += "b";
    CHECK(pigro::get<0>(c) == 9 && pigro::get<1>(c) == "ab", "a view does not write through");
    std::string moved = std::get<1>(pigro::to_tuple(std::move(c)));
    CHECK(moved == "ab", "a view of an rvalue");
    mon::evaluated(60000, true);
}

} // namespace bm
