// A single value that is itself a tuple, pair, array, list, optional, reference or block: it stays one value.
#pragma once
#include "mon.h"

#if defined(ODD_elements)
#include <pigro/compressed_tuple.h>
#endif
#if defined(ODD_binding) || defined(ODD_back)
#include <pigro/bind_tuple.h>
#endif
#ifdef ODD_applying
#include <pigro/apply.h>
#include <pigro/to_tuple.h>
#endif
#ifdef ODD_algorithms
#include <pigro/tuple_algorithms.h>
#endif
#ifdef ODD_items
#include <pigro/pack_algorithms.h>
#endif
#ifdef ODD_self_passing
#include <pigro/recursive.h>
#endif
#ifdef ODD_uncapturing
#include <pigro/uncapture.h>
#endif
#ifdef ODD_regular
#include <pigro/regular_void.h>
#endif
#ifdef ODD_lazy
#include <pigro/lazy.h>
#endif

#include <array>
#include <complex>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

#ifndef SINGLE_PARTS
#define SINGLE_PARTS 1
#define SINGLE_PART 0
#endif

namespace bm::odd {

struct Aggregate {
    int first = 1, second = 2, value = 3, data = 4;
    bool operator==(const Aggregate &) const = default;
};
struct FromAnything { // can be made from whatever it is given
    int made = 0;
    FromAnything() = default;
    template<class T>
    requires(!std::is_same_v<std::remove_cvref_t<T>, FromAnything>) FromAnything(T &&) : made{ 1 } {}
    bool operator==(const FromAnything &o) const { return made == o.made; }
};
struct Nested {
    Aggregate value; // the names the library uses for members of its own
    bool is_changed = true;
    static constexpr int index = 3;
    using type = int;
    bool operator==(const Nested &) const = default;
};
struct EmptyTuple : std::tuple<> {
    bool operator==(const EmptyTuple &) const { return true; }
};
struct DerivedPair : std::pair<int, int> {
    using std::pair<int, int>::pair;
};

// go(value, name) for one value of each kind
template<class Go>
void each_kind(Go go) {
    auto use = [&]<int K>(std::integral_constant<int, K>, auto v, const char *name) {
        if constexpr (K % SINGLE_PARTS == SINGLE_PART) go(v, name);
    };
    use(std::integral_constant<int, 0>{}, std::pair{ 1, 2 }, "a pair");
    use(std::integral_constant<int, 1>{}, std::pair{ std::string("a"), std::pair{ 1, 2 } }, "a pair of a pair");
    use(std::integral_constant<int, 2>{}, DerivedPair{ 3, 4 }, "something derived from a pair");
    use(std::integral_constant<int, 3>{}, std::tuple<>{}, "a tuple of nothing");
    use(std::integral_constant<int, 4>{}, EmptyTuple{}, "something derived from a tuple of nothing");
    use(std::integral_constant<int, 5>{}, std::tuple{ 1 }, "a tuple of one");
    use(std::integral_constant<int, 6>{}, std::tuple<std::tuple<int>>{ std::tuple{ 1 } }, "a tuple of a tuple of one");
    use(std::integral_constant<int, 7>{}, std::tuple{ 1, std::string("two"), 3. }, "a tuple");
    use(std::integral_constant<int, 8>{}, std::array<int, 1>{ 7 }, "an array of one");
    use(std::integral_constant<int, 9>{}, std::array<std::string, 2>{ "x", "y" }, "an array");
    use(std::integral_constant<int, 10>{}, std::array<int, 0>{}, "an empty array");
    use(std::integral_constant<int, 11>{}, std::vector<int>{ 5, 6 }, "a vector");
    use(std::integral_constant<int, 12>{}, std::vector<bool>{ true, false }, "a vector of bool");
    use(std::integral_constant<int, 13>{}, std::map<int, std::string>{ { 1, "one" } }, "a map");
    use(std::integral_constant<int, 14>{}, std::optional<int>{}, "an empty optional");
    use(std::integral_constant<int, 15>{}, std::optional<int>{ 4 }, "an optional");
    use(std::integral_constant<int, 16>{}, std::optional<std::optional<int>>{ std::optional<int>{} }, "an optional of an empty one");
    use(std::integral_constant<int, 17>{}, std::variant<int, std::string>{ "text" }, "a variant");
    use(std::integral_constant<int, 18>{}, std::complex<double>{ 1, 2 }, "a complex number");
    use(std::integral_constant<int, 19>{}, std::make_shared<int>(3), "a shared pointer");
    use(std::integral_constant<int, 20>{}, static_cast<const char *>("literal"), "a literal");
    use(std::integral_constant<int, 21>{}, nullptr, "a null pointer");
    use(std::integral_constant<int, 22>{}, std::string{}, "an empty string");
    use(std::integral_constant<int, 23>{}, Aggregate{}, "an aggregate");
    use(std::integral_constant<int, 24>{}, FromAnything{}, "something made from anything");
    use(std::integral_constant<int, 25>{}, Nested{}, "something with the members value, type and index");
    use(std::integral_constant<int, 26>{}, std::integral_constant<std::size_t, 4>{}, "an integral constant");
    use(std::integral_constant<int, 27>{}, std::in_place, "std::in_place");
}

template<class T, class A>
bool same_value(const T &a, const A &b) {
    if constexpr (!std::is_same_v<T, A>)
        return false;
    else if constexpr (requires { a == b; })
        return a == b;
    else
        return true;
}

// what a callable received: the number of arguments; whether each of them is the value
template<class T>
struct Received {
    T want;
    int *state; // 1: exactly what it should be, 2: something else
    int before, count;
    template<class... A>
    int operator()(const A &...a) const {
        bool ok = sizeof...(A) == static_cast<std::size_t>(count);
        int k = 0;
        ((ok = ok && (k++ < before || same_value<T>(want, a))), ...);
        *state = ok ? 1 : 2;
        return 77;
    }
};

inline void single_values() {
    each_kind([](auto v, const char *name) {
        using T = decltype(v);
        int state = 0;
        [[maybe_unused]] auto f = [&](int before, int count) { return Received<T>{ v, &state, before, count }; };
        [[maybe_unused]] auto check = [&](int result, const char *what) {
            CHECK(result == 77 && state == 1, "%s with %s: %s", what, name, state == 0 ? "not called" : "received something else");
            state = 0;
            mon::stat("calls");
            mon::evaluated(mon::mix(std::hash<std::string>{}(what), std::hash<std::string>{}(name)), true);
        };
#ifdef ODD_elements
        auto one = pigro::compressed_tuple{ v };
        CHECK((std::tuple_size_v<decltype(one)> == 1 && std::is_same_v<std::tuple_element_t<0, decltype(one)>, T> && same_value<T>(v, get<0>(one))), "a compressed tuple of %s", name);
        auto copy = one;
        CHECK((std::is_same_v<decltype(copy), decltype(one)> && same_value<T>(v, get<0>(copy))), "a copy of a compressed tuple of %s", name);
        pigro::compressed_tuple two{ one, v };
        CHECK((std::tuple_size_v<decltype(two)> == 2 && same_value<T>(v, get<0>(get<0>(two))) && same_value<T>(v, get<1>(two))), "a compressed tuple of a compressed tuple and %s", name);
        mon::stat("element_reads", 4);
        mon::evaluated(mon::mix(61300, std::hash<std::string>{}(name)), true);
#endif
#ifdef ODD_binding
        check(pigro::bind_front_tuple(f(0, 1), std::tuple<T>{ v })(), "bound in front");
        check(pigro::bind_back_tuple(f(0, 1), std::tuple<T>{ v })(), "bound behind");
        check(pigro::bind_front_tuple(f(0, 2), pigro::compressed_tuple<T>{ v })(v), "bound in front of its like");
        check(pigro::bind_back_tuple(f(0, 3), pigro::compressed_tuple<T, T>{ v, v })(v), "bound behind its like");
        check(pigro::operator>>(std::pair<T, T>{ v, v }, f(0, 3))(v), "a pair in front");
        check(pigro::operator<<(std::array<T, 2>{ v, v }, f(0, 3))(v), "an array behind");
#endif
#ifdef ODD_back
        check(pigro::bind_back(f(0, 1), v)(), "bind_back");
        check(pigro::bind_back(f(0, 1), T(v))(), "bind_back of an rvalue");
        check(pigro::bind_back(f(0, 4), v, T(v), std::as_const(v))(v), "bind_back");
        check(pigro::bind_back(f(0, 1))(v), "bind_back of nothing");
#endif
#ifdef ODD_applying
        check(pigro::apply(f(0, 1), std::tuple<T>{ v }), "applying to a tuple");
        check(pigro::apply(f(0, 2), std::pair<T, T>{ v, v }), "applying to a pair");
        check(pigro::apply(f(0, 3), std::array<T, 3>{ v, v, v }), "applying to an array");
        std::tuple<T> t{ v };
        check(pigro::apply(f(0, 1), pigro::to_tuple(t)), "applying to a view");
        mon::stat("views");
#endif
#ifdef ODD_algorithms
        const auto r = pigro::transform(std::tuple<T>{ v }, [](const auto &x) { return x; });
        CHECK((std::tuple_size_v<std::remove_cvref_t<decltype(r)>> == 1 && same_value<T>(v, std::get<0>(r))), "transform of %s", name);
        const auto r2 = pigro::transform(std::tuple{ 1, 2 }, [&](int) { return v; });
        CHECK((std::tuple_size_v<std::remove_cvref_t<decltype(r2)>> == 2 && same_value<T>(v, std::get<0>(r2)) && same_value<T>(v, std::get<1>(r2))), "transform to %s", name);
        CHECK(pigro::any(std::tuple<T>{ v }, [&](const auto &x) { return same_value<T>(v, x); }), "any of %s", name);
        mon::stat("projections", 3), mon::stat("predicate_events"), mon::stat("short_circuits");
        mon::evaluated(mon::mix(61301, std::hash<std::string>{}(name)), true);
#endif
#ifdef ODD_items
        check(pigro::enumerate_pack([&](auto... i) { return f(0, 1)(static_cast<const T &>(i.value)...); }, v), "enumerating");
        check(pigro::enumerate_pack([&](auto... i) { return f(0, 2)(static_cast<const T &>(i.value)...); }, v, T(v)), "enumerating two of");
        mon::stat("items", 3);
#endif
#ifdef ODD_self_passing
        auto self = [&](auto &&, auto &&...a) { return f(0, 2)(a...); };
        check(pigro::recursive<decltype(self)>{ self }(v, T(v)), "passing itself");
#endif
#ifdef ODD_uncapturing
        check((pigro::uncaptured(v) >> f(0, 1))(), "uncaptured");
        check((pigro::uncaptured(v) >> f(0, 2))(v), "uncaptured and called");
        check((pigro::uncaptured(v, v) >> f(0, 3))(v), "uncaptured twice");
        check((pigro::uncaptured(v) >> (pigro::uncaptured(v) >> f(0, 2)))(), "chained");
        check((pigro::uncaptured(1, v) >> f(1, 2))(), "uncaptured behind a number");
#endif
#ifdef ODD_regular
        check(pigro::regularized_void(f(0, 2))(v, v), "a regularized function called");
        check(pigro::unregularized_void(f(0, 1))(v), "an unregularized function called");
        auto res = pigro::regularized_void([&] { return v; })();
        auto res2 = pigro::unregularized_void([&] { return v; })();
        CHECK((std::is_same_v<decltype(res), T> && std::is_same_v<decltype(res2), T> && same_value<T>(v, res) && same_value<T>(v, res2)), "a (un)regularized function returning %s", name);
#endif
#ifdef ODD_lazy
        if constexpr (std::equality_comparable<T> && !std::invocable<T &>) { // what can be called is a function, not a constant
            check(pigro::lazy(f(0, 1), v)(), "a lazy function of a constant");
            check(pigro::lazy(f(0, 1), [v] { return v; })(), "a lazy function of a function returning");
            check(pigro::lazy(f(0, 1), pigro::lazy([v] { return v; }))(), "a lazy function of a lazy function returning");
            check(pigro::lazy(f(0, 3), pigro::lazy([v] { return v; }), v, [v] { return v; })(), "a lazy function of three");
            auto res = pigro::lazy([v] { return v; });
            CHECK(same_value<T>(v, res()) && same_value<T>(v, res()), "a lazy function returning %s", name);
        }
        mon::stat("cache_hits"), mon::stat("source_changes");
#endif
    });
}

} // namespace bm::odd
