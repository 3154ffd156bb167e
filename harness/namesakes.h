// Values and callables from a namespace that has functions of the same names as the library's own,
// which fit everything: none of them is ever what the library calls.
#pragma once
#include "mon.h"

#ifdef ODD_elements
#include <pigro/compressed_tuple.h>
#endif
#if defined(ODD_binding) || defined(ODD_back)
#include <pigro/bind_tuple.h>
#endif
#ifdef ODD_applying
#include <pigro/to_tuple.h>
#endif
#ifdef ODD_algorithms
#include <pigro/tuple_algorithms.h>
#endif
#ifdef ODD_items
#include <pigro/pack_algorithms.h>
#endif
#ifdef ODD_partitions
#include <pigro/partition.h>
#endif
#ifdef ODD_captures
#include <pigro/forward_like.h>
#include <pigro/fwd_capture.h>
#include <pigro/utils.h>
#endif
#ifdef ODD_uncapturing
#include <pigro/uncapture.h>
#endif
#ifdef ODD_regular
#include <pigro/regular_void.h>
#endif
#ifdef ODD_lazy
#include <pigro/lazy.h>
#endif

#include <string>
#include <tuple>

namespace greedy {

inline long called_wrong = 0;
struct Wrong {};
// any number, one and two arguments of any category
#define NAMESAKE(n)                                                                                     \
    template<class... A> Wrong n(A &&...) { return ++called_wrong, Wrong{}; }                           \
    template<class A> Wrong n(A &) { return ++called_wrong, Wrong{}; }                                  \
    template<class A> Wrong n(const A &) { return ++called_wrong, Wrong{}; }                            \
    template<class A, class B> Wrong n(const A &, B) { return ++called_wrong, Wrong{}; }                \
    template<class A, class B> Wrong n(A &, B &&) { return ++called_wrong, Wrong{}; }
NAMESAKE(access) NAMESAKE(any) NAMESAKE(transform) NAMESAKE(fwd_capture) NAMESAKE(forward_like) NAMESAKE(as_nonconst)
NAMESAKE(enumerate_pack) NAMESAKE(apply) NAMESAKE(apply_impl) NAMESAKE(concat) NAMESAKE(filter_if) NAMESAKE(partition)
NAMESAKE(lazy) NAMESAKE(regularized_void) NAMESAKE(unregularized_void) NAMESAKE(to_tuple) NAMESAKE(uncaptured)
NAMESAKE(bind_back) NAMESAKE(bind_front_tuple) NAMESAKE(bind_back_tuple) NAMESAKE(value) NAMESAKE(is_changed)
NAMESAKE(enumerate_n) NAMESAKE(bind_front_ref) NAMESAKE(bind_back_ref) NAMESAKE(ensure_lazy) NAMESAKE(lazy_value) NAMESAKE(compressed_tuple_element)
#undef NAMESAKE

struct V {
    int v = 0;
    bool operator==(const V &) const = default;
};
struct E {
    bool operator==(const E &) const = default;
};
struct F { // the sum of what it receives
    template<class... A>
    int operator()(const A &...a) const { return (of(a) + ... + 0); }
    static int of(const V &v) { return v.v; }
    static int of(const E &) { return 100; }
    static int of(int n) { return n; }
    template<class I>
    static int of(const I &item) requires requires { item.value; } { return of(item.value) * static_cast<int>(I::index + 1); }
};
struct S { // counts
    int n = 0;
    template<class... A>
    int operator()(const A &...a) { return ++n * 1000 + F{}(a...); }
};
template<class T>
struct Empty : std::is_empty<T> {};

} // namespace greedy

namespace bm::odd {

inline void namesakes() {
    greedy::V v{ 3 };
    greedy::E e;
    (void) v, (void) e;
#ifdef ODD_elements
    pigro::compressed_tuple t{ v, e, greedy::V{ 4 }, greedy::E{} };
    auto t2 = t;
    get<0>(t).v = 5;
    CHECK(get<0>(t).v == 5 && get<0>(t2).v == 3 && get<2>(std::as_const(t2)).v == 4 && get<1>(t) == e, "elements from a namespace with namesakes");
    pigro::compressed_tuple<greedy::V, greedy::E> d;
    CHECK(get<0>(d).v == 0 && sizeof d == sizeof v, "default values from a namespace with namesakes");
#endif
#ifdef ODD_binding
    auto front = pigro::operator>>(std::tuple{ v, e }, greedy::S{});
    auto back = pigro::bind_back_tuple(greedy::S{}, pigro::compressed_tuple{ v, e });
    CHECK(front(v) == 1106 && front() == 2103 && back(v, e) == 1206 && back() == 2103, "binding a callable and values from a namespace with namesakes");
#endif
#ifdef ODD_back
    auto back = pigro::bind_back(greedy::S{}, v, greedy::V{ 1 }, e);
    CHECK(back(v) == 1107 && (v.v = 4, back()) == 2105, "bind_back of a callable and values from a namespace with namesakes");
#endif
#ifdef ODD_applying
    CHECK(pigro::apply(greedy::F{}, std::tuple{ v, e }) == 103 && pigro::apply(greedy::F{}, pigro::to_tuple(std::tuple{ v, v })) == 6, "applying a callable from a namespace with namesakes");
#endif
#ifdef ODD_algorithms
    CHECK(std::get<0>(pigro::transform(std::tuple{ v, e }, greedy::F{})) == 3 && pigro::any(std::tuple{ e, v }, [](auto x) { return std::is_same_v<decltype(x), greedy::V>; }), "algorithms with values from a namespace with namesakes");
#endif
#ifdef ODD_items
    CHECK(pigro::enumerate_pack(greedy::F{}, v, e, v) == 3 + 200 + 9, "enumerating with a callable from a namespace with namesakes");
    CHECK(pigro::enumerate_n<3>([](auto... i) { return (greedy::F::of(static_cast<int>(i.index)) + ...); }) == 3 && pigro::enumerate_n<2>([f = greedy::F{}](auto... i) { return f(static_cast<int>(i.value)...); }) == 1, "enumerate_n");
#endif
#ifdef ODD_partitions
    CHECK((std::is_same_v<pigro::partition_t<greedy::Empty, greedy::V, greedy::E, greedy::V, greedy::F>, pigro::typelist<greedy::E, greedy::F, greedy::V, greedy::V>> && std::is_same_v<pigro::partition_t<greedy::Empty, greedy::V>, pigro::typelist<greedy::V>>), "partitioning types from a namespace with namesakes");
    mon::stat("both_groups"), mon::stat("types_compared", 5);
#endif
#ifdef ODD_captures
    auto keep = [](auto &&x) { return FWD_CAPTURE(x); };
    auto kept = keep(v);
    auto moved = keep(greedy::V{ 7 });
    CHECK(&pigro::access(kept) == &v && pigro::access(moved).v == 7 && &pigro::as_nonconst(std::as_const(v)) == &v && &pigro::forward_like<int &>(v) == &v, "captures of values from a namespace with namesakes");
    mon::stat("captures", 2), mon::stat("casts", 2);
#endif
#ifdef ODD_uncapturing
    auto u = pigro::uncaptured(v, e, 1) >> greedy::S{};
    auto w = pigro::uncaptured(v) >> greedy::S{};
    CHECK(u(v) == 1107 && u() == 2104 && w(2) == 1005, "uncaptured values from a namespace with namesakes");
#endif
#ifdef ODD_regular
    auto r = pigro::regularized_void(greedy::S{});
    CHECK(r(v) == 1003 && r(e) == 2100 && pigro::unregularized_void(r)(v) == 3003, "regularizing a callable from a namespace with namesakes");
#endif
#ifdef ODD_lazy
    static int source;
    auto f = pigro::lazy([](const greedy::V &x, const greedy::E &, const greedy::V &y) { return greedy::V{ x.v + y.v }; }, [] { return greedy::V{ source }; }, e, v);
    auto g = pigro::lazy(greedy::S{}, f, greedy::F{}, e);
    auto h = pigro::lazy(greedy::F{});
    int n = 0;
    for (source = 0; source < 20; ++source)
        for (int k = 0; k < 3; ++k) {
            n += k == 0;
            if (!CHECK_FOR("C01", f().v == source + 3 && g() == n * 1000 + source + 3 + 100 && h() == 0, "a lazy function of a callable and values from a namespace with namesakes")) return;
            mon::stat(k ? "cache_hits" : "source_changes"), mon::stat("calls", 3);
            mon::evaluated(mon::mix(61000, static_cast<std::uint64_t>(source * 3 + k)), k == 0);
        }
#endif
    CHECK(greedy::called_wrong == 0, "a function of a caller's namespace was called in place of one of the library");
    mon::stat("calls", 2), mon::stat("checks");
    mon::evaluated(61100, true);
}

} // namespace bm::odd
