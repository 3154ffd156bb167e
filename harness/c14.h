// Binding, applying and viewing tuples.
#pragma once
#include "blocks.h"

namespace bm {

// objects to pass, given the parameter types (A is T &, const T &, T && or const T &&)
template<class... A>
struct Args {
    std::tuple<std::remove_cvref_t<A>...> v;
    std::array<tok_t, sizeof...(A) + 1> t{};
    explicit Args(mon::Rng &rng) : Args(rng, std::index_sequence_for<A...>{}) {}
    template<std::size_t... I>
    Args(mon::Rng &rng, std::index_sequence<I...>) : v{ value<std::remove_cvref_t<A>>(rng)... } {
        ((t[I] = dec(std::get<I>(v))), ...);
    }
    template<std::size_t I>
    auto &&pass() { return static_cast<std::tuple_element_t<I, std::tuple<A...>>>(std::get<I>(v)); }
    std::vector<Want> wants() const {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::vector<Want>{ Want{ cat<A>, address(std::get<I>(v)), t[I] }... }; }
        (std::index_sequence_for<A...>{});
    }
    template<class F>
    decltype(auto) call(F &&f) {
        return [&]<std::size_t... I>(std::index_sequence<I...>)->decltype(auto) { return std::forward<F>(f)(pass<I>()...); }
        (std::index_sequence_for<A...>{});
    }
};

template<class T>
struct make_tuple_of;
template<class... E>
struct make_tuple_of<std::tuple<E...>> {
    static std::tuple<E...> from(mon::Rng &rng) { return std::tuple<E...>{ value<E>(rng)... }; }
};
template<class... E>
struct make_tuple_of<pigro::compressed_tuple<E...>> {
    static auto from(mon::Rng &rng) { return pigro::compressed_tuple<E...>{ value<E>(rng)... }; }
};
template<class A, class B>
struct make_tuple_of<std::pair<A, B>> {
    static std::pair<A, B> from(mon::Rng &rng) { return { value<A>(rng), value<B>(rng) }; }
};
template<class E, std::size_t N>
struct make_tuple_of<std::array<E, N>> {
    static std::array<E, N> from(mon::Rng &rng) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<E, N>{ (static_cast<void>(I), value<E>(rng))... }; }
        (std::make_index_sequence<N>{});
    }
};
template<>
struct make_tuple_of<std::tuple<>> {
    static std::tuple<> from(mon::Rng &) { return {}; }
};
template<>
struct make_tuple_of<pigro::compressed_tuple<>> {
    static pigro::compressed_tuple<> from(mon::Rng &) { return {}; }
};
template<class T>
constexpr bool is_compressed = false;
template<class... E>
constexpr bool is_compressed<pigro::compressed_tuple<E...>> = true;

using std::get;
// what f must receive for the elements of t; empty elements of a compressed tuple are not objects
template<class T>
std::vector<Want> element_wants(T &t, int category, bool identity) {
    using U = std::remove_cvref_t<T>;
    return [&]<std::size_t... I>(std::index_sequence<I...>) {
        auto w = [&](auto i) -> Want {
            using E = std::remove_cvref_t<std::tuple_element_t<i, U>>;
            decltype(auto) e = get<i>(t);
            if constexpr (is_compressed<U> && is_empty_v<E>)
                return { -1, nullptr, dec(static_cast<const E &>(e)) };
            else
                return { category, identity ? address(e) : nullptr, dec(static_cast<const E &>(e)) };
        };
        return std::vector<Want>{ w(std::integral_constant<std::size_t, I>{})... };
    }
    (std::make_index_sequence<std::tuple_size_v<U>>{});
}
template<class T>
constexpr bool copyable_tuple = std::is_copy_constructible_v<T>;
template<class... E>
constexpr bool copyable_tuple<pigro::compressed_tuple<E...>> = (std::is_copy_constructible_v<E> && ...);
template<class A, class B>
constexpr bool copyable_tuple<std::pair<A, B>> = std::is_copy_constructible_v<A> &&std::is_copy_constructible_v<B>;

inline std::vector<Want> operator+(std::vector<Want> a, const std::vector<Want> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

template<bool Front, class F, class T>
auto bound(F &&f, T &&t, int how) {
    if constexpr (Front)
        return pigro::operator>>(std::forward<T>(t), std::forward<F>(f));
    else
        return pigro::operator<<(std::forward<T>(t), std::forward<F>(f));
    (void) how;
}
template<bool Front, class F, class T>
auto bound_named(F &&f, T &&t) {
    if constexpr (Front)
        return pigro::bind_front_tuple(std::forward<F>(f), std::forward<T>(t));
    else
        return pigro::bind_back_tuple(std::forward<F>(f), std::forward<T>(t));
}

struct Judge {
    std::string what;
    bool ok = true;
    void fail(const std::string &why) {
        if (ok) mon::violation(mon::format("%s: %s", what.c_str(), why.c_str()));
        ok = false;
    }
    // exactly one call with these arguments since the log was cleared
    void one_call(const std::vector<Want> &want, const char *when) {
        mon::stat("checks");
        std::string why;
        if (log().calls.size() != 1)
            fail(mon::format("%s: the callable was called %zu times", when, log().calls.size()));
        else if (!intact(log().who[0], log().state[0]))
            fail(mon::format("%s: the callable has lost its state", when));
        else if (!same(log().calls[0], want, why))
            fail(mon::format("%s: %s; received %s", when, why.c_str(), show(log().calls[0]).c_str()));
    }
};

template<class R>
constexpr bool is_mutating = std::is_same_v<std::remove_cvref_t<R>, Mutating>;

// Front: in front or behind; LV: the tuple is an lvalue (referred to) or an rvalue (stored)
template<bool Front, bool LV, class T, class F, class... A>
void bind_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    for (int i = 0; i < 12 * mon::state().scale && j.ok; ++i) {
        F f{};
        T t = make_tuple_of<T>::from(rng);
        auto given = element_wants(t, 0, LV);
        if constexpr (std::is_empty_v<T>) // nothing is stored for it, so its elements are no particular objects
            for (auto &w : given) w = { -1, nullptr, w.tok };
        const long moves = Obj::moves, copies = Obj::copies;
        auto run = [&](auto &b) {
            using B = std::remove_reference_t<decltype(b)>;
            Args<A...> args{ rng };
            auto want = [&](const std::vector<Want> &e) { return Front ? e + args.wants() : args.wants() + e; };
            long c0 = Obj::copies, m0 = Obj::moves;
            log().clear();
            // --- as an lvalue
            if constexpr (std::is_void_v<decltype(args.call(b))>)
                args.call(b);
            else {
                auto &&r = args.call(b);
                if constexpr (std::is_same_v<F, ReturnsArg<0>>) {
                    if (log().calls.size() == 1 && address(r) != log().calls[0].at(0).addr) j.fail("the reference the callable returned is not passed through");
                } else if constexpr (std::is_same_v<F, Overloaded>) {
                    if (log().calls.size() == 1 && !log().calls[0].empty() && r != log().calls[0].back().cat) j.fail("the result is not that of the call made");
                } else if constexpr (std::is_same_v<F, ReturnsMoveOnly>) {
                    if (dec(r) != 7) j.fail("the result is not passed through");
                } else {
                    if (log().calls.size() == 1) {
                        auto h = mon::mix(5, static_cast<std::uint64_t>(log().who[0]));
                        for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
                        if (static_cast<tok_t>(h >> 16) != r) j.fail("the result is not passed through");
                    }
                }
            }
            if (Obj::copies != c0 || Obj::moves != m0) j.fail("a call copies or moves its arguments");
            j.one_call(want(given), "call");
            if (!j.ok) return;
            auto first = log().calls[0];
            if (!LV) // stored elements: the same objects in every call, inside the bound function
                for (std::size_t k = 0; k < given.size(); ++k) {
                    auto &s = first[Front ? k : k + sizeof...(A)];
                    if (given[k].cat >= 0 && !inside(s.addr, &b, sizeof(B))) j.fail("a bound element is not stored in the bound function");
                }
            // --- again
            {
                Args<A...> more{ rng };
                log().clear();
                more.call(b);
                j.one_call(Front ? given + more.wants() : more.wants() + given, "second call");
                if (j.ok)
                    for (std::size_t k = 0; k < given.size(); ++k) {
                        const auto p = Front ? k : k + sizeof...(A);
                        if (given[k].cat >= 0 && first[p].addr != log().calls[0][p].addr) j.fail("a bound element is another object in the second call");
                    }
            }
            mon::evaluated(hash(hash(name), want(given)), sizeof...(A) + given.size() > 0);
            mon::stat("calls", 2);
            if (i == 0) mon::sample(mon::format("%s received %s", name, show(first).c_str()));
            // --- const
            if constexpr (!is_mutating<F> && !std::is_same_v<F, ReturnsArg<0>>) {
                Args<A...> more{ rng };
                log().clear();
                more.call(std::as_const(b));
                auto g = given;
                for (auto &w : g)
                    if (w.cat >= 0) w.cat = LV ? -1 : CN;
                j.one_call(Front ? g + more.wants() : more.wants() + g, "call of a const bound function");
            }
            // --- a copy has its own elements; an rvalue is called like an lvalue
            if constexpr (copyable_tuple<T>) {
                B copy = std::as_const(b);
                Args<A...> more{ rng };
                log().clear();
                more.call(std::move(copy));
                j.one_call(Front ? given + more.wants() : more.wants() + given, "call of a temporary");
                if (!LV && j.ok)
                    for (std::size_t k = 0; k < given.size(); ++k) {
                        const auto p = Front ? k : k + sizeof...(A);
                        if (given[k].cat >= 0 && !inside(log().calls[0][p].addr, &copy, sizeof copy)) j.fail("a copy of a bound function shares an element with the original");
                    }
            }
        };
        if constexpr (LV) {
            auto b = bound<Front>(F{}, t, i);
            if (Obj::copies != copies || Obj::moves != moves) j.fail("binding an lvalue tuple copies it");
            run(b);
        } else if (i % 2) {
            auto b = bound<Front>(std::move(f), std::move(t), i);
            if (Obj::copies != copies) j.fail("binding an rvalue tuple copies its elements");
            run(b);
        } else {
            auto b = bound_named<Front>(std::move(f), std::move(t));
            if (Obj::copies != copies) j.fail("binding an rvalue tuple copies its elements");
            run(b);
        }
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

// callable exactly with what f accepts; state kept; writes to bound elements seen
#ifdef BIND_FACTS // so that the programs of other properties do not depend on it
inline void bind_facts() {
    using namespace pigro;
    auto f = [](int &a, const std::string &s, long x) { return ++a + static_cast<long>(s.size()) + x; };
    auto b = std::tuple{ 1, std::string("abc") } >> f;
    using B = decltype(b);
    CHECK((std::is_invocable_v<B &, long>) &&(std::is_invocable_v<B &, int>), "a bound function is not callable with what its callable accepts");
    CHECK(!(std::is_invocable_v<B &>) &&!(std::is_invocable_v<B &, int, int>) &&!(std::is_invocable_v<B &, std::string>), "a bound function is callable with what its callable does not accept");
    for (int i = 0; i < 50; ++i) {
        CHECK(b(i) == 2 + i + 3 + i, "a bound element does not keep what the callable wrote (%d)", i);
        mon::evaluated(static_cast<std::uint64_t>(90000 + i), true);
    }
    auto g = [](long x, int &a, const std::string &s) { return ++a + static_cast<long>(s.size()) + x; };
    auto c = compressed_tuple{ 1, std::string("abc") } << g;
    using C = decltype(c);
    CHECK((std::is_invocable_v<C &, long>) &&!(std::is_invocable_v<C &>) &&!(std::is_invocable_v<C &, int, int>) &&!(std::is_invocable_v<C &, std::string>), "a function bound behind is not callable with exactly what its callable accepts");
    for (int i = 0; i < 50; ++i) CHECK(c(i) == 2 + i + 3 + i, "an element bound behind does not keep what the callable wrote (%d)", i);
    // lvalue tuples are referred to
    std::tuple<int, std::string> t{ 5, "x" };
    auto d = t >> [](int &a, std::string &s) { s += "y"; return ++a; };
    CHECK(d() == 6 && d() == 7 && std::get<0>(t) == 7 && std::get<1>(t) == "xyy", "a tuple bound as an lvalue is not referred to");
    std::get<0>(t) = 100;
    CHECK(d() == 101, "a tuple bound as an lvalue does not show its changes");
    // lvalue callables are referred to, rvalue ones stored
    Mutating m;
    auto e = std::tuple{ 1 } >> m;
    auto h = std::tuple{ 1 } << Mutating{};
    log().clear();
    for (int i = 0; i < 5; ++i) e(), h();
    CHECK(m.n == 5, "a callable bound as an lvalue is not the one called");
    CHECK((log().state == std::vector<long>{ 0, 0, 1, 1, 2, 2, 3, 3, 4, 4 }), "a bound callable does not keep its state");
    // call arguments by value, move-only
    auto k = std::tuple{ 1 } >> [](int x, MoveOnly p, std::unique_ptr<int> q) { return x + *p.p + *q; };
    CHECK(k(MoveOnly{ 3 }, std::make_unique<int>(4)) == 8, "move-only call arguments bound in front");
    auto l = std::tuple{ 1 } << [](MoveOnly p, std::unique_ptr<int> q, int x) { return x + *p.p + *q; };
    CHECK(l(MoveOnly{ 3 }, std::make_unique<int>(4)) == 8, "move-only call arguments bound behind");
    // bound move-only elements
    auto n = std::tuple{ MoveOnly{ 3 }, std::make_unique<int>(4) } >> [](MoveOnly &p, std::unique_ptr<int> &q, int x) { return x + *p.p + *q; };
    CHECK(n(1) == 8 && n(2) == 9, "bound move-only elements");
    // function pointers, member pointers, std::function
    struct S {
        int v;
        int add(int x, int y) const { return v + 10 * x + 100 * y; }
    };
    auto o = std::tuple{ S{ 1 }, 2 } >> &S::add;
    CHECK(o(3) == 321, "a bound member function in front");
    auto p = std::tuple{ 2, 3 } << &S::add;
    CHECK(p(S{ 1 }) == 321, "a bound member function behind");
    int (*fp)(int, int, int) = [](int a, int b, int c) { return a + 10 * b + 100 * c; };
    CHECK((std::tuple{ 1, 2 } >> fp)(3) == 321 && (std::tuple{ 1, 2 } << fp)(3) == 213, "bound function pointers");
    std::function<int(int, int, int)> fn = fp;
    CHECK((std::array{ 1, 2 } >> fn)(3) == 321 && (std::pair{ 1, 2 } << fn)(3) == 213, "bound std::function");
    // nested
    auto q = std::tuple{ 3 } >> (std::tuple{ 1, 2 } << fp);
    CHECK(q() == 213, "nested bound functions");
    auto r = std::tuple{ 1 } >> (std::tuple{ 2 } >> fp);
    CHECK(r(3) == 2 + 10 + 300, "nested functions bound in front");
    // shifting other things still works with these operators visible
    CHECK((1 << 3) == 8 && (std::bitset<4>(3) << 1).to_ulong() == 6, "shifting other types");
}
#endif

} // namespace bm
