// Compressed tuples: random histories of construction, access, write, copy, move,
// assignment and destruction against a shadow of plain values.
#pragma once
#include "blocks.h"

namespace bm {

template<class... T>
using CT = pigro::compressed_tuple<T...>;

template<std::size_t N, class F>
void with_index(std::size_t i, F f) {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((i == I ? (f(std::integral_constant<std::size_t, I>{}), 0) : 0), ...);
    }
    (std::make_index_sequence<N>{});
}

// What an element is referred to. A reference element refers to an object outside.
template<class T>
struct Outside {
    std::remove_reference_t<T> v[4];
};

template<class... Ts>
struct TupleCase {
    using C = CT<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    template<std::size_t I>
    using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    using Toks = std::array<tok_t, N ? N : 1>;
    static constexpr bool copyable = (std::is_copy_constructible_v<Ts> && ...);
    static constexpr bool assignable = ((std::is_copy_assignable_v<Ts> || is_empty_v<Ts>) &&...);

    std::string name;
    mon::Rng rng;
    long ops = 0;
    std::uint64_t h = 0;
    std::string trace;
    bool failed = false;

    bool want(bool ok, const char *what) {
        if (!ok && !failed) {
            failed = true;
            mon::violation(mon::format("compressed_tuple<%s>: %s; history:%s", name.c_str(), what, trace.size() > 300 ? trace.substr(trace.size() - 300).c_str() : trace.c_str()));
        }
        return ok;
    }

    // one construction from rvalues or lvalues
    std::unique_ptr<C> create(Toks &t) {
        for (std::size_t i = 0; i < N; ++i) t[i] = 0;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((t[I] = static_cast<tok_t>(rng.below(Codec<E<I>>::dom))), ...);
        }
        (std::make_index_sequence<N>{});
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            if constexpr (copyable && N > 0)
                if (rng.chance(40)) { // from lvalues: copies
                    std::tuple<E<I>...> vals{ make<E<I>>(t[I], 0)... };
                    auto p = std::make_unique<C>(std::get<I>(vals)...);
                    want(((dec(std::get<I>(vals)) == t[I]) && ...), "constructing from lvalues changed them");
                    return p;
                }
            if constexpr (N > 0)
                if (rng.chance(50)) return std::make_unique<C>(C(make<E<I>>(t[I], 0)...));
            return std::make_unique<C>(make<E<I>>(t[I], 0)...);
        }
        (std::make_index_sequence<N>{});
    }

    template<std::size_t I>
    static tok_t read(const C &c) { return dec(static_cast<const E<I> &>(get<I>(c))); }

    void check(C &c, const Toks &t, const char *when) {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (one<I>(c, t, when), ...);
        }
        (std::make_index_sequence<N>{});
        if (N) mon::stat("element_reads", static_cast<long>(N));
    }

    template<std::size_t I>
    void one(C &c, const Toks &t, const char *when) {
        using T = E<I>;
        const C &k = c;
        const auto a = dec(static_cast<const T &>(get<I>(c)));
        const auto b = dec(static_cast<const T &>(get<I>(k)));
        if (a != t[I] || b != t[I]) want(false, mon::format("%s, element %zu is %lld (%lld through const) instead of %lld", when, I, a, b, t[I]).c_str());
        if constexpr (is_empty_v<T>) {
            want(std::is_same_v<std::remove_cvref_t<decltype(get<I>(c))>, T>, "an empty element has the wrong type");
        } else {
            want(std::is_same_v<decltype(get<I>(c)), T &>, "access through an lvalue does not yield T &");
            want(std::is_same_v<decltype(get<I>(k)), const T &>, "access through a const lvalue does not yield const T &");
            want(std::is_same_v<decltype(get<I>(std::move(c))), T &&>, "access through an rvalue does not yield T &&");
            want(std::is_same_v<decltype(get<I>(std::move(k))), const T &&>, "access through a const rvalue does not yield const T &&");
            const void *p = address(get<I>(c));
            const void *q = address(get<I>(k));
            auto &&r = get<I>(std::move(c));
            auto &&s = get<I>(std::move(k));
            want(p == q && p == address(r) && p == address(s), "the same element is a different object depending on how it is accessed");
            want(inside(p, &c, sizeof c), "an element lies outside of its tuple");
        }
        want(std::is_same_v<std::tuple_element_t<I, C>, T>, "tuple_element differs from that of std::tuple");
    }

    struct Slot {
        std::unique_ptr<C> c;
        Toks t;
    };

    void history() {
        std::vector<Slot> s;
        trace.clear();
        auto add = [&] {
            Slot x;
            x.c = create(x.t);
            s.push_back(std::move(x));
            trace += " create";
        };
        add();
        check(*s[0].c, s[0].t, "after construction");
        for (int step = 0; step < 30 && !failed; ++step) {
            const std::size_t a = rng.below(s.size()), b = rng.below(s.size());
            const auto op = rng.below(10);
            h = mon::mix(h, op * 64 + a * 8 + b);
            ++ops;
            switch (op) {
            case 0:
                if (s.size() < 4) add();
                break;
            case 1: // copy of a const or non-const original
                if constexpr (copyable)
                    if (s.size() < 4) {
                        Slot x;
                        if (rng.chance(50)) {
                            const C &k = *s[a].c;
                            x.c = std::make_unique<C>(k);
                        } else if (rng.chance(50))
                            x.c = std::make_unique<C>(*s[a].c);
                        else {
                            auto f = [c = *s[a].c]() mutable { return c; };
                            x.c = std::make_unique<C>(f());
                        }
                        x.t = s[a].t;
                        s.push_back(std::move(x));
                        trace += mon::format(" copy%zu", a);
                    }
                break;
            case 2: { // move, the source is dropped
                auto p = std::make_unique<C>(std::move(*s[a].c));
                s[a].c = std::move(p);
                trace += mon::format(" move%zu", a);
                break;
            }
            case 3:
                if constexpr (assignable) {
                    *s[a].c = static_cast<const C &>(*s[b].c);
                    s[a].t = Toks(s[b].t);
                    trace += mon::format(" %zu:=%zu", a, b);
                }
                break;
            case 4:
                if constexpr (assignable)
                    if (a != b) {
                        *s[a].c = std::move(*s[b].c);
                        s[a].t = s[b].t;
                        s.erase(s.begin() + static_cast<long>(b));
                        trace += mon::format(" %zu:=move%zu", a, b);
                    }
                break;
            case 5: // write
            case 6:
                if constexpr (N > 0)
                    with_index<N>(rng.below(N), [&](auto I) {
                        using T = E<I>;
                        if constexpr (!is_empty_v<T>) {
                            tok_t v;
                            auto x = value<T>(rng, &v);
                            if (rng.chance(70))
                                get<I>(*s[a].c) = std::move(x);
                            else {
                                auto &&r = get<I>(std::move(*s[a].c));
                                r = std::move(x);
                            }
                            s[a].t[I] = v;
                            trace += mon::format(" %zu[%d]=%lld", a, int(I), v);
                        }
                    });
                break;
            case 7: // move out of an element, then put a new value there
                if constexpr (N > 0)
                    with_index<N>(rng.below(N), [&](auto I) {
                        using T = E<I>;
                        if constexpr (!is_empty_v<T>) {
                            const long copies = Obj::copies;
                            T out = get<I>(std::move(*s[a].c));
                            want(dec(out) == s[a].t[I], "moving out of an element yields another value");
                            want(Obj::copies == copies, "moving out of an element copies it");
                            if constexpr (std::is_same_v<T, MoveOnly>) want(!get<I>(*s[a].c).p, "moving out of an element leaves its value behind");
                            tok_t v;
                            get<I>(*s[a].c) = value<T>(rng, &v);
                            s[a].t[I] = v;
                            trace += mon::format(" moveout%zu[%d]", a, int(I));
                        }
                    });
                break;
            case 8:
                if (s.size() > 1) {
                    s.erase(s.begin() + static_cast<long>(a));
                    trace += mon::format(" drop%zu", a);
                }
                break;
            case 9:
                if constexpr (assignable)
                    if (a != b) {
                        std::swap(*s[a].c, *s[b].c);
                        std::swap(s[a].t, s[b].t);
                        trace += mon::format(" swap%zu,%zu", a, b);
                    }
                break;
            }
            for (auto &x : s) check(*x.c, x.t, "later");
        }
        mon::evaluated(h, N > 0);
    }

    void run(int histories) {
        want(std::tuple_size_v<C> == N, "tuple_size differs from that of std::tuple");
        const long live = static_cast<long>(registry().live.size()), loud = LoudNil::alive;
        if constexpr ((std::is_default_constructible_v<Ts> && ...)) {
            C c{};
            Toks t{};
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((t[I] = dec(E<I>{})), ...);
            }
            (std::make_index_sequence<N>{});
            trace = " default construction";
            check(c, t, "after default construction");
        }
        if constexpr (N > 1) { // distinct elements are distinct objects
            Toks t;
            auto c = create(t);
            std::vector<const void *> at;
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ([&] { if constexpr (!is_empty_v<E<I>>) at.push_back(address(get<I>(*c))); }(), ...);
            }
            (std::make_index_sequence<N>{});
            for (std::size_t i = 0; i < at.size(); ++i)
                for (std::size_t j = i + 1; j < at.size(); ++j) want(at[i] != at[j], "two elements are one object");
        }
        if constexpr (copyable && N > 0) { // deduced from lvalues and rvalues: own values
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                Toks t{ static_cast<tok_t>(rng.below(Codec<E<I>>::dom))... };
                std::tuple<E<I>...> v{ make<E<I>>(t[I], 0)... };
                pigro::compressed_tuple c{ std::get<I>(v)... };
                want(std::is_same_v<decltype(c), C> || N == 1, "deduction from lvalues does not give the value types");
                if constexpr (std::is_same_v<decltype(c), C>) {
                    ((std::get<I>(v) = make<E<I>>((t[I] + 1) % Codec<E<I>>::dom, 0)), ...);
                    trace = " deduced from lvalues, which then changed";
                    check(c, t, "deduced from lvalues");
                }
            }
            (std::make_index_sequence<N>{});
        }
        for (int i = 0; i < histories && !failed; ++i) history();
        want(static_cast<long>(registry().live.size()) == live, "tracked elements are not destroyed exactly once");
        want(LoudNil::alive == loud, "empty elements are not destroyed as often as they are constructed");
        mon::stat("histories", histories);
        mon::stat("operations", ops);
        mon::sample(mon::format("compressed_tuple<%s>:%s", name.c_str(), trace.substr(0, 400).c_str()));
    }
};

template<class... Ts>
void tuple_case(const char *name, int n) {
    TupleCase<Ts...> c{ name, mon::Rng{ mon::mix(mon::state().seed, hash(name)) } };
    c.run(40 * mon::state().scale);
    (void) n;
}

// reference elements refer to the object given
template<class T>
void reference_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    for (int i = 0; i < 50 * mon::state().scale; ++i) {
        tok_t v, w;
        T x = value<T>(rng, &v);
        T y = value<T>(rng, &w);
        pigro::compressed_tuple<T &, int, Nil<0>, T &> c{ x, 5, Nil<0>{}, y };
        CHECK(address(get<0>(c)) == &x && address(get<3>(c)) == &y && address(get<0>(std::as_const(c))) == &x, "a reference element (%s &) refers to another object", name);
        CHECK((std::is_same_v<decltype(get<0>(c)), T &>), "access to a reference element (%s &) does not yield an lvalue", name);
        CHECK((std::is_same_v<std::tuple_element_t<0, decltype(c)>, T &>), "tuple_element of a reference element (%s &)", name);
        tok_t z;
        get<0>(c) = value<T>(rng, &z);
        CHECK(dec(x) == z && dec(y) == w && get<1>(c) == 5, "writing through a reference element (%s &)", name);
        auto d = c;
        CHECK(address(get<0>(d)) == &x && address(get<3>(d)) == &y, "a copy of a reference element (%s &) refers to another object", name);
        tok_t u;
        y = value<T>(rng, &u);
        CHECK(dec(get<3>(d)) == u && dec(get<3>(c)) == u, "a reference element (%s &) does not see a change", name);
        CHECK(address(get<3>(std::move(d))) == &y, "a reference element (%s &) of an rvalue refers to another object", name);
        mon::evaluated(mon::mix(hash(name), static_cast<std::uint64_t>(v * 1000 + w * 10 + z)), true);
    }
}

inline void conversion_cases() {
    for (int i = -3; i < 60; ++i) {
        pigro::compressed_tuple<long, std::string, double, unsigned char> c{ i, "text", static_cast<float>(i) / 2, 300 + i };
        CHECK(get<0>(c) == i && get<1>(c) == "text" && get<2>(c) == i / 2.0 && get<3>(c) == static_cast<unsigned char>(300 + i), "elements are not converted to their own types (%d)", i);
        auto &[a, b, d, e] = c;
        a = 77;
        b += "!";
        CHECK(get<0>(c) == 77 && get<1>(c) == "text!" && &d == &get<2>(c) && &e == &get<3>(c), "structured bindings do not refer to the elements (%d)", i);
        auto [p, q, r, s] = c;
        p = 1;
        CHECK(get<0>(c) == 77 && q == "text!" && r == d && s == e, "structured bindings by value do not hold the elements (%d)", i);
        mon::evaluated(static_cast<std::uint64_t>(i + 1000), true);
    }
    pigro::compressed_tuple inner{ 3, std::string("in") };
    pigro::compressed_tuple outer{ inner, Nil<0>{}, 'c', inner };
    get<0>(get<0>(outer)) = 4;
    CHECK(get<0>(inner) == 3 && get<0>(get<0>(outer)) == 4 && get<0>(get<3>(outer)) == 3 && get<1>(get<3>(outer)) == "in" && get<2>(outer) == 'c', "nested compressed tuples mix up their elements");
    auto add = [](int a, int b) { return a + b; };
    pigro::compressed_tuple fs{ add, &std::labs, std::function<int(int)>{ [](int x) { return -x; } } };
    CHECK(get<0>(fs)(2, 3) == 5 && get<1>(fs)(-4) == 4 && get<2>(fs)(6) == -6, "functions as elements");
}

} // namespace bm
