// uncaptured
#pragma once
#include "c14.h"

namespace bm {

// how the callable takes what is uncaptured; Bumps changes the last argument if it can
struct Bumps {
    template<class... A>
    tok_t operator()(A &&...a) const {
        auto r = note(1, 0, a...);
        if constexpr (sizeof...(A) > 0) bump(std::get<sizeof...(A) - 1>(std::forward_as_tuple(a...)));
        return r;
    }
    template<class T>
    static void bump(T &v) {
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, Obj> || std::is_same_v<T, std::string>) v = make<T>((dec(v) + 1) % 9, 0);
    }
};

template<class... V>
struct Values {
    std::array<tok_t, sizeof...(V) + 1> t{};
    template<std::size_t... I, class Use>
    auto with(mon::Rng &rng, std::index_sequence<I...>, Use use) {
        return use(value<V>(rng, &t[I])...);
    }
};
template<class F>
void value_wants(std::vector<Want> &w, const tok_t *t, std::size_t n) {
    for (std::size_t k = 0; k < n; ++k) w.push_back({ -1, nullptr, t[k] });
}

// Split: how many of the values are given in the first of two chained uncaptured()
template<std::size_t Split, class F, class... V>
struct Build {
    template<class... W>
    static auto all(F f, W... v) { return pigro::uncaptured(v...) >> f; }
    template<class... W>
    static auto chained(F f, W... v) {
        return split(f, std::tuple<W...>{ v... }, std::make_index_sequence<Split>{}, std::make_index_sequence<sizeof...(V) - Split>{});
    }
    template<class T, std::size_t... I, std::size_t... J>
    static auto split(F f, T t, std::index_sequence<I...>, std::index_sequence<J...>) {
        return pigro::uncaptured(std::get<I>(t)...) >> (pigro::uncaptured(std::get<Split + J>(t)...) >> f);
    }
};

template<class L, std::size_t Split, class F, class... A>
struct Uncaptured;
template<class... V, std::size_t Split, class F, class... A>
struct Uncaptured<list<V...>, Split, F, A...> {
    static void run(const char *name) {
        mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
        Judge j{ name };
        constexpr auto n = sizeof...(V);
        const long live = static_cast<long>(registry().live.size()), loud = LoudNil::alive;
        for (int i = 0; i < 12 * mon::state().scale && j.ok; ++i) {
            Values<V...> vals;
            if (i % 2 || Split == 0 || Split >= n)
                vals.with(rng, std::index_sequence_for<V...>{}, [&](auto... v) { auto g = Build<Split, F, V...>::all(F{}, v...); use(name, j, g, vals.t.data(), rng, i); return 0; });
            else
                vals.with(rng, std::index_sequence_for<V...>{}, [&](auto... v) { auto g = Build<Split, F, V...>::chained(F{}, v...); use(name, j, g, vals.t.data(), rng, i); return 0; });
        }
        if (static_cast<long>(registry().live.size()) != live || LoudNil::alive != loud) j.fail("tracked objects are not destroyed exactly once");
    }
    // calls `g` and expects the values t[0..n) behind the arguments
    template<class G>
    static std::vector<Seen> once(Judge &j, G &&g, const tok_t *t, mon::Rng &rng, const char *when, int category, const char *name) {
        Args<A...> args{ rng };
        auto want = args.wants();
        if (std::is_same_v<F, Bumps>)
            for (auto &w : want) w.cat = -1; // it names its parameters
        constexpr bool empties[] = { is_empty_v<V>..., false };
        for (std::size_t k = 0; k < sizeof...(V); ++k) want.push_back({ empties[k] || std::is_same_v<F, Bumps> ? -1 : category, nullptr, t[k] });
        const long c0 = Obj::copies, m0 = Obj::moves;
        log().clear();
        if constexpr (std::is_void_v<decltype(args.call(static_cast<G &&>(g)))>)
            args.call(static_cast<G &&>(g));
        else {
            auto &&r = args.call(static_cast<G &&>(g));
            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(r)>, MoveOnly>) {
                if (dec(r) != 7) j.fail("the result is not passed through");
            } else if constexpr (!std::is_same_v<F, Overloaded>) {
                auto h = mon::mix(5, static_cast<std::uint64_t>(log().who.empty() ? 0 : log().who[0]));
                if (log().calls.size() == 1)
                    for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
                if (static_cast<tok_t>(h >> 16) != r) j.fail("the result is not passed through");
            }
        }
        if (!std::is_same_v<F, Bumps> && (Obj::copies != c0 || Obj::moves != m0)) j.fail("a call copies or moves its arguments");
        j.one_call(want, when);
        mon::stat("calls");
        mon::evaluated(mon::mix(hash(hash(name), want), hash(when)), sizeof...(V) > 0);
        return log().calls.empty() ? std::vector<Seen>{} : log().calls[0];
    }
    template<class G>
    static void use(const char *name, Judge &j, G &g, const tok_t *start, mon::Rng &rng, int i) {
        constexpr auto n = sizeof...(V);
        std::vector<tok_t> t(start, start + n);
        t.push_back(0);
        auto next = [&](std::vector<tok_t> &u) { // what Bumps does to the last value
            if constexpr (std::is_same_v<F, Bumps> && n > 0) {
                using L = std::tuple_element_t<n - 1, std::tuple<V...>>;
                if constexpr (std::is_same_v<L, int> || std::is_same_v<L, Obj> || std::is_same_v<L, std::string>) u[n - 1] = (u[n - 1] + 1) % 9, mon::stat("modifications");
            }
        };
        auto first = once(j, g, t.data(), rng, "call", 0, name);
        next(t);
        if (!j.ok) return;
        constexpr bool empties[] = { is_empty_v<V>..., false };
        for (std::size_t k = 0; k < n; ++k)
            if (!empties[k] && !inside(first[sizeof...(A) + k].addr, &g, sizeof g)) j.fail("a value is not stored with the callable");
        auto copy = std::as_const(g);
        auto u = t;
        for (int r = 0; r < 3 && j.ok; ++r) {
            once(j, g, t.data(), rng, "later call", 0, name);
            next(t);
        }
        for (int r = 0; r < 2 && j.ok; ++r) {
            auto seen = once(j, copy, u.data(), rng, "call of a copy", 0, name);
            next(u);
            for (std::size_t k = 0; k < n && j.ok; ++k)
                if (!empties[k] && !inside(seen[sizeof...(A) + k].addr, &copy, sizeof copy)) j.fail("a copy shares a value with the original");
        }
        if constexpr (!std::is_same_v<F, Mutating>)
            if (j.ok) once(j, std::as_const(copy), u.data(), rng, "call of a const callable", CN, name);
        if (j.ok) once(j, g, t.data(), rng, "call after that of a copy", 0, name);
        if (i == 0 && j.ok) mon::sample(mon::format("%s received %s", name, show(log().calls[0]).c_str()));
    }
};

inline void uncapture_facts() {
    using pigro::uncaptured;
    auto f = uncaptured(1, std::string("abc"), 2.5) >> [](char c, int i, const std::string &s, double d) { return std::string(1, c) + std::to_string(i) + s + std::to_string(d); };
    CHECK(f('x') == "x1abc2.500000", "three values behind one argument");
    auto g = uncaptured(1, 2, 3, 4, 5, 6, 7, 8, 9, 10) >> [](auto... v) { long r = 0; ((r = r * 11 + v), ...); return r; };
    long want = 0;
    for (long v = 1; v <= 10; ++v) want = want * 11 + v;
    CHECK(g() == want, "ten values of one type");
    auto h = uncaptured(10) >> (uncaptured(20) >> (uncaptured(30) >> [](int a, int b, int c, int d) { return a + 100 * b + 10000 * c + 1000000 * d; }));
    CHECK(h(1) == 1 + 1000 + 200000 + 30000000, "chained");
    auto m = uncaptured(5) >> [n = 0](int &v) mutable { ++n; v *= 2; return v + n; };
    auto m2 = m;
    CHECK(m() == 11 && m() == 22 && m() == 43 && m2() == 11, "a non-const callable changes its value for later calls");
    CHECK((std::is_invocable_v<decltype(m) &> && !std::is_invocable_v<decltype(m) &, int>), "callable with what the callable does not accept");
    auto c = uncaptured(5, 6) >> [](int &v, int w) { v += w; return v; };
    CHECK(c() == 11 && c() == 17, "a value is changed for later calls");
    // the values given are copied
    std::string s = "one";
    auto k = uncaptured(s, std::ref(s)) >> [](const std::string &a, std::reference_wrapper<std::string> b) { return a + b.get(); };
    s = "two";
    CHECK(k() == "onetwo", "values are stored, references by std::ref");
    auto p = uncaptured(std::make_shared<int>(3)) >> [](auto &&a, const std::shared_ptr<int> &q) { return a + *q + static_cast<int>(q.use_count()); };
    CHECK(p(1) == 5, "the shared pointer is stored once");
    auto e = uncaptured(Nil<0>{}, Nil<0>{}, 7, Nil<0>{}) >> [](Nil<0>, Nil<0>, int v, Nil<0>) { return v; };
    CHECK(e() == 7, "repeated empty values");
    auto v = uncaptured(std::vector<int>{ 1, 2 }) >> [](int add, std::vector<int> &x) { x.push_back(add); return x.size(); };
    CHECK(v(3) == 3 && v(4) == 4, "a stored vector grows");
    auto ref = uncaptured(3) >> [](int &x) -> int & { return x; };
    ref() = 44;
    CHECK(ref() == 44, "references to a stored value are passed through");
    std::function<int(int)> fn = uncaptured(4) >> [](int a, int b) { return a * 10 + b; };
    auto fn2 = fn;
    CHECK(fn(1) == 14 && fn2(2) == 24, "stored in std::function");
    auto none = uncaptured() >> [](int x) { return x; };
    CHECK(none(3) == 3, "no values");
    mon::evaluated(23000, true);
}

} // namespace bm
