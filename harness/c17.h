// transform and any
#pragma once
#include "c14.h"

namespace bm {

struct ProjValue { // a value per element
    template<class T>
    tok_t operator()(const T &e) const { return note(1, 0, e); }
};
struct ProjVarying { // results of a type that depends on the element
    tok_t operator()(const std::string &e) const { return note(1, 0, e); }
    std::string operator()(const int &e) const { return note(1, 0, e), text(static_cast<int>(dec(e))); }
    template<class T>
    bool operator()(const T &e) const { return note(1, 0, e) % 2; }
};
struct ProjPair {
    template<class T>
    std::pair<tok_t, std::string> operator()(const T &e) const { return { note(1, 0, e), text(static_cast<int>(dec(e))) }; }
};
struct ProjTuple1 {
    template<class T>
    std::tuple<tok_t> operator()(const T &e) const { return std::tuple<tok_t>{ note(1, 0, e) }; }
};
struct ProjTuple3 {
    template<class T>
    std::tuple<tok_t, std::tuple<int>, std::string> operator()(const T &e) const { return { note(1, 0, e), std::tuple<int>{ 3 }, "x" }; }
};
struct ProjEmptyTuple {
    template<class T>
    std::tuple<> operator()(const T &e) const { return note(1, 0, e), std::tuple<>{}; }
};
struct ProjArray {
    template<class T>
    std::array<tok_t, 2> operator()(const T &e) const { return { note(1, 0, e), dec(e) }; }
};
struct ProjOptional {
    template<class T>
    std::optional<tok_t> operator()(const T &e) const { return note(1, 0, e) % 2 ? std::optional<tok_t>{ dec(e) } : std::nullopt; }
};
struct ProjConstRef { // the element itself
    template<class T>
    const T &operator()(const T &e) const { return note(1, 0, e), e; }
};
struct ProjMoveOnly {
    template<class T>
    MoveOnly operator()(const T &e) const { return note(1, 0, e), MoveOnly{ static_cast<int>(dec(e)) }; }
};
struct ProjState { // uses state of its own
    std::string s = "a state which is long enough for the heap";
    template<class T>
    std::string operator()(const T &e) const { return note(1, 0, e), s + text(static_cast<int>(dec(e))); }
};

template<std::size_t I, class T, class R, class P>
void element_is_projection(T &t, R &r, P &p, Judge &j, const char *when) {
    using E = std::decay_t<decltype(p(std::get<I>(std::as_const(t))))>;
    using G = std::decay_t<decltype(std::get<I>(r))>;
    if constexpr (!std::is_same_v<E, G>)
        j.fail(mon::format("%s: element %zu of the result is not a projection result", when, I));
    else if (!(p(std::get<I>(std::as_const(t))) == std::get<I>(std::as_const(r))))
        j.fail(mon::format("%s: element %zu of the result is another value", when, I));
}
template<class T, class R, class P, std::size_t... I>
void elements_are_projections(T &t, R &r, P &p, Judge &j, const char *when, std::index_sequence<I...>) {
    (element_is_projection<I>(t, r, p, j, when), ...);
}

template<class T, class P>
void transform_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    constexpr auto n = std::tuple_size_v<T>;
    for (int i = 0; i < 10 * mon::state().scale && j.ok; ++i) {
        T t = make_tuple_of<T>::from(rng);
        auto want = element_wants(t, CN, true);
        auto go = [&](auto &&u, const char *when) {
            P p{};
            const long c0 = Obj::copies, m0 = Obj::moves;
            log().clear();
            auto r = pigro::transform(static_cast<decltype(u)>(u), p);
            // the projections below that hand out elements make the only copies
            if (!std::is_same_v<P, ProjConstRef> && (Obj::copies != c0 || Obj::moves != m0)) j.fail(std::string(when) + ": the input is copied");
            auto calls = log().calls;
            using R = decltype(r);
            if constexpr (std::tuple_size_v<R> != n)
                j.fail(mon::format("the result has %zu elements instead of %zu", std::tuple_size_v<R>, n));
            else {
                if (calls.size() != n) j.fail(mon::format("%s: %zu projections of %zu elements", when, calls.size(), n));
                for (std::size_t k = 0; k < n && j.ok; ++k) {
                    std::string why;
                    if (!same(calls[k], { want[k] }, why)) j.fail(mon::format("%s: projection %zu: %s", when, k, why.c_str()));
                }
                elements_are_projections(t, r, p, j, when, std::make_index_sequence<n>{});
            }
            auto after = element_wants(t, CN, true);
            for (std::size_t k = 0; k < n; ++k)
                if (after[k].tok != want[k].tok) j.fail(std::string(when) + ": the input is modified");
            mon::stat("checks", 3);
            mon::stat("projections", static_cast<long>(calls.size()));
            mon::evaluated(hash(hash(name), want), n > 0);
        };
        go(t, "lvalue");
        go(std::as_const(t), "const lvalue");
        if (i == 0 && j.ok && n) mon::sample(mon::format("%s visited %zu elements, first %s", name, n, show(log().calls[0]).c_str()));
        go(std::move(t), "rvalue");
    }
}

// holds for the elements whose position is in `which`; throws at `fault`
template<class B>
struct Holds {
    const std::vector<const void *> *where;
    std::uint64_t which;
    int fault;
    template<class T>
    B operator()(const T &e) const {
        const auto k = log().calls.size();
        note(1, 0, e);
        std::size_t p = k; // by identity where elements have one
        for (std::size_t i = 0; i < where->size(); ++i)
            if ((*where)[i] == address(e) && i == k) p = i;
        if (static_cast<int>(k) == fault) throw Fault{ 77, 0 };
        return B(which >> p & 1);
    }
};
struct Boolish {
    bool b;
    explicit Boolish(bool x) : b{ x } {}
    operator bool() const { return b; }
};

template<class T, class B>
void any_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    constexpr auto n = std::tuple_size_v<T>;
    const int rounds = n <= 6 ? 1 << n : 64;
    for (int i = 0; i < rounds * mon::state().scale && j.ok; ++i) {
        T t = make_tuple_of<T>::from(rng);
        auto want = element_wants(t, CN, true);
        std::vector<const void *> where;
        for (auto &w : want) where.push_back(w.addr);
        const std::uint64_t which = n <= 6 ? static_cast<std::uint64_t>(i) % (1u << n) : rng.chance(70) ? 1ull << rng.below(n) | (rng.next() & rng.next() & rng.next()) : 0;
        std::size_t first = n;
        for (std::size_t k = n; k-- > 0;)
            if (which >> k & 1) first = k;
        for (int fault : { -1, n && rng.chance(30) ? static_cast<int>(rng.below(n)) : -1 }) {
            const long c0 = Obj::copies, m0 = Obj::moves;
            log().clear();
            bool thrown = false, got = false;
            try {
                auto r = pigro::any(t, Holds<B>{ &where, which, fault });
                static_assert(std::is_convertible_v<decltype(r), bool>);
                got = static_cast<bool>(r);
            } catch (const Fault &f) {
                thrown = f.serial == 77;
            }
            auto calls = log().calls;
            const std::size_t visits = std::min(first < n ? first + 1 : n, fault < 0 ? n : static_cast<std::size_t>(fault) + 1);
            const bool throws = fault >= 0 && static_cast<std::size_t>(fault) <= first && fault < static_cast<int>(n);
            if (thrown != throws) j.fail(throws ? "the predicate's exception does not arrive" : "an unexpected exception");
            if (!throws && got != (first < n)) j.fail(mon::format("pattern %#llx of %zu elements yields %d", static_cast<unsigned long long>(which), n, got));
            if (calls.size() != visits) j.fail(mon::format("pattern %#llx of %zu elements: the predicate was evaluated %zu times instead of %zu", static_cast<unsigned long long>(which), n, calls.size(), visits));
            for (std::size_t k = 0; k < calls.size() && j.ok; ++k) {
                std::string why;
                if (!same(calls[k], { want[k] }, why)) j.fail(mon::format("evaluation %zu: %s", k, why.c_str()));
            }
            if (Obj::copies != c0 || Obj::moves != m0) j.fail("the input is copied");
            mon::stat("predicate_events", static_cast<long>(calls.size()));
            if (first < n && visits < n) mon::stat("short_circuits");
            mon::stat("checks", 3);
            mon::evaluated(mon::mix(mon::mix(hash(hash(name), want), which), static_cast<std::uint64_t>(fault + 2)), n > 0);
        }
        if (i == rounds - 1 && j.ok) mon::sample(mon::format("%s: pattern %#llx", name, static_cast<unsigned long long>(which)));
    }
}

// by default the elements themselves
template<class... E>
void any_default_case(const char *name) {
    Judge j{ name };
    constexpr auto n = sizeof...(E);
    for (unsigned m = 0; m < (1u << n) && j.ok; ++m) {
        std::size_t k = 0;
        std::tuple<E...> t{ [&] { const bool on = m >> k++ & 1;
            if constexpr (std::is_pointer_v<E>) return on ? pool(3) : nullptr;
            else if constexpr (std::is_same_v<E, std::optional<int>>) return on ? std::optional<int>{ 0 } : std::nullopt;
            else if constexpr (std::is_same_v<E, std::shared_ptr<int>>) return on ? std::make_shared<int>(0) : nullptr;
            else if constexpr (std::is_floating_point_v<E>) return on ? E(0.25) : E(0);
            else return static_cast<E>(on ? (sizeof(E) > 4 ? 1ull << 40 : 2) : 0); }()... };
        auto r = pigro::any(t);
        if (static_cast<bool>(r) != (m != 0)) j.fail(mon::format("elements that hold %#x: any yields %d", m, static_cast<bool>(r)));
        mon::stat("checks");
        mon::evaluated(mon::mix(hash(name), m), n > 0);
    }
}

inline void algorithm_facts() {
    CHECK(!pigro::any(std::tuple<>{}), "any of no elements");
    CHECK(!pigro::any(std::tuple<>{}, [](const auto &) { return true; }), "any of no elements with a predicate");
    CHECK((std::is_same_v<decltype(pigro::transform(std::tuple<>{}, ProjValue{})), std::tuple<>>), "transform of no elements");
    std::array a{ 0, 0, 3 };
    CHECK(pigro::any(a) && !pigro::any(std::pair{ 0, false }), "any of an array or pair");
    auto r = pigro::transform(std::pair{ 1, 2 }, [](int x) { return std::pair{ x, x }; });
    CHECK((std::is_same_v<decltype(r), std::tuple<std::pair<int, int>, std::pair<int, int>>>), "transform of a pair to pairs");
    auto s = pigro::transform(std::tuple{ 1 }, [](int x) { return std::pair{ x, x + 1 }; });
    CHECK(std::tuple_size_v<decltype(s)> == 1, "transform of one element to a pair");
    auto u = pigro::transform(std::tuple{ 4 }, [](int x) { return std::tuple{ x, x + 1 }; });
    CHECK(std::tuple_size_v<decltype(u)> == 1, "transform of one element to a tuple");
    mon::evaluated(70001, true);
}

} // namespace bm
