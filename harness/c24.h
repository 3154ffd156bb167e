// regularized_void, unregularized_void, optional<regular_void>
#pragma once
#include "c14.h"

namespace bm {

template<class R>
struct Gives {
    std::string payload = "some state that is on the heap";
    template<class... A>
    R operator()(const A &...a) const {
        const tok_t h = note(21, static_cast<long>(payload.size()), a...);
        if constexpr (!std::is_void_v<R>) return make<R>(h % Codec<R>::dom, 0);
    }
};
template<class R>
struct GivesCounting {
    long n = 0;
    template<class... A>
    R operator()(const A &...a) {
        const tok_t h = note(22, n++, a...);
        if constexpr (!std::is_void_v<R>) return make<R>(h % Codec<R>::dom, 0);
    }
};
template<class R>
struct GivesStateless {
    template<class... A>
    R operator()(const A &...a) const {
        const tok_t h = note(23, 0, a...);
        if constexpr (!std::is_void_v<R>) return make<R>(h % Codec<R>::dom, 0);
    }
};

template<class F, class R, class... A>
void void_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    using pigro::regular_void, pigro::regularized_void, pigro::unregularized_void;
    for (int i = 0; i < 10 * mon::state().scale && j.ok; ++i) {
        F f{};
        auto reg = regularized_void(f);
        auto unreg = unregularized_void(f);
        auto back = unregularized_void(regularized_void(f));
        auto there = regularized_void(unregularized_void(regularized_void(f)));
        auto go = [&](auto &g, auto expected, long round, const char *when) {
            using E = typename decltype(expected)::type;
            Args<A...> args{ rng };
            auto want = args.wants();
            for (auto &w : want) w.cat = -1, w.addr = nullptr;
            log().clear();
            using R2 = std::remove_cvref_t<decltype(args.call(g))>;
            if (!std::is_same_v<R2, std::remove_cvref_t<E>>) {
                j.fail(mon::format("%s: the result has another type", when));
                return;
            }
            if constexpr (std::is_same_v<R2, std::remove_cvref_t<E>>) {
                if constexpr (std::is_void_v<R2> || std::is_same_v<R2, regular_void>)
                    args.call(g);
                else {
                    const tok_t got = dec(args.call(g));
                    auto h = mon::mix(5, static_cast<std::uint64_t>(log().who.empty() ? 0 : log().who[0]));
                    if (log().calls.size() == 1)
                        for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
                    if (got != static_cast<tok_t>(h >> 16) % Codec<R>::dom) j.fail(mon::format("%s: another result", when));
                }
            }
            j.one_call(want, when);
            if (j.ok && !log().state.empty() && std::is_same_v<F, GivesCounting<R>> && log().state[0] != round) j.fail(mon::format("%s: the callable's state is %ld in call %ld", when, log().state[0], round));
            mon::stat("calls");
            if (std::is_void_v<R>) mon::stat("void_calls");
            mon::evaluated(mon::mix(hash(hash(name), want), hash(when)), true);
        };
        using Unit = std::conditional_t<std::is_void_v<R>, regular_void, R>;
        using Void = std::conditional_t<std::is_same_v<R, regular_void>, void, R>;
        for (long r = 0; r < 3 && j.ok; ++r) {
            go(reg, std::type_identity<Unit>{}, r, "regularized");
            go(unreg, std::type_identity<Void>{}, r, "unregularized");
            go(back, std::type_identity<Void>{}, r, "unregularized after regularized");
            go(there, std::type_identity<Unit>{}, r, "regularized after that");
        }
        auto copy = reg;
        go(copy, std::type_identity<Unit>{}, 3, "a copy");
        go(reg, std::type_identity<Unit>{}, 3, "after the call of a copy");
        if (i == 0 && j.ok) mon::sample(mon::format("%s received %s", name, show(log().calls[0]).c_str()));
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

struct EmptyResult {};
struct FinalEmptyResult final {};
struct LikeUnit {
    constexpr auto operator<=>(const LikeUnit &) const = default;
};

// random histories of two optionals, against std::optional<std::monostate>
inline void optional_histories(mon::Rng &rng) {
    using O = std::optional<pigro::regular_void>;
    using M = std::optional<std::monostate>;
    for (int h = 0; h < 200 * mon::state().scale; ++h) {
        O a[3];
        M b[3];
        std::uint64_t id = 24;
        for (int i = 0; i < 12; ++i) {
            const auto x = rng.below(3), y = rng.below(3), what = rng.below(9);
            id = mon::mix(id, what * 9 + x * 3 + y);
            switch (what) {
            case 0: a[x] = pigro::regular_void{}, b[x] = std::monostate{}; break;
            case 1: a[x] = a[y], b[x] = b[y]; break;
            case 2: a[x] = O{}, b[x] = M{}; break;
            case 3: a[x] = O{ pigro::regular_void{} }, b[x] = M{ std::monostate{} }; break;
            case 4: {
                O c = std::move(a[x]);
                a[x] = std::move(a[y]), a[y] = std::move(c);
                std::swap(b[x], b[y]);
                break;
            }
            case 5: a[x] = std::move(a[y]), b[x] = b[y]; break;
            case 6: {
                O c{ a[y] };
                a[x] = c, b[x] = b[y];
                break;
            }
            case 7: {
                pigro::regular_void unit;
                auto &r = (a[x] = unit);
                CHECK(static_cast<bool>(r), "assigning a unit value");
                b[x] = std::monostate{};
                break;
            }
            default: break;
            }
            for (auto p = 0; p < 3; ++p) {
                CHECK(static_cast<bool>(a[p]) == b[p].has_value(), "an optional unit value is %s", static_cast<bool>(a[p]) ? "not empty although nothing was assigned" : "empty although one was assigned");
                if (a[p]) CHECK(*a[p] == pigro::regular_void{} && *std::as_const(a[p]) == pigro::regular_void{}, "the unit value compares unequal");
                for (auto q = 0; q < 3; ++q) {
                    CHECK((a[p] == a[q]) == (b[p] == b[q]), "optional unit values (%d, %d) compare %s", static_cast<bool>(a[p]), static_cast<bool>(a[q]), a[p] == a[q] ? "equal" : "unequal");
                    CHECK((a[p] != a[q]) == (b[p] != b[q]), "optional unit values (%d, %d) compare %s with !=", static_cast<bool>(a[p]), static_cast<bool>(a[q]), a[p] != a[q] ? "unequal" : "equal");
                }
                const pigro::regular_void unit;
                CHECK((a[p] == unit) == b[p].has_value() && (a[p] != unit) != b[p].has_value(), "comparing with a unit value");
            }
            mon::stat("optional_steps");
            mon::evaluated(mon::mix(id, static_cast<std::uint64_t>(a[0] ? 1 : 0) + (a[1] ? 2 : 0) + (a[2] ? 4 : 0)), true);
        }
    }
    pigro::regular_void u, v;
    CHECK(u == v && !(u != v) && !(u < v) && u <= v && u >= v && !(u > v), "unit values are all equal");
    auto throws = pigro::regularized_void([](int x) { if (x) throw Fault{ 24, 0 }; });
    bool thrown = false;
    try {
        throws(1);
    } catch (const Fault &f) {
        thrown = f.serial == 24;
    }
    CHECK(thrown && throws(0) == u, "an exception of a regularized function");
    int calls = 0;
    auto lambda = pigro::regularized_void([&] { ++calls; });
    CHECK(lambda() == u && calls == 1, "a regularized lambda");
    auto same = pigro::unregularized_void(pigro::regularized_void([&](int x, const std::string &s) { ++calls; return s + std::to_string(x); }));
    CHECK(same(3, std::string("v")) == "v3" && calls == 2, "an unregularized regularized function");
    CHECK((std::is_void_v<decltype(pigro::unregularized_void([] { return pigro::regular_void{}; })())>), "an unregularized function returning a unit value");
    CHECK(*pigro::regularized_void([] { return std::make_unique<int>(4); })() == 4, "a move-only result");
    // results of other types without content are results
    auto empty = [](auto r, const char *what) {
        using R = decltype(r);
        auto f = [] { return R{}; };
        auto g = pigro::regularized_void(f);
        auto h = pigro::unregularized_void(f);
        auto i = pigro::unregularized_void(pigro::regularized_void(f));
        CHECK((std::is_same_v<decltype(g()), R> && std::is_same_v<decltype(h()), R> && std::is_same_v<decltype(i()), R>), "a result of type %s", what);
    };
    empty(EmptyResult{}, "EmptyResult"), empty(FinalEmptyResult{}, "FinalEmptyResult"), empty(LikeUnit{}, "LikeUnit"), empty(std::monostate{}, "std::monostate"), empty(std::in_place, "std::in_place_t"), empty(nullptr, "std::nullptr_t"), empty(std::tuple<>{}, "std::tuple<>"), empty(std::ignore, "std::ignore"), empty(std::true_type{}, "std::true_type"), empty(std::optional<pigro::regular_void>{}, "an optional unit value"), empty(std::tuple<pigro::regular_void>{}, "a tuple of a unit value"), empty(std::array<char, 0>{}, "an empty array"), empty([] {}, "a lambda expression");
}

} // namespace bm
