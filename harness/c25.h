// Compositions of building blocks, with and without faults.
#pragma once
#include "c14.h"

#include <pigro/lazy.h>

#include <list>

namespace bm {

// ---------------------------------------------------------------- callables at the bottom

// each reports its arguments and state, and may throw
struct Faulty { // counts its calls
    long n = 0;
    template<class... A>
    tok_t operator()(A &&...a) {
        const auto r = note(3, n++, std::forward<A>(a)...);
        faultable(0);
        return r;
    }
};
struct FaultyHeap { // with state that can throw when copied
    Heap h{ 5 };
    long n = 0;
    template<class... A>
    tok_t operator()(A &&...a) {
        const auto r = note(3, h.get() == 5 ? n++ : -1, std::forward<A>(a)...);
        faultable(0);
        return r;
    }
};
struct FaultyCostly { // with state that is always copied
    Costly h{ 5 };
    long n = 0;
    template<class... A>
    tok_t operator()(A &&...a) {
        const auto r = note(3, h.token() == 5 ? n++ : -1, std::forward<A>(a)...);
        faultable(0);
        return r;
    }
};
struct FaultyConst { // stateless
    template<class... A>
    tok_t operator()(A &&...a) const {
        const auto r = note(1, 0, std::forward<A>(a)...);
        faultable(0);
        return r;
    }
};
struct Never {};
struct OnlyNever {
    tok_t operator()(Never) const { return -5; }
};
struct AnyNever {
    template<class... A>
    requires(std::is_same_v<std::remove_cvref_t<A>, Never> || ...) tok_t operator()(A &&...) const { return -5; }
};
struct OnlyNever2 {
    tok_t operator()(Never, int) const { return -6; }
};
struct OnlyNever3 {
    tok_t operator()(int, int, Never) const { return -7; }
};
struct OnlyNeverState {
    std::string s = "not called, but stored; and long enough for the heap";
    tok_t operator()(Never) { return -5; }
};
// plumbing by hand between blocks
template<class G>
struct ThroughEnumerate {
    G g;
    template<class... A>
    tok_t operator()(A &&...a) {
        return pigro::enumerate_pack([&](auto &&...items) {
            std::size_t k = 0;
            const bool in_order = ((items.index == k++) && ... && true);
            if (!in_order) mon::violation("items out of order");
            return g(static_cast<decltype(items.value)>(items.value)...);
        },
          std::forward<A>(a)...);
    }
};
template<class G>
struct ThroughApply {
    G g;
    template<class... A>
    tok_t operator()(A &&...a) { return pigro::apply(g, std::forward_as_tuple(std::forward<A>(a)...)); }
};
template<class G>
struct ThroughView { // copies its arguments into a compressed tuple
    G g;
    template<class... A>
    tok_t operator()(A &&...a) {
        pigro::compressed_tuple<std::remove_cvref_t<A>...> t{ std::forward<A>(a)... };
        return pigro::apply(g, pigro::to_tuple(t));
    }
};
template<class G>
struct ThroughSelf {
    G g;
    template<class Self, class... A>
    tok_t operator()(Self &&, A &&...a) { return g(std::forward<A>(a)...); }
};
template<class G>
ThroughEnumerate(G) -> ThroughEnumerate<G>;
template<class G>
ThroughApply(G) -> ThroughApply<G>;
template<class G>
ThroughView(G) -> ThroughView<G>;
template<class G>
ThroughSelf(G) -> ThroughSelf<G>;

// ---------------------------------------------------------------- faults

// which of the kinds of throw_as() is being handled; -1: none of them
inline int kind_in_flight(long &serial) {
    try {
        throw;
    } catch (const Fault &f) {
        serial = f.serial;
    } catch (...) {
        serial = -1;
        return -1;
    }
    try {
        throw;
    } catch (const As<std::runtime_error, Fault> &e) { return std::string(e.what()) == "runtime" ? 0 : -1;
    } catch (const As<std::bad_alloc, Fault> &) { return 1;
    } catch (const As<std::bad_optional_access, Fault> &) { return 2;
    } catch (const As<std::bad_variant_access, Fault> &) { return 3;
    } catch (const As<std::bad_function_call, Fault> &) { return 4;
    } catch (const As<std::logic_error, Fault> &e) { return std::string(e.what()) == "logic" ? 5 : -1;
    } catch (const As<std::out_of_range, Fault> &e) { return std::string(e.what()) == "range" ? 6 : -1;
    } catch (const As<std::exception, Fault> &) { return 7;
    } catch (const Fault &) { return 8; }
}
// runs `go` with the n-th event from now failing; whether it threw
template<class Go>
bool with_fault(Judge &j, long n, bool copies, Go go, const char *when) {
    auto &h = hooks();
    h.fault_in = n, h.quiet = false, h.copies_throw = copies;
    const long fired = h.fired;
    bool threw = false, own = true;
    long serial = 0;
    int kind = 0;
    auto off = [&] { h.fault_in = -1, h.quiet = true, h.copies_throw = false; };
    try {
        go();
        off();
    } catch (...) {
        off();
        threw = true;
        kind = kind_in_flight(serial);
        own = kind == static_cast<int>(h.serial % 9) && serial == h.serial;
    }
    mon::stat("checks");
    if (threw && !own) j.fail(mon::format("%s: another exception arrives than the one thrown", when));
    if (threw != (h.fired != fired)) j.fail(mon::format("%s: %s", when, threw ? "an exception nobody threw" : "the exception thrown is lost"));
    if (threw) mon::stat("exceptions"), mon::stat(mon::format("exceptions_kind_%d", kind).c_str());
    return threw;
}

// ---------------------------------------------------------------- compositions

// make() composes; it passes the tokens `front` before and `back` behind the arguments to what is at the bottom
template<bool Faults, class... A, class Make>
void composed_case(const char *name, Make make, std::vector<tok_t> front, std::vector<tok_t> back, bool counts) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    using B = decltype(make());
    const long live = static_cast<long>(registry().live.size()), loud = LoudNil::alive;
    for (int round = 0; round < 6 * mon::state().scale && j.ok; ++round) {
        struct One {
            B b;
            long n;
        };
        std::list<One> all;
        auto born = [&](auto go, const char *when) { // adds an object, possibly with a fault on the way
            if (Faults && rng.chance(30))
                with_fault(j, static_cast<long>(rng.below(4)), true, go, when);
            else
                go();
        };
        all.push_back({ make(), 0 });
        for (int step = 0; step < 40 && j.ok; ++step) {
            auto it = all.begin();
            std::advance(it, static_cast<long>(rng.below(all.size())));
            const auto what = rng.below(12);
            if (what == 0 && all.size() < 4)
                born([&] { all.push_back({ make(), 0 }); }, "composing");
            else if (what == 1 && all.size() < 4) {
                born([&] { all.push_back({ std::as_const(it->b), it->n }); }, "copying");
                mon::stat("copies");
            } else if (what == 2 && all.size() > 1)
                all.erase(it);
            else if (what == 3 && all.size() < 4) {
                born([&] { all.push_back({ std::move(it->b), it->n }); }, "moving");
                all.erase(it);
                if (j.ok && all.empty()) all.push_back({ make(), 0 });
            } else {
                Args<A...> args{ rng };
                std::vector<Want> want;
                for (auto t : front) want.push_back({ -1, nullptr, t });
                for (auto w : args.wants()) want.push_back({ -1, nullptr, w.tok });
                for (auto t : back) want.push_back({ -1, nullptr, t });
                log().clear();
                tok_t got = BAD;
                bool threw = false;
                auto go = [&] { got = args.call(it->b); };
                const bool copy_fault = rng.chance(30);
                if (Faults && rng.chance(45))
                    threw = with_fault(j, static_cast<long>(copy_fault ? rng.below(3) : 0), copy_fault, go, "calling");
                else
                    go();
                const auto calls = log().calls.size();
                if (threw && calls == 0)
                    mon::stat("faults_before_the_call");
                else {
                    j.one_call(want, threw ? "call that throws" : "call");
                    if (j.ok && log().state[0] != (counts ? it->n : 0)) j.fail(mon::format("the callable's state is %ld instead of %ld", log().state[0], counts ? it->n : 0));
                    if (j.ok && !threw) {
                        auto h = mon::mix(5, static_cast<std::uint64_t>(log().who[0]));
                        for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
                        if (static_cast<tok_t>(h >> 16) != got) j.fail("the result is not passed through");
                    }
                    it->n += static_cast<long>(calls);
                }
                mon::stat("calls");
                mon::evaluated(mon::mix(mon::mix(hash(hash(name), want), static_cast<std::uint64_t>(it->n)), threw), Faults ? threw : front.size() + back.size() + sizeof...(A) > 0);
                if (round == 0 && step == 5 && j.ok) mon::sample(mon::format("%s: the callable received %s", name, log().calls.empty() ? "nothing" : show(log().calls[0]).c_str()));
            }
        }
    }
    if (static_cast<long>(registry().live.size()) != live || LoudNil::alive != loud) j.fail("tracked objects are not destroyed exactly once");
}

struct Tally { // counts its calls
    long n = 0;
    template<class... A>
    tok_t operator()(const A &...a) { return note(3, n++, a...); }
};
struct TallyConst {
    template<class... A>
    tok_t operator()(const A &...a) const { return note(1, 0, a...); }
};
// a few calls of one composition and its copies
template<class Make>
void light_case(const char *name, Make compose, std::vector<tok_t> front, std::vector<tok_t> back, bool counts) {
    Judge j{ name };
    auto b = compose();
    int x = make<int>(3, 0);
    const std::string y = make<std::string>(2, 0);
    auto check = [&](auto &&call, std::vector<Want> args, long n, const char *when) {
        std::vector<Want> want;
        for (auto t : front) want.push_back({ -1, nullptr, t });
        for (auto w : args) want.push_back(w);
        for (auto t : back) want.push_back({ -1, nullptr, t });
        log().clear();
        const tok_t got = call();
        j.one_call(want, when);
        if (!j.ok) return;
        if (log().state[0] != (counts ? n : 0)) j.fail(mon::format("%s: the callable's state is %ld instead of %ld", when, log().state[0], counts ? n : 0));
        auto h = mon::mix(5, static_cast<std::uint64_t>(log().who[0]));
        for (auto &s : log().calls[0]) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
        if (static_cast<tok_t>(h >> 16) != got) j.fail(mon::format("%s: the result is not passed through", when));
        mon::stat("calls");
        mon::evaluated(mon::mix(mon::mix(hash(name), hash(when)), static_cast<std::uint64_t>(n)), true);
    };
    check([&] { return b(x, y); }, { { -1, nullptr, 3 }, { -1, nullptr, 2 } }, 0, "the first call");
    check([&] { return b(x); }, { { -1, nullptr, 3 } }, 1, "a call with one argument");
    auto c = b;
    mon::stat("copies");
    check([&] { return c(); }, {}, 2, "a call of a copy");
    check([&] { return b(y, 1, x); }, { { -1, nullptr, 2 }, { -1, nullptr, 1 }, { -1, nullptr, 3 } }, 2, "a call of the original after one of its copy");
    check([&] { return c(x, x); }, { { -1, nullptr, 3 }, { -1, nullptr, 3 } }, 3, "another call of the copy");
    auto d = std::move(b);
    check([&] { return d(x); }, { { -1, nullptr, 3 } }, 3, "a call of what it was moved to");
    if constexpr (std::is_copy_assignable_v<decltype(b)>) {
        b = c;
        mon::stat("copies");
        check([&] { return b(x, y); }, { { -1, nullptr, 3 }, { -1, nullptr, 2 } }, 4, "a call after a copy assignment");
    }
}

// ---------------------------------------------------------------- a lazy function of a composed callable

inline int composed_src[4];
template<int I>
struct ComposedSrc {
    int operator()() const { return make<int>(composed_src[I], 0); }
};
template<int N, class Make>
void lazy_composed_case(const char *name, Make make, std::vector<tok_t> front, std::vector<tok_t> back, bool counts) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int &s : composed_src) s = 0;
    const long live = static_cast<long>(registry().live.size());
    for (int round = 0; round < 4 * mon::state().scale && j.ok; ++round) {
        auto f = [&]<std::size_t... I>(std::index_sequence<I...>) { return pigro::lazy(make(), ComposedSrc<static_cast<int>(I)>{}...); }
        (std::make_index_sequence<N>{});
        std::array<int, N + 1> last{};
        long n = 0;
        tok_t result = BAD;
        for (int step = 0; step < 60 && j.ok; ++step) {
            if (rng.chance(60)) composed_src[rng.below(4)] = static_cast<int>(rng.below(10));
            bool changed = step == 0;
            for (int i = 0; i < N; ++i) changed = changed || last[static_cast<std::size_t>(i)] != composed_src[i];
            log().clear();
            const tok_t got = f();
            if (changed) {
                std::vector<Want> want;
                for (auto t : front) want.push_back({ -1, nullptr, t });
                for (int i = 0; i < N; ++i) want.push_back({ -1, nullptr, composed_src[i] });
                for (auto t : back) want.push_back({ -1, nullptr, t });
                j.one_call(want, "evaluation");
                if (j.ok && log().state[0] != (counts ? n : 0)) j.fail("the callable's state is lost");
                auto h = mon::mix(5, static_cast<std::uint64_t>(log().who.empty() ? 0 : log().who[0]));
                for (auto &w : want) h = mon::mix(h, static_cast<std::uint64_t>(w.tok));
                result = static_cast<tok_t>(h >> 16);
                ++n;
            } else if (!log().calls.empty())
                j.fail("evaluated although nothing changed");
            if (j.ok && got != result) j.fail("the result is not that of the current values");
            std::copy(composed_src, composed_src + N, last.begin());
            mon::stat("calls"), mon::stat(changed ? "lazy_evaluations" : "cache_hits");
            mon::evaluated(mon::mix(mon::mix(hash(name), static_cast<std::uint64_t>(result)), changed), changed);
        }
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

// ---------------------------------------------------------------- blocks within blocks of their own kind

struct Digits { // the digits of what it receives
    template<class... A>
    requires(std::is_same_v<std::remove_cvref_t<A>, int> &&...) long operator()(const A &...a) const {
        long r = 0;
        ((r = r * 10 + a), ...);
        return r;
    }
};
struct SelfDigits {
    template<class Self, class... A>
    long operator()(Self &&, const A &...a) const { return Digits{}(a...); }
};
struct TakesNil {
    long operator()(Nil<0>, int a) const { return a; }
    long operator()(int a, Nil<0>) const { return a; }
    long operator()(Nil<0>, Nil<0>, int a) const { return a; }
    long operator()(int a, Nil<0>, Nil<0>) const { return a; }
    long operator()(Nil<0>, int a, Nil<0>) const { return a; }
};
inline void compose_facts() {
    using namespace pigro;
    Never never;
    // uncaptured values of one type, with other blocks between
    auto a = uncaptured(1) >> overload{ uncaptured(2) >> Digits{}, OnlyNever{} };
    CHECK(a(3) == 312 && a(3, 4) == 3412, "uncaptured values around an overload set");
    auto b = uncaptured(1) >> recursive{ uncaptured(2) >> SelfDigits{} };
    CHECK(b(3) == 312 && std::as_const(b)() == 12, "uncaptured values around a self-passing function");
    auto c = uncaptured(1, 5) >> overload{ uncaptured(2, 7) >> Digits{}, OnlyNever{} };
    CHECK(c(3) == 31527, "several uncaptured values around an overload set");
    auto d = uncaptured(1) >> overload{ OnlyNever{}, uncaptured(2) >> overload{ OnlyNeverState{}, uncaptured(3) >> Digits{} } };
    CHECK(d(4) == 4123 && d() == 123, "uncaptured values around nested overload sets");
    auto e = overload{ uncaptured(2) >> Digits{}, uncaptured(3) >> OnlyNever{}, uncaptured(2, 2) >> AnyNever{} };
    CHECK(e(1) == 12 && e(never) == -5, "alternatives with uncaptured values of one type");
    auto f = uncaptured(Nil<0>{}) >> overload{ uncaptured(Nil<0>{}) >> TakesNil{}, OnlyNever{} };
    CHECK(f(4) == 4 && sizeof f == 1, "empty uncaptured values around an overload set");
    auto g = uncaptured(std::string("x")) >> recursive{ uncaptured(std::string("yy")) >> [](auto &&, int n, const std::string &p, const std::string &q) { return std::to_string(n) + p + q; } };
    auto g2 = g;
    CHECK(g(1) == "1xyy" && g2(2) == "2xyy", "uncaptured strings around a self-passing function");
    // bound in bound
    auto h = std::tuple{ 1 } >> (std::tuple{ 2 } >> (std::tuple{ 3 } >> Digits{}));
    CHECK(h() == 321 && h(4) == 3214, "bound in front three times");
    auto i = compressed_tuple{ 1 } << (compressed_tuple{ 2 } << (compressed_tuple{ 3 } << Digits{}));
    CHECK(i() == 123 && i(4) == 4123, "bound behind three times");
    auto k = compressed_tuple{ Nil<0>{} } >> (compressed_tuple{ Nil<0>{} } << TakesNil{});
    CHECK(k(7) == 7 && sizeof k == 1, "empty values bound in front and behind");
    auto l = compressed_tuple{ Nil<0>{} } >> (compressed_tuple{ Nil<0>{} } >> TakesNil{});
    CHECK(l(7) == 7 && sizeof l == 1, "empty values bound in front twice");
    auto m = bind_back(bind_back(bind_back(Digits{}, 3), 2), 1);
    CHECK(m() == 123 && m(4) == 4123, "bind_back three times");
    auto n = overload{ std::tuple{ 1 } >> Digits{}, std::tuple{ 1 } << OnlyNever2{}, compressed_tuple{ 1 } >> OnlyNever3{} };
    CHECK(n(2) == 12 && n(never) == -6 && n(1, never) == -7, "alternatives with bound values of one type");
    auto o = std::tuple{ 1 } >> overload{ std::tuple{ 2 } >> Digits{}, OnlyNever{} };
    CHECK(o(3) == 213, "bound around an overload set that holds a bound function");
    // overload sets, self-passing functions
    auto p = overload{ overload{ Digits{}, OnlyNever{} }, overload{ [](const std::string &s) { return s.size(); }, [](const std::string &s, int n) { return s.size() + static_cast<std::size_t>(n); } } };
    CHECK(p(1, 2) == 12 && p(never) == -5 && p(std::string("abc")) == 3 && p(std::string("abc"), 4) == 7, "overload sets of overload sets");
    auto q = recursive{ overload{ [](auto &&self, int x) -> long { return x ? 1 + self(x - 1) : self(std::string("end")); }, [](auto &&, const std::string &s) -> long { return static_cast<long>(s.size()); } } };
    CHECK(q(4) == 7, "a self-passing overload set");
    auto r = recursive{ [](auto &&outer, int x) -> long {
        recursive inner{ [&](auto &&self, int y) -> long { return y ? self(y - 1) + 1 : x ? outer(x - 1) : 0; } };
        return inner(x);
    } };
    CHECK(r(4) == 10, "a self-passing function within another");
    // regularized twice and back
    auto s = unregularized_void(unregularized_void(regularized_void(regularized_void(Digits{}))));
    CHECK(s(1, 2) == 12, "regularized twice");
    int count = 0;
    auto t = unregularized_void(regularized_void(regularized_void([&](int by) { count += by; })));
    t(3), t(4);
    CHECK(count == 7 && (std::is_void_v<decltype(t(3))>), "a void function regularized twice");
    // compressed tuples of compressed tuples
    compressed_tuple u{ compressed_tuple<Nil<0>, int>{ Nil<0>{}, 1 }, Nil<0>{}, compressed_tuple<Nil<0>, std::string>{ Nil<0>{}, std::string("in") } };
    CHECK(get<1>(get<0>(u)) == 1 && get<1>(get<2>(u)) == "in", "a compressed tuple of compressed tuples");
    auto u2 = u;
    get<1>(get<2>(u)) += "side";
    CHECK(get<1>(get<2>(u)) == "inside" && get<1>(get<2>(u2)) == "in", "copies of a compressed tuple of compressed tuples");
    auto v = u2 >> [](const auto &x, Nil<0>, auto &y, int z) { return get<1>(x) + static_cast<int>(get<1>(y).size()) + z; };
    CHECK(v(10) == 13, "a bound compressed tuple of compressed tuples");
    CHECK(pigro::apply([](auto &&...x) { return sizeof...(x); }, to_tuple(u2)) == 3, "applying to a view");
    // projections and predicates that are blocks
    CHECK((transform(std::tuple{ 1, 2 }, uncaptured(7) >> Digits{}) == std::tuple{ 17L, 27L }), "transforming with uncaptured values");
    CHECK((transform(std::tuple{ 1, 2 }, overload{ [](int x) { return x + 1; }, OnlyNever{} }) == std::tuple{ 2, 3 }), "transforming with an overload set");
    CHECK(any(std::tuple{ 1, std::string("x") }, overload{ [](int x) { return x > 1; }, [](const std::string &y) { return y == "x"; } }), "any with an overload set");
    const auto fn = std::function<long(int, int)>(uncaptured(5) >> (std::tuple{ 9 } >> Digits{}));
    CHECK(fn(1, 2) == 9125, "a composition in std::function");
    mon::stat("facts", 30);
    mon::evaluated(26000, true);
}

// ---------------------------------------------------------------- faults in values

// constructing, copying, assigning, transforming and testing tuples whose k-th copy fails
template<class... T>
void values_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    auto intact = [&](const auto &c, const auto &t, const char *when) {
        [&]<std::size_t... I>(std::index_sequence<I...>) { if (!((dec(static_cast<const T &>(get<I>(c))) == t[I]) && ... && true)) j.fail(mon::format("%s: an element lost its value", when)); }
        (std::index_sequence_for<T...>{});
    };
    for (int i = 0; i < 25 * mon::state().scale && j.ok; ++i) {
        std::array<tok_t, sizeof...(T) + 1> t{}, u{};
        std::size_t k = 0, l = 0;
        const std::tuple<T...> from{ value<T>(rng, &t[k++])... }, other{ value<T>(rng, &u[l++])... };
        const long n = static_cast<long>(rng.below(5));
        with_fault(j, n, true, [&] { auto c = std::apply([](const auto &...v) { return pigro::compressed_tuple<T...>{ v... }; }, from); intact(c, t, "constructing"); }, "constructing");
        auto c = std::apply([](const auto &...v) { return pigro::compressed_tuple<T...>{ v... }; }, from);
        auto d = std::apply([](const auto &...v) { return pigro::compressed_tuple<T...>{ v... }; }, other);
        with_fault(j, n, true, [&] { auto e = c; intact(e, t, "copying"); }, "copying");
        intact(c, t, "after copying");
        if constexpr (std::is_copy_assignable_v<decltype(d)>) {
            if (!with_fault(j, n, true, [&] { d = std::as_const(c); }, "assigning")) intact(d, t, "assigning");
            intact(c, t, "after assigning");
        }
        // projections that throw themselves, or whose results throw when copied
        long visits = 0;
        const bool threw = with_fault(
          j, n, false, [&] { (void) pigro::transform(from, [&](const auto &v) { ++visits; faultable(0); return v; }); }, "transforming");
        if (visits != (threw ? n + 1 : static_cast<long>(sizeof...(T)))) j.fail(mon::format("transforming: %ld projections", visits));
        with_fault(j, n, true, [&] { (void) pigro::transform(from, [](const auto &v) { return v; }); }, "transforming");
        visits = 0;
        const bool threw2 = with_fault(
          j, n, false, [&] { if (pigro::any(from, [&](const auto &) { ++visits; faultable(0); return false; })) j.fail("any: true although no element holds"); }, "testing");
        if (visits != (threw2 ? n + 1 : static_cast<long>(sizeof...(T)))) j.fail(mon::format("testing: %ld predicates", visits));
        // capturing values
        with_fault(j, n, true, [&] { std::apply([](const auto &...v) { (void) pigro::uncaptured(v...); }, from); }, "uncapturing");
        with_fault(j, n, true, [&] { std::apply([](auto... v) { (void) pigro::bind_back(FaultyConst{}, std::move(v)...); }, from); }, "binding");
        with_fault(j, n, true, [&] { auto b = pigro::operator>>(from, FaultyConst{}); (void) b(); }, "binding in front");
        log().clear();
        mon::stat("calls", 8);
        mon::evaluated(mon::mix(mon::mix(hash(name), static_cast<std::uint64_t>(n)), static_cast<std::uint64_t>(t[0])), true);
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
    mon::sample(name);
}

} // namespace bm
