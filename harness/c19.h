// Overload sets. Every generated set comes with a reference: one class declaring all the
// call operators of the set itself, so that the compiler's own overload resolution over
// them is the oracle for what a call through the library must select.
#pragma once
#include "c14.h"

namespace bm {

struct Base {
    int b = 1;
};
struct Derived : Base {
    int d = 2;
};
struct FromInt {
    int v;
    FromInt(int x) : v{ x } {}
};
struct ToInt {
    operator int() const { return 3; }
};

// what was selected: the position of the callable, the constness its operator was selected with, its argument types
struct Pick {
    int which = -1;
    bool is_const = false;
    long before = -1; // its state before the call
    std::vector<int> cats;
    std::vector<const void *> addrs;
    bool operator==(const Pick &o) const { return which == o.which && is_const == o.is_const && before == o.before && cats == o.cats; }
};
inline Pick &pick() {
    static thread_local Pick p;
    return p;
}
template<class... A>
int picked(int which, bool is_const, long before, A &&...a) {
    pick() = { which, is_const, before, { cat<A &&>... }, { address(a)... } };
    return which;
}
// distinct result types, so that a wrong selection is also a wrong type
template<int K>
struct Res {
    int k = K;
    bool operator==(const Res &) const = default;
};

struct Tally {
    long calls = 0, rejected = 0;
    std::set<int> chosen;
};

template<class O, class R, class... A>
constexpr bool same_verdict = std::is_invocable_v<O, A...> == std::is_invocable_v<R, A...>;

// one expression, tried on both
template<class O, class R, class... A>
void try_call(Judge &j, Tally &t, O &&o, R &&r, const char *expr, A &&...a) {
    mon::stat("checks");
    if constexpr (!same_verdict<O &&, R &&, A &&...>)
        j.fail(mon::format("%s is %s", expr, std::is_invocable_v<O &&, A &&...> ? "accepted although no single callable is selected" : "rejected although overload resolution selects a callable"));
    else if constexpr (std::is_invocable_v<O &&, A &&...>) {
        using X = std::invoke_result_t<O &&, A &&...>;
        using Y = std::invoke_result_t<R &&, A &&...>;
        if (!std::is_same_v<X, Y>) {
            j.fail(mon::format("%s has another result type than the selected callable's", expr));
            return;
        }
        if constexpr ((std::is_null_pointer_v<std::remove_cvref_t<A>> || ...)) return; // could make a string of a null pointer
        pick() = {};
        static_cast<R &&>(r)(static_cast<A &&>(a)...);
        const auto want = pick();
        pick() = {};
        bool result = true;
        if constexpr (std::is_void_v<X>)
            static_cast<O &&>(o)(static_cast<A &&>(a)...);
        else
            result = static_cast<O &&>(o)(static_cast<A &&>(a)...) == X{};
        const auto got = pick();
        if (!result) j.fail(mon::format("%s does not return the result", expr));
        if (!(got == want))
            j.fail(mon::format("%s calls callable %d (const %d, state %ld), overload resolution selects %d (const %d, state %ld)", expr, got.which, got.is_const, got.before, want.which, want.is_const, want.before));
        ++t.calls;
        t.chosen.insert(got.which);
        mon::evaluated(mon::mix(mon::mix(hash(expr), hash(j.what)), static_cast<std::uint64_t>(got.which)), true);
    } else {
        ++t.rejected;
        mon::evaluated(mon::mix(hash(expr), hash(j.what)), true);
    }
}

template<class O, class R>
void try_all(Judge &j, Tally &t, O &&o, R &&r, mon::Rng &rng) {
    int i = 4;
    const int ci = 5;
    long l = 6;
    const char *s = "literal";
    std::string str = "string";
    const std::string cstr = "const string";
    Obj obj{ 3 };
    const Obj cobj{ 4 };
    Derived der;
    const Derived cder;
    Base base;
    std::unique_ptr<int> up;
    Colour col = Colour::blue;
#define TRY(...) try_call(j, t, static_cast<O &&>(o), static_cast<R &&>(r), "f(" #__VA_ARGS__ ")" __VA_OPT__(, ) __VA_ARGS__)
    // in random order, with repetitions
    for (int n = 0; n < 60 && j.ok; ++n) switch (rng.below(36)) {
        case 0: TRY(); break;
        case 1: TRY(i); break;
        case 2: TRY(ci); break;
        case 3: TRY(7); break;
        case 4: TRY(std::move(ci)); break;
        case 5: TRY(l); break;
        case 6: TRY(8L); break;
        case 7: TRY(1.5); break;
        case 8: TRY(1.5f); break;
        case 9: TRY('c'); break;
        case 10: TRY(true); break;
        case 11: TRY(s); break;
        case 12: TRY("text"); break;
        case 13: TRY(nullptr); break;
        case 14: TRY(str); break;
        case 15: TRY(cstr); break;
        case 16: TRY(std::string("temporary")); break;
        case 17: TRY(std::string_view("view")); break;
        case 18: TRY(obj); break;
        case 19: TRY(cobj); break;
        case 20: TRY(Obj{ 5 }); break;
        case 21: TRY(der); break;
        case 22: TRY(cder); break;
        case 23: TRY(base); break;
        case 24: TRY(Derived{}); break;
        case 25: TRY(&der); break;
        case 26: TRY(ToInt{}); break;
        case 27: TRY(FromInt{ 3 }); break;
        case 28: TRY(std::move(up)); break;
        case 29: TRY(col); break;
        case 30: TRY(i, i); break;
        case 31: TRY(1, 2.5); break;
        case 32: TRY(str, 1); break;
        case 33: TRY(1, 2, 3); break;
        case 34: TRY(static_cast<unsigned short>(3)); break;
        case 35: TRY(std::vector<int>{ 1 }); break;
        }
#undef TRY
}

// Make builds the overload set (callable k with initial state start[k]); Ref is the class with all operators
template<class Ref, class Make>
void overload_case(const char *name, Make make, std::size_t n) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int round = 0; round < 6 * mon::state().scale && j.ok; ++round) {
        Tally t;
        std::vector<long> start;
        for (std::size_t k = 0; k < n; ++k) start.push_back(static_cast<long>(rng.below(1000)));
        auto o = make(start);
        Ref r{ start };
        try_all(j, t, o, r, rng);
        auto o2 = o; // a copy goes on from the same state, on its own
        Ref r2 = r;
        try_all(j, t, o, r, rng);
        try_all(j, t, o2, r2, rng);
        try_all(j, t, std::as_const(o), std::as_const(r), rng);
        try_all(j, t, std::move(o2), std::move(r2), rng);
        try_all(j, t, o, r, rng);
        mon::stat("calls", t.calls);
        mon::stat("rejections", t.rejected);
        mon::stat("callables_selected", static_cast<long>(t.chosen.size()));
        if (round == 0 && j.ok) mon::sample(mon::format("%s: %ld calls selected %zu of %zu callables, %ld rejected", name, t.calls, t.chosen.size(), n, t.rejected));
    }
}

inline void overload_facts() {
    using pigro::overload;
    int n = 0;
    auto o = overload{ [&](int x) { return n += x; }, [s = std::string("abc")](const std::string &x) { return s + x; }, [](auto &&...) { return 'v'; } };
    const std::string word = "d";
    CHECK(o(3) == 3 && o(4) == 7 && n == 7, "lambdas with captures");
    CHECK(o(std::as_const(word)) == "abcd", "lambdas with values");
    CHECK(o(1.5f, 2) == 'v' && o() == 'v', "generic lambdas");
    auto m = overload{ [k = 0](int) mutable { return ++k; }, [k = 10](char) mutable { return ++k; } };
    auto m2 = m;
    CHECK(m(1) == 1 && m(1) == 2 && m('c') == 11 && m(1) == 3 && m2(1) == 1, "mutable lambdas keep their own state");
    CHECK(!(std::is_invocable_v<const decltype(m) &, int>), "a const overload set does not call what changes state");
    // references and move-only values go through
    auto p = overload{ [](std::unique_ptr<int> q) { return *q; }, [](int &x) -> int & { return x; } };
    int x = 5;
    CHECK(p(std::make_unique<int>(6)) == 6 && &p(x) == &x, "move-only arguments and references");
    // visiting a variant
    std::variant<int, std::string, Obj> v = std::string("vw");
    CHECK(std::visit(overload{ [](int) { return 1; }, [](const std::string &s) { return static_cast<int>(s.size()) * 10; }, [](const Obj &) { return 3; } }, v) == 20, "visiting a variant");
    auto nested = overload{ overload{ [](int) { return 1; }, [](char) { return 2; } }, [](std::string) { return 3; } };
    CHECK(nested(1) == 1 && nested('c') == 2 && nested(std::string()) == 3, "an overload set as a part of another");
    auto one = overload{ [](int i) { return i; } };
    CHECK(one(9) == 9, "an overload set of one");
    mon::evaluated(19000, true);
}

} // namespace bm
