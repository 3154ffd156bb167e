// Sharing, embedding, storing.
#pragma once
#include "special.h"

namespace sp {

inline int free_function() { return src[4] * 2; }
struct Member {
    int base = 100;
    int get() const { return base + src[5]; }
};

// ---------------------------------------------------------------- all kinds of plain dependencies, std::ref

template<int = 0>
void dependency_kinds(mon::Rng &rng) {
    reset();
    Member m;
    std::function<int()> fn = [] { return src[0] + 1; };
    auto lam = [k = 5] { return src[1] * k; };
    struct Functor {
        int n = 3;
        int operator()() const { return src[2] + n; }
    } functor;
    auto shared = lazy([](int a) { ++evals[5]; return a / 2; }, Src<3>{});
    std::function<int()> boxed = lazy([](int a) { return a / 3; }, Src<6>{});
    auto f = lazy([](int a, int b, int c, int d, int e, int g, int h, int i) { ++evals[0]; return combine({ a, b, c, d, e, g, h, i }); },
      fn, lam, functor, &free_function, std::bind(&Member::get, &m), std::ref(shared), std::ref(functor), boxed);
    auto fresh = [&] { return combine({ src[0] + 1, src[1] * 5, src[2] + 3, src[4] * 2, m.base + src[5], src[3] / 2, src[2] + functor.n, src[6] / 3 }); };
    // what was handed over by value is a copy
    long last = -1;
    for (int n = 0; n < 2000 * mon::state().scale; ++n) {
        if (rng.chance(60)) src[rng.below(7)] = static_cast<int>(rng.below(6));
        if (rng.chance(5)) m.base = static_cast<int>(rng.below(50));
        if (rng.chance(5)) functor.n = static_cast<int>(rng.below(4)); // seen through std::ref, not through the copy
        if (rng.chance(20)) shared(); // somebody else calls what is shared
        if (n == 50) fn = [] { return -1; };
        const long want = fresh();
        evals[0] = 0;
        const long got = f();
        if (!CHECK_FOR("C01", got == want, "dependencies of many kinds: the result is not that of the current values")) return;
        if (!CHECK_FOR("C02", evals[0] == (want != last), "dependencies of many kinds: evaluated %ld times", evals[0])) return;
        mon::stat("calls"), mon::stat(want != last ? "source_changes" : "cache_hits");
        seen(2000, static_cast<std::uint64_t>(want), want != last);
        last = want;
    }
    mon::sample("std::function, lambda, functor, function pointer, std::bind, std::ref of a lazy function and of a functor, a lazy function in std::function");
}

// one lazy function shared by several others through std::ref, called in any order
template<int = 0>
void shared_by_ref(mon::Rng &rng) {
    for (int round = 0; round < 30 * mon::state().scale; ++round) {
        reset();
        auto base = lazy([](int a, const std::string &b) { ++evals[9]; return b + std::to_string(a / 2); }, Src<0>{}, [] { return std::string(src[1] % 3 + 1, 'b'); });
        auto f = lazy([](const std::string &s, int a) { ++evals[0]; return s + "f" + std::to_string(a); }, std::ref(base), Src<2>{});
        auto g = lazy([](int k, const std::string &s) { ++evals[1]; return s + "g" + std::to_string(k); }, 4, std::ref(base));
        auto h = lazy([](const std::string &x, const std::string &y, const std::string &z) { ++evals[2]; return x + y + z; }, std::ref(f), std::ref(g), std::ref(base));
        auto copy = h; // still refers to the same
        auto vbase = [&] { return std::string(src[1] % 3 + 1, 'b') + std::to_string(src[0] / 2); };
        auto vf = [&] { return vbase() + "f" + std::to_string(src[2]); };
        auto vg = [&] { return vbase() + "g4"; };
        std::string last[5];
        for (int n = 0; n < 60; ++n) {
            if (rng.chance(60)) src[rng.below(3)] = static_cast<int>(rng.below(5));
            const int who = static_cast<int>(rng.below(5));
            const long b = evals[9];
            std::string got, want;
            switch (who) {
            case 0: got = f(), want = vf(); break;
            case 1: got = g(), want = vg(); break;
            case 2: got = h(), want = vf() + vg() + vbase(); break;
            case 3: got = base(), want = vbase(); break;
            default: got = copy(), want = vf() + vg() + vbase(); break;
            }
            if (!CHECK_FOR("C01", got == want, "a lazy function shared through std::ref: '%s' instead of '%s'", got.c_str(), want.c_str())) return;
            if (!CHECK_FOR("C02", evals[9] - b <= 1, "a shared lazy function is evaluated %ld times in one call", evals[9] - b)) return;
            mon::stat("calls"), mon::stat(last[who] != want ? "source_changes" : "cache_hits");
            seen(2001, std::hash<std::string>{}(want) + static_cast<std::uint64_t>(who), last[who] != want && !last[who].empty());
            last[who] = want;
        }
        // many changes of what is shared between two calls: no counter of changes wraps around
        if (round < 3) {
            const int times[] = { 256, 65536, 512 };
            f();
            for (int n = 1; n < times[round]; ++n) src[0] = (src[0] + 2) % 64, base();
            src[0] = (src[0] + 64 + 3) % 64;
            if (!CHECK_FOR("C01", f() == vf() && h() == vf() + vg() + vbase(), "after %d changes of a shared lazy function the result is not that of the current values", times[round])) return;
        }
    }
    mon::sample("f, g and h share one lazy function through std::ref and are called in random order");
}

// dependencies and functions that return references and constants, take their arguments in all ways, or convert
inline std::string text[3];
struct TakesByMove {
    std::string kept;
    std::size_t operator()(std::string s, std::vector<int> v) {
        ++evals[2];
        kept = std::move(s); // its own arguments are its own
        auto w = std::move(v);
        return kept.size() * 10 + w.size();
    }
};
struct ByConstness {
    int operator()() { return src[3] * 2; }
    int operator()() const { return src[3] * 2; }
};
struct FinalDependency final {
    int &operator()() const noexcept { return src[3]; }
};
template<int = 0>
void reference_kinds(mon::Rng &rng) {
    reset();
    for (auto &t : text) t = "start";
    auto ref = []() -> const std::string & { return text[0]; };
    auto mut = []() -> std::string & { return text[1]; };
    auto con = []() -> const int { return src[0]; };
    auto deferred = lazy([](const std::string &a, const std::string &b) -> const std::string & { ++evals[0]; return (a + b).size() % 2 ? text[0] : text[2]; }, ref, [] { return text[2]; });
    auto moved = lazy(TakesByMove{}, lazy([](int n) { ++evals[1]; return std::string(static_cast<std::size_t>(n) + 20, 'm'); }, [] { return src[1]; }), [] { return std::vector<int>(static_cast<std::size_t>(src[2]), 1); });
    auto converted = lazy([](long a, double b, std::string_view c, std::optional<int> d, const std::string &e) noexcept { ++evals[3]; return static_cast<long>(a * 1000 + static_cast<long>(b) * 100) + static_cast<long>(c.size() * 10 + e.size()) + *d; }, con, ByConstness{}, ref, FinalDependency{}, mut);
    auto constant = lazy([](auto &&a, auto &&b) -> const bool { ++evals[4]; return a < b; }, con, FinalDependency{});
    auto above = lazy([](const std::string &s, std::size_t n, long c, bool b) { ++evals[5]; return s + std::to_string(n) + std::to_string(c) + (b ? "t" : "f"); }, deferred, moved, converted, constant);
    auto v_deferred = [] { return text[(text[0] + text[2]).size() % 2 ? 0 : 2]; };
    auto v_moved = [] { return (static_cast<std::size_t>(src[1]) + 20) * 10 + static_cast<std::size_t>(src[2]); };
    auto v_converted = [] { return static_cast<long>(src[0] * 1000 + src[3] * 2 * 100) + static_cast<long>(text[0].size() * 10 + text[1].size()) + src[3]; };
    auto fresh = [&] { return v_deferred() + std::to_string(v_moved()) + std::to_string(v_converted()) + (src[0] < src[3] ? "t" : "f"); };
    std::string last, last_texts, last_conv;
    bool first = true;
    for (int n = 0; n < 1500 * mon::state().scale; ++n) {
        if (rng.chance(50)) src[rng.below(4)] = static_cast<int>(rng.below(4));
        if (rng.chance(30)) {
            const std::string t(rng.below(3) + 1, static_cast<char>('a' + rng.below(3)));
            text[rng.below(3)] = t;
        }
        const std::string want = fresh();
        const std::string texts = text[0] + "|" + text[2], conv = std::to_string(src[0]) + "," + std::to_string(src[3]) + "," + text[0] + "," + text[1];
        std::fill(std::begin(evals), std::end(evals), 0);
        const std::string before = text[0] + "|" + text[1] + "|" + text[2];
        const std::string got = above();
        // what is given by reference is read, not moved from
        if (!CHECK_FOR("C01 C04", before == text[0] + "|" + text[1] + "|" + text[2], "a call changed what a dependency refers to")) return;
        if (!CHECK_FOR("C01", got == want, "references: '%s' instead of '%s'", got.c_str(), want.c_str())) return;
        if (!CHECK_FOR("C02", evals[0] == (first || texts != last_texts) && evals[3] == (first || conv != last_conv) && evals[5] <= 1, "references: evaluated %ld, %ld and %ld times", evals[0], evals[3], evals[5])) return;
        mon::stat("calls"), mon::stat(want != last ? "source_changes" : "cache_hits");
        seen(2050, std::hash<std::string>{}(want), want != last);
        last = want, last_texts = texts, last_conv = conv, first = false;
    }
    mon::sample("functions and dependencies returning references and constants, converting, moving from their arguments");
}

// values given as lvalues are constants from then on
template<int = 0>
void constants() {
    reset();
    int a = 3;
    std::string s = "text, long enough to be on the heap";
    const std::vector<int> v{ 1, 2, 3 };
    auto f = lazy([](int x, const std::string &y, const std::vector<int> &z, const char *w) { ++evals[0]; return y + std::to_string(x) + std::to_string(z.size()) + w; }, a, s, v, "literal");
    const auto want = s + "33literal";
    a = 100, s = "changed";
    for (int i = 0; i < 10; ++i) CHECK_FOR("C01", f() == want, "constants: call %d", i), CHECK_FOR("C02 C03", evals[0] == 1, "constants: evaluated %ld times", evals[0]), mon::stat("calls"), mon::stat("cache_hits", i > 0), seen(2002, static_cast<std::uint64_t>(i));
    // only constants, nested
    auto g = lazy([](const std::string &x, int y) { ++evals[1]; return x.size() + static_cast<std::size_t>(y); }, f, 1);
    for (int i = 0; i < 10; ++i) CHECK_FOR("C01", g() == want.size() + 1, "nested constants: call %d", i), CHECK_FOR("C02 C03", evals[1] == 1 && evals[0] == 1, "nested constants: evaluated %ld and %ld times", evals[1], evals[0]), mon::stat("calls"), seen(2003, static_cast<std::uint64_t>(i));
}

// a constant of each kind: alone, next to a source, and for a function returning void
template<class... T>
void constant_kinds() {
    auto one = [](auto type, int k) {
        using C = typename decltype(type)::type;
        const int tok = lm::Codec<C>::dom > 1 ? 1 + k % (lm::Codec<C>::dom - 1) : 0;
        reset();
        auto f = lazy([](const C &c) { ++evals[0]; return lm::dec(c); }, lm::make<C>(tok, -1));
        auto g = lazy([](const C &c, int x) { ++evals[1]; return lm::dec(c) * 100 + x; }, lm::make<C>(tok, -1), Src<0>{});
        auto h = lazy([](const C &) { ++evals[2]; }, lm::make<C>(tok, -1));
        for (int i = 0; i < 6; ++i) {
            src[0] = i / 2;
            CHECK_FOR("C01", f() == tok, "constant kind %d: call %d", k, i);
            CHECK_FOR("C01", g() == tok * 100 + i / 2, "constant kind %d and a source: call %d", k, i);
            h();
            CHECK_FOR("C02 C03", evals[0] == 1 && evals[1] == i / 2 + 1 && evals[2] == 1, "constant kind %d: evaluated %ld, %ld, %ld times after %d calls", k, evals[0], evals[1], evals[2], i + 1);
            mon::stat("calls", 3), mon::stat("cache_hits", i > 0);
            seen(2100 + static_cast<std::uint64_t>(k), static_cast<std::uint64_t>(i));
        }
    };
    int k = 0;
    (one(std::type_identity<T>{}, k++), ...);
}

// ---------------------------------------------------------------- embedding what was evaluated, storing

struct Counter { // state of its own
    long n = 0;
    long operator()(int a) { return ++n * 100 + a; }
};

template<int = 0>
void embedding(mon::Rng &rng) {
    for (int round = 0; round < 200 * mon::state().scale; ++round) {
        reset();
        auto inner = lazy([](int a) { ++evals[1]; return a / 2; }, Src<0>{});
        src[0] = static_cast<int>(rng.below(6));
        const bool warm = rng.chance(70);
        if (warm) inner();
        if (rng.chance(40)) src[0] = static_cast<int>(rng.below(6)); // changed since
        auto before = inner, untouched = inner;
        const long e0 = evals[1];
        auto outer = lazy([](int v, int w) { ++evals[0]; return v * 10 + w; }, inner, Src<1>{});
        CHECK(evals[1] == e0 && evals[0] == 0, "embedding evaluates something");
        // the embedded copy needs what the original needs
        evals[1] = 0;
        const int expected_value = src[0] / 2;
        const int a = before();
        const long needed = evals[1];
        evals[1] = evals[0] = 0;
        CHECK(outer() == expected_value * 10 + src[1] && a == expected_value, "embedding: the result");
        if (!CHECK(evals[1] == needed && evals[0] == 1, "an embedded lazy function is evaluated %ld times instead of %ld", evals[1], needed)) return;
        mon::stat(needed ? "source_changes" : "cache_hits");
        // independent from the original
        src[0] = src[0] + 2;
        evals[1] = evals[0] = 0;
        CHECK(outer() == src[0] / 2 * 10 + src[1] && evals[1] == 1, "embedding: an outer call after a change");
        evals[1] = 0;
        untouched();
        const long due = evals[1];
        evals[1] = 0;
        CHECK(inner() == src[0] / 2 && evals[1] == due, "embedding: the original is affected by its embedded copy");
        evals[1] = evals[0] = 0;
        CHECK(outer() == src[0] / 2 * 10 + src[1] && evals[1] == 0 && evals[0] == 0, "embedding: the embedded copy is affected by the original");
        mon::stat("copy_move_assign_ops", 2), mon::stat("calls", 5);
        seen(3000, static_cast<std::uint64_t>(warm * 8 + needed * 4) + static_cast<std::uint64_t>(src[0]) * 16);
    }
    // with state
    reset();
    auto c = lazy(Counter{}, Src<0>{});
    c(), src[0] = 1, c();
    auto o = lazy([](long v) { return v; }, c);
    CHECK(o() == 201, "an embedded lazy function has lost what it cached or counted");
    src[0] = 2;
    CHECK(o() == 302 && c() == 302, "an embedded lazy function counts on from its original");
    mon::sample("lazy functions embedded after having been evaluated");
}

// functions that return nothing, depend on nothing or on each other: embedded before and after having been called
template<int I>
struct Acts {
    template<class... A>
    void operator()(const A &...) const { ++evals[I]; }
};
template<int I>
struct Yields {
    template<class... A>
    int operator()(const A &...) const { return static_cast<int>(++evals[I]) * 0 + 7; }
};
template<int = 0>
void embedding_void(mon::Rng &rng) {
    for (int round = 0; round < 300 * mon::state().scale; ++round) {
        reset();
        auto go = [&](auto inner, long deps, const char *what) { // inner: counts in evals[0]; on top of it: evals[1], evals[2]
            std::fill(std::begin(evals), std::end(evals), 0);
            const bool warm = rng.chance(60);
            if (warm) inner();
            CHECK(evals[0] == warm, "%s: called once, evaluated %ld times", what, evals[0]);
            auto copy = inner;
            auto top = lazy(Yields<1>{}, inner);
            auto act = lazy(Acts<2>{}, copy, copy);
            CHECK(evals[0] == warm && evals[1] == 0 && evals[2] == 0, "%s: embedding evaluates something", what);
            long want = warm;
            CHECK(top() == 7, "%s: the result", what);
            want += !warm;
            if (!CHECK(evals[0] == want && evals[1] == 1, "%s, %s, embedded: evaluated %ld times instead of %ld", what, warm ? "called before" : "not called before", evals[0], want)) return false;
            act();
            want += warm ? 0 : 2;
            if (!CHECK(evals[0] == want && evals[2] == 1, "%s, %s, embedded twice: evaluated %ld times instead of %ld", what, warm ? "called before" : "not called before", evals[0], want)) return false;
            inner();
            want += !warm;
            auto top2 = top;
            auto above = lazy(Yields<3>{}, top2, act);
            top(), top2(), act(), inner(), above(), above();
            if (!CHECK(evals[0] == want && evals[1] == 1 && evals[2] == 1 && evals[3] == 1, "%s: nothing changed, but evaluated (%ld instead of %ld times)", what, evals[0], want)) return false;
            if (deps) {
                src[0] += 1;
                top(), top2(), above(), inner();
                want += 6; // each of these and of what they hold has its own
                CHECK(evals[0] == want && evals[1] <= 3, "%s: after a change evaluated %ld times instead of %ld", what, evals[0], want);
            }
            mon::stat("calls", 8), mon::stat("copy_move_assign_ops", 4), mon::stat(warm ? "cache_hits" : "source_changes"), mon::stat("evaluation_events", want);
            seen(3010, std::hash<std::string>{}(what) + static_cast<std::uint64_t>(warm));
            return true;
        };
        if (!go(lazy(Acts<0>{}), 0, "a void function of nothing")) return;
        if (!go(lazy(Yields<0>{}), 0, "a function of nothing")) return;
        if (!go(lazy(Acts<0>{}, std::nullptr_t{}), 0, "a void function of a constant")) return;
        if (!go(lazy(Acts<0>{}, 4), 0, "a void function of a number")) return;
        if (!go(lazy(Acts<0>{}, Src<0>{}), 1, "a void function of a source")) return;
        if (!go(lazy(Yields<0>{}, Src<0>{}), 1, "a function of a source")) return;
        if (!go(lazy(Acts<0>{}, lazy(Acts<5>{})), 0, "a void function of a void function")) return;
        if (!go(lazy(Yields<0>{}, lazy(Acts<5>{}), Src<0>{}), 1, "a function of a void function and a source")) return;
        if (!go(lazy(Acts<0>{}, [] {}), 0, "a void function of a void function that is not lazy")) return;
    }
    mon::sample("functions returning nothing, embedded before and after having been called");
}

template<class L>
struct Held {
    L f;
    long n = 0;  // its Counter
    int arg = -1; // with which it was last evaluated; -1: never
};

// containers, std::function, std::any: copied, moved and assigned by them
template<int = 0>
void storing(mon::Rng &rng) {
    auto make = [] { return lazy(Counter{}, Src<0>{}); };
    using L = decltype(make());
    auto call = [&](auto &f, long &n, int &arg, const char *where) {
        if (arg != src[0]) ++n, arg = src[0];
        const long got = f(), want = n * 100 + arg;
        mon::stat("calls");
        seen(3001, std::hash<std::string>{}(where) + static_cast<std::uint64_t>(want));
        return CHECK(got == want, "in %s: %ld instead of %ld", where, got, want);
    };
    for (int round = 0; round < 20 * mon::state().scale; ++round) {
        reset();
        std::vector<Held<L>> v;
        std::map<int, Held<L>> m;
        std::list<Held<L>> l;
        for (int n = 0; n < 120; ++n) {
            if (rng.chance(40)) src[0] = static_cast<int>(rng.below(4));
            mon::stat("copy_move_assign_ops");
            switch (rng.below(11)) {
            case 0: v.push_back({ make() }); break;
            case 1: if (!v.empty()) v.push_back(v[rng.below(v.size())]); break;
            case 2: if (!v.empty()) v.insert(v.begin() + static_cast<long>(rng.below(v.size())), v.back()); break;
            case 3: if (v.size() > 3) v.erase(v.begin() + static_cast<long>(rng.below(v.size()))); break;
            case 4: std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.n < y.n; }); break;
            case 5: if (!v.empty()) std::rotate(v.begin(), v.begin() + static_cast<long>(rng.below(v.size())), v.end()); break;
            case 6: if (!v.empty()) m.insert_or_assign(static_cast<int>(rng.below(4)), v[rng.below(v.size())]); break;
            case 7: if (!m.empty()) l.push_back(m.begin()->second); break;
            case 8: if (!l.empty()) v.push_back(std::move(l.front())), l.pop_front(); break;
            case 9: {
                auto w = v;
                for (auto &x : w)
                    if (!call(x.f, x.n, x.arg, "a copied vector")) return;
                if (rng.chance(30)) v = std::move(w);
                break;
            }
            default: v.reserve(v.capacity() + 1); break;
            }
            if (v.size() > 12) v.resize(6, { make() });
            for (auto &x : v)
                if (rng.chance(50) && !call(x.f, x.n, x.arg, "a vector")) return;
            for (auto &[k, x] : m)
                if (rng.chance(30) && !call(x.f, x.n, x.arg, "a map")) return;
            for (auto &x : l)
                if (rng.chance(30) && !call(x.f, x.n, x.arg, "a list")) return;
        }
        // std::function and std::any copy what they hold
        std::function<long()> fn = make();
        long n = 0;
        int arg = -1;
        if (!call(fn, n, arg, "std::function")) return;
        std::function<long()> fn2 = fn;
        long n2 = n;
        int arg2 = arg;
        for (int i = 0; i < 10; ++i) {
            src[0] = static_cast<int>(rng.below(3));
            if (rng.chance(50) && !call(fn, n, arg, "std::function")) return;
            if (rng.chance(50) && !call(fn2, n2, arg2, "a copied std::function")) return;
        }
        std::any any = make();
        auto &in = std::any_cast<L &>(any);
        n = 0, arg = -1;
        if (!call(in, n, arg, "std::any")) return;
        auto any2 = any;
        if (!call(std::any_cast<L &>(any2), n, arg, "a copied std::any")) return;
        std::optional<L> opt;
        opt.emplace(make());
        n = 0, arg = -1;
        if (!call(*opt, n, arg, "std::optional")) return;
        auto opt2 = opt;
        opt.reset();
        if (!call(*opt2, n, arg, "a copied std::optional")) return;
        struct Member {
            L f;
            std::string s;
        } m1{ make(), "s" };
        n = 0, arg = -1;
        call(m1.f, n, arg, "a member");
        Member m2 = m1;
        m1 = m2;
        long n3 = n;
        int arg3 = arg;
        src[0] = 3;
        if (!call(m2.f, n, arg, "a copied member") || !call(m1.f, n3, arg3, "an assigned member")) return;
        mon::stat("cache_hits", 1);
    }
    mon::sample("lazy functions in vector, map, list, std::function, std::any, std::optional, members");
}

// ---------------------------------------------------------------- state of function objects

template<int = 0>
void own_state() {
    reset();
    Counter given;
    given.n = 40;
    auto f = lazy(given, Src<0>{});
    for (int i = 0; i < 20; ++i) {
        src[0] = i;
        CHECK(f() == (41 + i) * 100 + i, "the function does not start from the state handed over, or loses it (%d)", i);
        mon::stat("calls"), seen(4000, static_cast<std::uint64_t>(i));
        mon::stat("evaluation_events");
    }
    CHECK(given.n == 40, "calls change the object handed over");
    struct Ticker { // a dependency with state
        int n = 5;
        int operator()() { return n++; }
    } ticker;
    auto g = lazy([](int a, int b) { return a * 100 + b; }, ticker, [n = 0]() mutable { return n += 2; });
    auto g2 = g;
    for (int i = 0; i < 10; ++i) CHECK(g() == (5 + i) * 100 + 2 * (i + 1), "a dependency loses its state (%d)", i), mon::stat("calls"), seen(4001, static_cast<std::uint64_t>(i));
    for (int i = 0; i < 10; ++i) CHECK(g2() == (5 + i) * 100 + 2 * (i + 1), "a copy shares the state of a dependency (%d)", i), mon::stat("calls");
    CHECK(ticker.n == 5, "calls change the dependency handed over");
    auto g3 = g;
    CHECK(g3() == g(), "a copy does not take over the state of a dependency");
    // by reference, when asked to
    auto h = lazy([](int a) { return a; }, std::ref(ticker));
    CHECK(h() == 5 && h() == 6 && ticker.n == 7, "std::ref of a dependency");
    // nested: the state of inner function objects is kept as well
    auto inner = lazy(Counter{}, Src<1>{});
    auto outer = lazy([n = 0L](long v) mutable { return ++n * 100000 + v; }, inner);
    for (int i = 1; i <= 15; ++i) {
        src[1] = i;
        CHECK(outer() == i * 100000L + i * 100 + i, "nested state (%d)", i);
        mon::stat("calls"), seen(4002, static_cast<std::uint64_t>(i));
    }
    CHECK(inner() == 100 + 15, "the inner function handed over was changed");
    // not called: nothing changes
    auto q = lazy(Counter{}, 7);
    for (int i = 0; i < 5; ++i) CHECK(q() == 107, "a constant function is evaluated once");
    // bound functions
    auto bound_state = [](auto b, const char *what) {
        for (int i = 1; i <= 10; ++i) CHECK(b(3) == i * 100 + 3 + 7, "%s: the callable loses its state (%d)", what, i), mon::stat("calls");
        auto c = b;
        for (int i = 11; i <= 15; ++i) CHECK(b(3) == i * 100 + 10, "%s: the callable loses its state (%d)", what, i), seen(std::hash<std::string>{}(what), static_cast<std::uint64_t>(i));
        for (int i = 11; i <= 15; ++i) CHECK(c(3) == i * 100 + 10, "%s: a copy shares or loses state (%d)", what, i);
        auto d = c;
        d(3);
        c = b;
        CHECK(c(3) == 1610 && b(3) == 1610 && d(3) == 1710, "%s: assignment", what);
    };
    struct Add {
        long n = 0;
        long operator()(int a, int b) { return ++n * 100 + a + b; }
    };
    using namespace pigro;
    Add add;
    bound_state(std::tuple{ 7 } >> Add{}, "bound in front");
    bound_state(std::tuple{ 7 } << Add{}, "bound behind");
    bound_state(compressed_tuple{ 7 } >> Add{}, "bound in front (compressed)");
    bound_state(compressed_tuple{ 7 } << Add{}, "bound behind (compressed)");
    bound_state(bind_front_tuple(Add{}, std::tuple{ 7 }), "bind_front_tuple");
    bound_state(bind_back_tuple(Add{}, compressed_tuple{ 7 }), "bind_back_tuple");
    Add a2 = add;
    auto front = std::tuple{ 7 } >> Add(a2);
    front(1), front(1);
    CHECK(a2.n == 0, "calls change the callable handed over by value");
    // state held in an element that is written
    auto tick = std::tuple{ 0 } >> [](int &n, int by) { return n += by; };
    auto tock = tick;
    CHECK(tick(2) == 2 && tick(3) == 5 && tock(1) == 1 && tick(1) == 6, "a bound element keeps its state");
    // started from a state that is not the initial one
    Add used;
    used(1, 1), used(1, 1);
    auto cont = compressed_tuple{ 7 } << Add(used);
    CHECK(cont(3) == 310 && used.n == 2, "a bound callable starts from the state handed over");
    mon::stat("evaluation_events", 10);
    mon::sample("counters in functions, dependencies, inner functions and bound callables");
}

// what a call returned does not depend on the later life of the lazy function
template<int = 0>
void results_outlive() {
    reset();
    std::vector<std::string> kept;
    std::vector<std::string> want;
    {
        auto f = lazy([](int a) { return std::string(50, static_cast<char>('a' + a)); }, Src<0>{});
        for (int i = 0; i < 20; ++i) {
            src[0] = i;
            kept.push_back(f());
            want.push_back(std::string(50, static_cast<char>('a' + i)));
        }
    }
    CHECK(kept == want, "results change after they were returned");
    auto &&r = lazy([] { return std::string(60, 'r'); })();
    auto &&r2 = lazy([](const std::string &s) { return s; }, std::string(60, 'q'))();
    CHECK(r == std::string(60, 'r') && r2 == std::string(60, 'q'), "the result of a temporary lazy function");
    auto made = [] {
        std::string local(70, 'l');
        std::vector<int> v(100, 3);
        return lazy([v](const std::string &s, std::size_t n) { return s + std::to_string(n + v.size()); }, local, lazy([v] { return v.size(); }));
    }();
    CHECK(made() == std::string(70, 'l') + "200", "a lazy function that outlives what it was made from");
    auto second = made;
    auto third = std::move(made);
    CHECK(second() == third(), "after a move");
    seen(5000, 1);
    mon::stat("calls", 25), mon::stat("exceptions", 0);
    mon::sample("results kept after their lazy function is gone");
}

} // namespace sp
