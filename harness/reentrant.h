// Lazy functions called while others, of the same type, are being evaluated; during the
// unwinding of an exception; from handlers of exceptions. One thread's own state only.
#pragma once
#include "types.h"

#include <pigro/lazy.h>

namespace sp {

struct Mine {
    int src[4] = {};
    long evals[4] = {};
};
inline Mine &mine() {
    static thread_local Mine m;
    return m;
}
// evaluating it makes and calls lazy functions of the same type
struct Fib {
    std::string pad = "something that is copied along, on the heap";
    long operator()(int n) const {
        ++mine().evals[0];
        if (n < 2) return n;
        auto a = pigro::lazy(*this, n - 1);
        auto b = pigro::lazy(*this, n - 2);
        const long x = a(), y = b();
        return x + y + (a() - x) + (b() - y);
    }
};
inline long fibonacci(int n) { return n < 2 ? n : fibonacci(n - 1) + fibonacci(n - 2); }
inline long fib_calls(int n) { return n < 2 ? 1 : 1 + fib_calls(n - 1) + fib_calls(n - 2); }

struct Text { // the same, with an owning result and two dependencies
    std::string operator()(int n, const std::string &s) const {
        if (n == 0) return s;
        auto inner = pigro::lazy(*this, n - 1, s + static_cast<char>('a' + n));
        auto before = inner;
        return inner() + before() + inner();
    }
};
inline std::string text_of(int n, const std::string &s) {
    if (n == 0) return s;
    const auto t = text_of(n - 1, s + static_cast<char>('a' + n));
    return t + t + t;
}

template<class F>
struct AtExit { // calls during unwinding
    F f;
    ~AtExit() { f(); }
};

template<int = 0>
void reentrant(mon::Rng &rng) {
    using pigro::lazy;
    const bool values = std::strstr("C01 C10 C07", mon::state().prop.c_str()), counts = std::strstr("C02 C10", mon::state().prop.c_str());
    auto fail = [&](bool ok, bool relevant, const std::string &what) {
        mon::stat("checks");
        if (!ok && relevant) mon::violation(what);
        return ok;
    };
    for (int n = 0; n < 12; ++n) {
        mine() = {};
        auto f = lazy(Fib{}, n);
        fail(f() == fibonacci(n) && f() == fibonacci(n), values, mon::format("lazy functions evaluated inside of one another: fib(%d)", n));
        fail(mine().evals[0] == fib_calls(n), counts, mon::format("lazy functions evaluated inside of one another: %ld evaluations instead of %ld", mine().evals[0], fib_calls(n)));
        mon::evaluated(mon::mix(6000, static_cast<std::uint64_t>(n)), n > 1);
        mon::stat("calls", fib_calls(n)), mon::stat("evaluation_events", mine().evals[0]), mon::stat("cache_hits");
    }
    for (int n = 0; n < 5; ++n) {
        auto t = lazy(Text{}, n, std::string("start"));
        fail(t() == text_of(n, "start"), values, mon::format("lazy functions evaluated inside of one another: texts, depth %d", n));
        mon::evaluated(mon::mix(6001, static_cast<std::uint64_t>(n)), n > 0);
    }
    // a dependency that calls lazy functions of the same type as the one depending on it
    mine() = {};
    auto plain = [] { return mine().src[0]; };
    auto twice = [](int x) { return ++mine().evals[1], x * 2; };
    auto inner = lazy(twice, plain);
    auto outer = lazy(twice, [inner]() mutable { return inner() + 1; });
    auto third = lazy([](int a, int b) { return ++mine().evals[2], a * 1000 + b; }, outer, [outer]() mutable { return outer() + 5; });
    int last = -1;
    for (int i = 0; i < 200 * mon::state().scale; ++i) {
        mine().src[0] = static_cast<int>(rng.below(4));
        mine().evals[1] = mine().evals[2] = 0;
        const int want = (mine().src[0] * 2 + 1) * 2;
        const bool changed = mine().src[0] != last;
        fail(third() == want * 1000 + want + 5, values, "a lazy function called by a dependency");
        fail(mine().evals[1] == (changed ? 4 : 0) && mine().evals[2] == changed, counts, mon::format("a lazy function called by a dependency: %ld and %ld evaluations", mine().evals[1], mine().evals[2]));
        mon::stat(changed ? "source_changes" : "cache_hits");
        last = mine().src[0];
        mon::evaluated(mon::mix(6002, static_cast<std::uint64_t>(want * 2 + changed)), changed);
    }
    // called while an exception is on its way, and in its handler
    auto f = lazy([](int a, const std::string &s) { return ++mine().evals[3], s + std::to_string(a); }, plain, [] { return std::string(40, static_cast<char>('a' + mine().src[1])); });
    int a = -1, b = -1;
    for (int i = 0; i < 200 * mon::state().scale; ++i) {
        auto once = [&](const char *when) {
            if (rng.chance(50)) mine().src[rng.below(2)] = static_cast<int>(rng.below(3));
            mine().evals[3] = 0;
            const bool changed = a != mine().src[0] || b != mine().src[1];
            a = mine().src[0], b = mine().src[1];
            fail(f() == std::string(40, static_cast<char>('a' + b)) + std::to_string(a), values, mon::format("called %s: the result is not that of the current values", when));
            fail(mine().evals[3] == changed, counts, mon::format("called %s: evaluated %ld times instead of %d", when, mine().evals[3], changed));
            mon::stat(changed ? "source_changes" : "cache_hits");
            mon::evaluated(mon::mix(mon::mix(6003, static_cast<std::uint64_t>(changed * 100 + a * 10 + b)), std::hash<std::string>{}(when)), changed);
        };
        try {
            AtExit guard{ [&] { once("while an exception is thrown"), once("again while an exception is thrown"); } };
            if (rng.chance(80)) throw 1;
        } catch (int) {
            once("in a handler");
            try {
                throw 2;
            } catch (int) {
                once("in a nested handler");
            }
        }
        once("normally");
    }
    mon::sample("lazy functions evaluated inside of one another, in destructors while an exception is thrown, and in handlers");
}

} // namespace sp
