// One constant original, copied by several threads at the same time.
#pragma once
#include "c14.h"
#include "reentrant.h"
#include "threads.h"

#include <pigro/lazy.h>
#include <pigro/to_tuple.h>

namespace bm {

constexpr int THREADS = 6;

// Copies taken concurrently from one constant original. `use` exercises a copy and returns a
// digest of what it observed; every copy must observe what the first one does, alone.
template<class T, class Use>
void shared_original(const char *name, const T &original, Use use) {
    std::uint64_t want = 0;
    {
        T alone = original;
        want = use(alone);
    }
    mon::in_threads(THREADS, [&](int t) {
        for (int i = 0; i < 150 * mon::state().scale; ++i) {
            T own = original;
            const auto got = use(own);
            mon::stat("checks");
            if (got != want) {
                mon::violation(mon::format("%s: a copy used by thread %d behaves differently (round %d)", name, t, i));
                return;
            }
            T moved = std::move(own);
            if constexpr (std::is_copy_assignable_v<T>) {
                T again = original;
                again = moved;
            }
            mon::stat("shared_copies", 3);
        }
        mon::evaluated(mon::mix(hash(name), static_cast<std::uint64_t>(t)), true);
    });
    T after = original;
    CHECK(use(after) == want, "%s: the original was changed by its copies", name);
    mon::sample(name);
}
template<class... A>
std::uint64_t digest(const A &...a) {
    std::uint64_t h = 99;
    ((h = mon::mix(h, static_cast<std::uint64_t>(dec(a)))), ...);
    return h;
}

struct Work { // counts its evaluations
    long evals = 0;
    std::string operator()(int a, const std::string &b) {
        ++evals;
        return b + std::to_string(a) + "#" + std::to_string(evals);
    }
};

inline void shared_originals() {
    using namespace pigro;
    static thread_local int a = 0, evals = 0;
    static thread_local std::string b;
    auto fresh = [](auto &f) { // a history on thread-local sources
        std::uint64_t h = 7;
        for (int i = 0; i < 12; ++i) {
            a = i / 3, b = std::string(30, static_cast<char>('a' + i / 4));
            const int before = evals;
            if constexpr (std::is_void_v<decltype(f())>)
                f();
            else
                h = mon::mix(h, hash(std::string(f())));
            h = mon::mix(h, static_cast<std::uint64_t>(evals - before));
        }
        return h;
    };
    const auto l1 = lazy([](int x, const std::string &y) { ++evals; return y + std::to_string(x); }, [] { return a; }, [] { return b; });
    shared_original("a lazy function", l1, fresh);
    const auto l2 = lazy([](const std::string &x, int y) { ++evals; return x + "/" + std::to_string(y); }, l1, 42);
    shared_original("a nested lazy function", l2, fresh);
    const auto l3 = lazy([](int) { ++evals; }, [] { return a; });
    shared_original("a lazy void function", l3, fresh);
    const auto l4 = lazy(Work{}, [] { return a; }, [] { return b; });
    shared_original("a lazy function with state", l4, fresh);
    const auto l5 = lazy([] { ++evals; return std::string("constant"); });
    shared_original("a lazy function without dependencies", l5, fresh);
    // already evaluated before it is shared: a copy has nothing left to evaluate
    a = 3, b = "warm, and long enough to be on the heap";
    auto w = lazy([](const std::string &x) { ++evals; return x + "!"; }, lazy([](int x, const std::string &y) { ++evals; return y + std::to_string(x); }, [] { return a; }, [] { return b; }));
    w();
    const auto warm = w;
    shared_original("an evaluated lazy function", warm, [](auto &f) {
        a = 3, b = "warm, and long enough to be on the heap";
        const int before = evals;
        auto h = mon::mix(hash(f()), static_cast<std::uint64_t>(evals - before));
        a = 4;
        h = mon::mix(h, hash(f()));
        h = mon::mix(h, static_cast<std::uint64_t>(evals - before));
        return mon::mix(h, hash(f()));
    });
    mon::in_threads(THREADS, [](int t) {
        mon::Rng rng{ mon::mix(mon::state().seed, static_cast<std::uint64_t>(1000 + t)) };
        sp::reentrant(rng);
    });
    // building blocks
    const compressed_tuple t{ 1, Nil<0>{}, std::string(40, 's'), Nil<0>{}, Obj{ 4 }, LoudNil{} };
    shared_original("a compressed tuple", t, [](auto &c) {
        auto h = digest(pigro::get<0>(c), pigro::get<1>(c), pigro::get<3>(c), pigro::get<4>(c), pigro::get<5>(c));
        h = mon::mix(h, hash(pigro::get<2>(c)));
        h = mon::mix(h, hash(std::get<2>(pigro::to_tuple(c))));
        h = mon::mix(h, pigro::apply([](auto &&...e) { return digest(static_cast<int>(sizeof...(e))); }, c));
        pigro::get<0>(c) += 5, pigro::get<2>(c) += "x";
        return mon::mix(mon::mix(h, hash(pigro::get<2>(c))), static_cast<std::uint64_t>(pigro::get<0>(c)));
    });
    auto calls = [](auto &f) {
        std::uint64_t h = 3;
        for (int i = 0; i < 6; ++i) {
            log().clear();
            h = mon::mix(h, static_cast<std::uint64_t>(f(i, std::string(20, static_cast<char>('a' + i)))));
            for (auto &c : log().calls)
                for (auto &s : c) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
            for (auto s : log().state) h = mon::mix(h, static_cast<std::uint64_t>(s));
        }
        return h;
    };
    const auto f1 = std::tuple{ 3, std::string(30, 'z') } >> Mutating{};
    shared_original("a function bound in front", f1, calls);
    const auto f2 = compressed_tuple{ 3, Nil<0>{}, std::string(30, 'z') } << Mutating{};
    shared_original("a function bound behind", f2, calls);
    const auto f3 = bind_back(Mutating{}, 3, std::string(30, 'y'));
    shared_original("bind_back", f3, calls);
    const auto f4 = uncaptured(1, std::string(30, 'u'), Nil<0>{}) >> Mutating{};
    shared_original("uncaptured values", f4, calls);
    const auto f5 = regularized_void(Mutating{});
    shared_original("a regularized function", f5, calls);
    const auto f6 = overload{ Mutating{}, [n = 10L](std::string) mutable { return ++n; } };
    shared_original("an overload set", f6, calls);
    const recursive f7{ [n = 0L](auto &self, int i, std::string s) mutable -> tok_t { return ++n + (i > 0 ? self(i - 1, s + 'x') : static_cast<tok_t>(s.size())); } };
    shared_original("a self-passing function", f7, calls);
}

} // namespace bm
