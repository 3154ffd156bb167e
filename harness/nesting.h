// Blocks whose callable calls the same block again while its own call is in progress.
#pragma once
#include "mon.h"

#if defined(ODD_binding) || defined(ODD_back)
#include <pigro/bind_tuple.h>
#endif
#ifdef ODD_applying
#include <pigro/apply.h>
#include <pigro/to_tuple.h>
#endif
#ifdef ODD_algorithms
#include <pigro/tuple_algorithms.h>
#endif
#ifdef ODD_items
#include <pigro/pack_algorithms.h>
#endif
#ifdef ODD_overloads
#include <pigro/overload.h>
#endif
#ifdef ODD_self_passing
#include <pigro/recursive.h>
#endif
#ifdef ODD_uncapturing
#include <pigro/uncapture.h>
#endif
#ifdef ODD_regular
#include <pigro/regular_void.h>
#endif

#ifdef ODD_lazy
#include <pigro/lazy.h>
#endif

#include <functional>
#include <list>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>

namespace bm::odd {

inline std::function<long(int)> again; // one level down
inline int throw_at = -1;              // the level that throws
inline long entered = 0;               // calls that were made

inline long fold(long r, long v) { return (r * 31 + v) % 1000003; }
inline long num(long v) { return v; }
inline long num(int v) { return v; }
inline long num(std::size_t v) { return static_cast<long>(v); }
inline long num(const std::string &s) { return static_cast<long>(s.size()) * 7 + (s.empty() ? 0 : s.back()); }

// reads its arguments, goes down, reads them again; the level is its argument number `At`
template<int At>
struct Deep {
    long calls = 0;
    template<class... A>
    long operator()(const A &...a) {
        ++calls, ++entered;
        auto read = [&] {
            long r = 0;
            ((r = fold(r, num(a))), ...);
            return r;
        };
        const long before = read();
        const int level = static_cast<int>(num(std::get<At>(std::tie(a...))));
        long below = 0;
        if (level > 0) {
            if (level == throw_at) throw std::runtime_error("from the middle");
            below = again(level - 1);
        }
        CHECK(read() == before, "the arguments of a call change while another call of the same block is in progress");
        return fold(before, below);
    }
};

// what it returns, given what it receives at each level
template<class Expected>
long direct(int level, Expected expected) {
    long before = 0;
    for (long v : expected(level)) before = fold(before, v);
    return fold(before, level > 0 ? direct(level - 1, expected) : 0);
}

// go(level) calls the block, in which Deep calls again(level - 1)
template<class Go, class Expected>
void nest(const char *what, Go go, Expected expected) {
    for (int round = 0; round < 3; ++round)
        for (int level : { 0, 1, 2, 5, 20 }) {
            again = go;
            throw_at = round == 1 && level > 2 ? level / 2 : -1;
            entered = 0;
            bool threw = false;
            long got = 0;
            try {
                got = go(level);
            } catch (const std::runtime_error &) {
                threw = true;
            }
            if (!CHECK(threw == (throw_at >= 0), "%s: %s", what, threw ? "an exception nobody threw" : "an exception is lost")) return;
            const long want = direct(level, expected);
            if (!CHECK(threw || got == want, "%s, %d calls within each other: %ld instead of %ld", what, level, got, want)) return;
            if (!CHECK(entered == (threw ? level - throw_at + 1 : level + 1), "%s, %d calls within each other: %ld calls", what, level, entered)) return;
            mon::stat("calls", level + 1), mon::stat("nested_calls", level);
            mon::evaluated(mon::mix(std::hash<std::string>{}(what), static_cast<std::uint64_t>(want)), level > 0);
        }
    mon::sample(mon::format("%s within itself, 20 levels deep", what));
}

inline void nesting() {
    const std::string text = "an argument that is on the heap, as it is too long";
    const long t = num(text);
    (void) t;
#ifdef ODD_binding
    {
        auto f = pigro::bind_front_tuple(Deep<2>{}, std::tuple{ 4, text });
        nest("bound in front", [&](int l) { return f(l, std::string(text)); }, [&](int l) { return std::vector<long>{ 4, t, l, t }; });
        auto g = pigro::bind_back_tuple(Deep<0>{}, std::tuple{ 4, text });
        nest("bound behind", [&](int l) { return g(l, std::to_string(l)); }, [&](int l) { return std::vector<long>{ l, num(std::to_string(l)), 4, t }; });
        nest("bound anew", [&](int l) { return pigro::bind_front_tuple(Deep<1>{}, std::tuple{ std::to_string(l) })(l); }, [&](int l) { return std::vector<long>{ num(std::to_string(l)), l }; });
        mon::stat("calls", 0);
    }
#endif
#ifdef ODD_back
    {
        auto f = pigro::bind_back(Deep<0>{}, 4, std::string(text), text);
        nest("bind_back", [&](int l) { return f(l, std::to_string(l)); }, [&](int l) { return std::vector<long>{ l, num(std::to_string(l)), 4, t, t }; });
        nest("bind_back anew", [&](int l) { return pigro::bind_back(Deep<0>{}, std::to_string(l))(l, 1); }, [&](int l) { return std::vector<long>{ l, 1, num(std::to_string(l)) }; });
    }
#endif
#ifdef ODD_applying
    {
        Deep<1> f;
        nest("apply", [&](int l) { return pigro::apply(f, std::tuple{ std::to_string(l), l }); }, [&](int l) { return std::vector<long>{ num(std::to_string(l)), l }; });
        CHECK(f.calls > 50, "apply calls copies of its function");
        nest("a view", [&](int l) {
            const std::tuple x{ std::to_string(l), l, text };
            return pigro::apply(Deep<1>{}, pigro::to_tuple(x));
        }, [&](int l) { return std::vector<long>{ num(std::to_string(l)), l, t }; });
        mon::stat("views");
    }
#endif
#ifdef ODD_algorithms
    {
        // every projection goes down in its middle element
        auto go = [](int l) {
            auto p = [l](const auto &v) -> long {
                const long x = num(v);
                if (x == l) {
                    ++entered;
                    if (l > 0 && l == throw_at) throw std::runtime_error("from the middle");
                    return fold(x, l > 0 ? again(l - 1) : 0);
                }
                return x;
            };
            const auto r = pigro::transform(std::tuple{ 1000, l, std::string("end") }, p);
            CHECK(std::get<0>(r) == 1000 && std::get<2>(r) == num(std::string("end")), "projections around one that transforms");
            return std::get<1>(r);
        };
        std::function<long(int)> want = [&](int l) { return fold(l, l > 0 ? want(l - 1) : 0); };
        for (int l : { 0, 1, 3, 20 }) {
            again = go, throw_at = -1;
            CHECK(go(l) == want(l), "transform within transform, %d levels", l);
            if (l > 2) {
                throw_at = 2;
                bool threw = false;
                try {
                    go(l);
                } catch (const std::runtime_error &) { threw = true; }
                CHECK(threw, "an exception from within transform");
                throw_at = -1;
            }
            mon::stat("projections", l), mon::stat("calls", l + 1);
            mon::evaluated(mon::mix(61200, static_cast<std::uint64_t>(l)), l > 0);
        }
        // the same tuple type and the same predicate type all the way down
        std::function<bool(int)> leaf = [](int v) { return v == 0; };
        std::function<long(int)> same = [](int v) { return v * 2L; };
        for (int bits = 0; bits < 64; ++bits) {
            auto part = [&](int k, bool negate) {
                const bool r = pigro::any(std::tuple{ bits >> (2 * k) & 1, bits >> (2 * k + 1) & 1, 1 }, leaf);
                return r != negate;
            };
            for (bool negate : { false, true }) {
                std::function<bool(int)> p = [&](int k) { return part(k, negate); };
                bool want = false;
                for (int k = 0; k < 3; ++k) want = want || ((bits >> (2 * k) & 3) != 3) != negate;
                CHECK(pigro::any(std::tuple{ 0, 1, 2 }, p) == want, "any of any of one type, pattern %d", bits);
                CHECK(pigro::any(std::tuple{ 0, 1, 2 }, p) == want, "any of any of one type again, pattern %d", bits);
                mon::evaluated(mon::mix(61202, static_cast<std::uint64_t>(bits * 2 + negate)), want);
            }
            std::function<long(int)> q = [&](int k) { const auto r = pigro::transform(std::tuple{ k, bits, 7 }, same); return std::get<0>(r) + std::get<1>(r) * 10 + std::get<2>(r) * 10000; };
            const auto r = pigro::transform(std::tuple{ 1, 2, 3 }, q);
            CHECK(std::get<0>(r) == 2 + bits * 20 + 140000 && std::get<1>(r) == 4 + bits * 20 + 140000 && std::get<2>(r) == 6 + bits * 20 + 140000, "transform in transform of one type");
            mon::stat("projections", 12), mon::stat("predicate_events", 24);
        }
        // any of any: the predicate of each element asks a tuple of its own
        for (int bits = 0; bits < 64; ++bits) {
            std::string seen;
            auto inner = [&](int who) {
                return pigro::any(std::tuple{ bits >> (2 * who) & 1, bits >> (2 * who + 1) & 1 }, [&](int b) {
                    seen += static_cast<char>('0' + who);
                    mon::stat("predicate_events");
                    return b != 0;
                });
            };
            auto negated = [&](int who) { return !inner(who); };
            const bool some = pigro::any(std::tuple{ 0, 1, 2 }, inner);
            std::string want_seen;
            bool want_some = false;
            for (int w = 0; w < 3 && !want_some; ++w)
                for (int b = 0; b < 2 && !want_some; ++b) want_seen += static_cast<char>('0' + w), want_some = bits >> (2 * w + b) & 1;
            CHECK(some == want_some && seen == want_seen, "any of any, pattern %d: %d after '%s' instead of %d after '%s'", bits, some, seen.c_str(), want_some, want_seen.c_str());
            const bool none = pigro::any(std::tuple{ 0, 1, 2 }, negated);
            const bool want_none = !(bits & 3) || !(bits & 12) || !(bits & 48);
            CHECK(none == want_none, "any of negated any, pattern %d", bits);
            mon::stat("short_circuits", want_some);
            mon::evaluated(mon::mix(61201, static_cast<std::uint64_t>(bits)), want_some);
        }
    }
#endif
#ifdef ODD_items
    {
        nest("enumerating", [&](int l) {
            return pigro::enumerate_pack([](auto &&...items) {
                long k = 0;
                CHECK(((items.index == static_cast<std::size_t>(k++)) && ...), "items within items");
                const long r = Deep<1>{}(items.value...);
                return r;
            },
              std::to_string(l), l, text);
        }, [&](int l) { return std::vector<long>{ num(std::to_string(l)), l, t }; });
        // numbers within numbers
        const int n = pigro::enumerate_n<4>([](auto... i) { return ((static_cast<int>(i.value) + pigro::enumerate_n<3>([](auto... j) { return (static_cast<int>(j.value) + ...); })) + ...); });
        CHECK(n == 6 + 4 * 3, "enumerate_n within enumerate_n: %d", n);
        mon::stat("items", 12);
    }
#endif
#ifdef ODD_overloads
    {
        pigro::overload f{ [](const std::string &, auto... rest) -> long { return (rest + ... + 0); }, Deep<0>{} };
        nest("an overload set", [&](int l) { return f(l, 4); }, [&](int l) { return std::vector<long>{ l, 4 }; });
        mon::stat("rejections", 0);
    }
#endif
#ifdef ODD_self_passing
    {
        auto body = [d = Deep<0>{}](auto &&, auto &&...a) mutable { return d(a...); };
        pigro::recursive<decltype(body)> f{ body };
        nest("a self-passing function", [&](int l) { return f(l, std::string(text)); }, [&](int l) { return std::vector<long>{ l, t }; });
    }
#endif
#ifdef ODD_uncapturing
    {
        auto f = pigro::uncaptured(4, text) >> Deep<0>{};
        nest("uncaptured values", [&](int l) { return f(l, std::to_string(l)); }, [&](int l) { return std::vector<long>{ l, num(std::to_string(l)), 4, t }; });
        nest("uncaptured anew", [&](int l) { return (pigro::uncaptured(std::to_string(l)) >> Deep<0>{})(l); }, [&](int l) { return std::vector<long>{ l, num(std::to_string(l)) }; });
    }
#endif
#ifdef ODD_regular
    {
        auto f = pigro::regularized_void(Deep<0>{});
        nest("a regularized function", [&](int l) { return f(l, std::string(text)); }, [&](int l) { return std::vector<long>{ l, t }; });
        auto g = pigro::unregularized_void(f);
        nest("an unregularized function", [&](int l) { return g(l, std::string(text)); }, [&](int l) { return std::vector<long>{ l, t }; });
        static int down;
        down = 30;
        std::function<void()> h = pigro::unregularized_void(pigro::regularized_void([&] {
            if (--down > 0) h();
        }));
        h();
        CHECK(down == 0, "a void function within itself");
        mon::stat("void_calls", 30);
    }
#endif
}

// ---------------------------------------------------------------- many calls, many copies, copies of copies

struct Counting { // how often it was called, and with what
    long n = 0;
    template<class... A>
    long operator()(const A &...a) {
        long r = ++n;
        ((r = fold(r, num(a))), ...);
        return r;
    }
};
inline long counted(long n, std::initializer_list<long> args) {
    long r = n;
    for (long v : args) r = fold(r, v);
    return r;
}

// call(f, k) gives what the k-th kind of call returns; want(n, k) what it returns as the n-th call
template<class Make, class Call, class Want>
void endure(const char *what, Make make, Call call, Want want) {
    const auto h = std::hash<std::string>{}(what);
    {
        auto f = make();
        for (long n = 1; n <= 70000; ++n)
            if (!CHECK(call(f, static_cast<int>(n % 7)) == want(n, static_cast<int>(n % 7)), "%s: call %ld", what, n)) return;
        mon::stat("calls", 70000);
    }
    using F = decltype(make());
    std::list<std::pair<F, long>> all;
    all.emplace_back(make(), 0);
    for (int generation = 1; generation < 700; ++generation) {
        auto &[f, n] = all.back();
        if (generation % 3 && !CHECK(call(f, generation % 5) == want(++n, generation % 5), "%s: copy of the %dth generation", what, generation)) return;
        if (generation % 11 == 0)
            all.emplace_back(make(), 0);
        else
            all.emplace_back(std::as_const(f), n);
        mon::stat("copies");
    }
    for (int round = 0; round < 2; ++round)
        for (auto &[f, n] : all)
            if (!CHECK(call(f, round) == want(++n, round), "%s: one of %zu copies, called %ld times", what, all.size(), n)) return;
    auto moved = std::move(all.front());
    for (int k = 0; k < 700; ++k) {
        std::pair<F, long> next{ std::move(moved.first), moved.second };
        moved.~pair();
        new (&moved) std::pair<F, long>{ std::move(next.first), next.second };
    }
    CHECK(call(moved.first, 3) == want(moved.second + 1, 3), "%s: moved 1400 times", what);
    mon::stat("calls", 2000);
    for (int k = 0; k < 7; ++k) mon::evaluated(mon::mix(h, static_cast<std::uint64_t>(k) + 61400), true);
}

inline void endurance() {
    const std::string text = "an argument that is on the heap, as it is too long";
    const long t = num(text);
    (void) t;
    auto call = [](auto &f, int k) { return f(k); };
    (void) call;
#ifdef ODD_binding
    endure("bound in front", [&] { return pigro::bind_front_tuple(Counting{}, std::tuple{ 4, text }); }, call, [&](long n, int k) { return counted(n, { 4, t, k }); });
    endure("bound behind", [&] { return pigro::bind_back_tuple(Counting{}, pigro::compressed_tuple{ 4, text }); }, call, [&](long n, int k) { return counted(n, { k, 4, t }); });
#endif
#ifdef ODD_back
    endure("bind_back", [&] { return pigro::bind_back(Counting{}, 4, std::string(text), text); }, call, [&](long n, int k) { return counted(n, { k, 4, t, t }); });
#endif
#ifdef ODD_overloads
    endure("an overload set", [&] { return pigro::overload{ Counting{}, [text](int, int) { return text.size(); } }; }, call, [&](long n, int k) { return counted(n, { k }); });
#endif
#ifdef ODD_self_passing
    endure("a self-passing function", [&] {
        auto body = [c = Counting{}, text](auto &&, auto &&...a) mutable { return c(a..., text); };
        return pigro::recursive<decltype(body)>{ body };
    },
      call, [&](long n, int k) { return counted(n, { k, t }); });
#endif
#ifdef ODD_uncapturing
    endure("uncaptured values", [&] { return pigro::uncaptured(4, text) >> Counting{}; }, call, [&](long n, int k) { return counted(n, { k, 4, t }); });
#endif
#ifdef ODD_regular
    endure("a regularized function", [&] { return pigro::regularized_void(Counting{}); }, call, [&](long n, int k) { return counted(n, { k }); });
    endure("an unregularized function", [&] { return pigro::unregularized_void(pigro::regularized_void(Counting{})); }, call, [&](long n, int k) { return counted(n, { k }); });
#endif
#ifdef ODD_applying
    {
        Counting f;
        for (long n = 1; n <= 70000; ++n)
            if (!CHECK(pigro::apply(f, std::tuple{ static_cast<int>(n % 5), n }) == counted(n, { n % 5, n }), "apply, call %ld", n)) return;
        mon::stat("calls", 70000);
    }
#endif
#ifdef ODD_items
    {
        Counting f;
        for (long n = 1; n <= 70000; ++n)
            if (!CHECK(pigro::enumerate_pack([&](auto... i) { return f(i.value..., i.index...); }, static_cast<int>(n % 5), n) == counted(n, { n % 5, n, 0, 1 }), "enumerating, call %ld", n)) return;
        mon::stat("calls", 70000);
    }
#endif
#ifdef ODD_algorithms
    for (int n = 1; n <= 70000; ++n) {
        const auto r = pigro::transform(std::tuple{ n, n + 1 }, [](int v) { return v * 2; });
        if (!CHECK(std::get<0>(r) == n * 2 && std::get<1>(r) == n * 2 + 2 && pigro::any(r, [&](int v) { return v == n * 2 + 2; }), "algorithms, call %d", n)) return;
    }
    mon::stat("calls", 70000);
#endif
#ifdef ODD_lazy
    static int source;
    static long evaluated;
    source = 0;
    // every second call finds a change
    endure("a lazy function", [&] { return pigro::lazy(Counting{}, [] { return source; }, text); },
      [](auto &f, int k) {
          source += 1 + k;
          const long r = f();
          if (f() != r) return -1L;
          return r;
      },
      [&](long n, int) { return counted(n, { source, t }); });
    // all copies are evaluated: no copy of a copy is evaluated again
    struct Evaluated {
        long operator()(long v) const { return ++evaluated, v * 3; }
    };
    auto first = pigro::lazy(Evaluated{}, [] { return static_cast<long>(source); });
    first();
    std::list<decltype(first)> copies{ first };
    evaluated = 0;
    for (int k = 0; k < 700; ++k) {
        copies.push_back(std::as_const(copies.back()));
        if (!CHECK(copies.back()() == source * 3L && evaluated == 0, "copy of the %dth generation of an evaluated lazy function: evaluated %ld times", k, evaluated)) return;
    }
    ++source;
    for (auto &f : copies) f();
    CHECK(evaluated == static_cast<long>(copies.size()), "%zu copies after a change: evaluated %ld times", copies.size(), evaluated);
    for (auto &f : copies)
        if (!CHECK(f() == source * 3L, "a copy after a change")) return;
    CHECK(evaluated == static_cast<long>(copies.size()), "copies are evaluated again");
    mon::stat("cache_hits", 700), mon::stat("source_changes", 701), mon::stat("copy_move_assign_ops", 700), mon::stat("calls", 2100);
#endif
}

} // namespace bm::odd
