// Building blocks over many elements: more than fit a word of flags, or a byte.
#pragma once
#include "c14.h"

namespace bm::wide {

inline thread_local std::vector<const void *> at;
inline thread_local std::vector<int> val, cats;
inline thread_local int calls;
inline void clear() { at.clear(), val.clear(), cats.clear(), calls = 0; }

template<class T>
int num(const T &x) {
    if constexpr (std::is_integral_v<T>) return static_cast<int>(x);
    else return 0;
}
struct Rec { // notes value, identity and category of every argument
    template<class... A>
    int operator()(A &&...a) const {
        ++calls;
        ((at.push_back(address(a)), val.push_back(static_cast<int>(num(a))), cats.push_back(cat<A &&>)), ...);
        return static_cast<int>(sizeof...(A)) + 1000;
    }
};
template<std::size_t I>
using elem = std::conditional_t<I % 7 == 3, Nil<0>, std::conditional_t<I % 7 == 1, short, int>>; // empty, short, int
template<std::size_t I>
elem<I> make_elem(int seed) {
    if constexpr (I % 7 == 3) return {};
    else return static_cast<elem<I>>((static_cast<int>(I) * 7 + seed) % 30000);
}
template<std::size_t I>
int expect(int seed) { return I % 7 == 3 ? 0 : (static_cast<int>(I) * 7 + seed) % 30000; }

template<int N>
constexpr auto seq = std::make_index_sequence<N>{};
template<std::size_t... I>
std::vector<int> expected(int seed, std::index_sequence<I...>) { return { expect<I>(seed)... }; }
template<std::size_t... I>
auto std_tuple(int seed, std::index_sequence<I...>) { return std::tuple<elem<I>...>{ make_elem<I>(seed)... }; }
template<std::size_t... I>
auto compressed(int seed, std::index_sequence<I...>) { return pigro::compressed_tuple<elem<I>...>{ make_elem<I>(seed)... }; }

inline std::string differs(const std::vector<int> &got, const std::vector<int> &want) {
    if (got.size() != want.size()) return mon::format("%zu values instead of %zu", got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i)
        if (got[i] != want[i]) return mon::format("value %zu is %d instead of %d", i, got[i], want[i]);
    return "";
}
inline void done(const char *what, int n, int seed) {
    mon::stat("calls"), mon::stat("wide_cases");
    mon::evaluated(mon::mix(hash(what), static_cast<std::uint64_t>(n * 1000 + seed)), true);
    if (seed == 0) mon::sample(mon::format("%s, %d elements", what, n));
}
inline void want_values(const char *what, int n, const std::vector<int> &want) {
    mon::stat("checks");
    if (calls != 1) mon::violation(mon::format("%s, %d elements: the callable was called %d times", what, n, calls));
    else if (auto d = differs(val, want); !d.empty()) mon::violation(mon::format("%s, %d elements: %s", what, n, d.c_str()));
}
inline std::vector<int> operator+(std::vector<int> a, const std::vector<int> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

// C13
template<int N>
void elements() {
    for (int s = 0; s < 3; ++s) {
        auto t = compressed(s, seq<N>);
        static_assert(std::tuple_size_v<decltype(t)> == N);
        auto read = [](auto &x) {
            return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::vector<int>{ static_cast<int>(num(get<I>(x)))... }; }
            (seq<N>);
        };
        auto want = expected(s, seq<N>);
        auto d = differs(read(t), want);
        CHECK(d.empty(), "a compressed tuple of %d elements: %s", N, d.c_str());
        auto copy = t;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto write = [&](auto i) {
                if constexpr (i % 7 != 3) get<i>(t) = static_cast<elem<i>>(want[i] = static_cast<int>(N - i));
            };
            (write(std::integral_constant<std::size_t, I>{}), ...);
        }
        (seq<N>);
        d = differs(read(t), want);
        CHECK(d.empty(), "a compressed tuple of %d elements, after writing each: %s", N, d.c_str());
        d = differs(read(std::as_const(copy)), expected(s, seq<N>));
        CHECK(d.empty(), "a copy of a compressed tuple of %d elements: %s", N, d.c_str());
        mon::stat("element_reads", 3 * N);
        done("reading, copying and writing a compressed tuple", N, s);
    }
}
// C14
template<int N, bool Compressed, bool Front>
void binding() {
    for (int s = 0; s < 3; ++s) {
        auto t = [&] {
            if constexpr (Compressed) return compressed(s, seq<N>);
            else return std_tuple(s, seq<N>);
        }();
        auto b = bound<Front>(Rec{}, std::move(t), 0);
        int x = 31111, y = 31112;
        for (int k = 0; k < 2; ++k) {
            clear();
            const int r = b(x, std::move(y));
            CHECK(r == N + 2 + 1000, "%d bound elements: the result is not passed through", N);
            const std::vector<int> own{ x, y };
            want_values(Front ? "bound in front" : "bound behind", N, Front ? expected(s, seq<N>) + own : own + expected(s, seq<N>));
            const std::size_t p = Front ? N : 0;
            if (at.size() == N + 2) CHECK(at[p] == &x && at[p + 1] == &y && cats[p] == 0 && cats[p + 1] == RV, "%d bound elements: the call arguments are not forwarded", N);
        }
        done(Front ? "bound in front" : "bound behind", N, s);
    }
}
template<int N, bool Front> // many call arguments
void calling() {
    for (int s = 0; s < 3; ++s) {
        auto b = bound<Front>(Rec{}, std::tuple{ 31113, 31114 }, 0);
        clear();
        pigro::apply([&](auto &&...a) { b(a...); }, std_tuple(s, seq<N>));
        const std::vector<int> own{ 31113, 31114 };
        want_values("called with", N, Front ? own + expected(s, seq<N>) : expected(s, seq<N>) + own);
        done("called with", N, s);
    }
}
// C15
template<int N>
void back() {
    for (int s = 0; s < 3; ++s) {
        auto t = std_tuple(s, seq<N>);
        auto b = std::apply([](auto &...a) { return pigro::bind_back(Rec{}, a...); }, t);
        auto c = std::apply([](auto &...a) { return pigro::bind_back(Rec{}, std::remove_reference_t<decltype(a)>(a)...); }, t);
        int x = 31115;
        for (int k = 0; k < 2; ++k) {
            clear(), b(x);
            want_values("bind_back of lvalues", N, std::vector<int>{ x } + expected(s, seq<N>));
            if (at.size() == N + 1) {
                bool same = true;
                [&]<std::size_t... I>(std::index_sequence<I...>) { ((same = same && at[I + 1] == &std::get<I>(t)), ...); }
                (seq<N>);
                CHECK(same, "bind_back of %d lvalues does not refer to them", N);
            }
            clear(), c(x);
            want_values("bind_back of rvalues", N, std::vector<int>{ x } + expected(s, seq<N>));
        }
        done("bind_back", N, s);
    }
}
// C16
template<int N, bool Compressed>
void applying() {
    for (int s = 0; s < 3; ++s) {
        auto t = [&] {
            if constexpr (Compressed) return compressed(s, seq<N>);
            else return std_tuple(s, seq<N>);
        }();
        std::array<short, N> a;
        for (int i = 0; i < N; ++i) a[static_cast<std::size_t>(i)] = static_cast<short>(i * 3 + s);
        std::vector<int> arr(a.begin(), a.end());
        auto go = [&](auto &&x, const char *what, const std::vector<int> &want, int category) {
            using X = decltype(x);
            clear();
            CHECK(pigro::apply(Rec{}, std::forward<X>(x)) == N + 1000, "%s of %d elements: the result is not passed through", what, N);
            want_values(what, N, want);
            for (std::size_t i = 0; i < cats.size(); ++i)
                if (cats[i] != category && !(Compressed && i % 7 == 3)) {
                    mon::violation(mon::format("%s, %d elements: element %zu is a '%s' instead of a '%s'", what, N, i, cat_name(cats[i]).c_str(), cat_name(category).c_str()));
                    break;
                }
            done(what, N, s);
        };
        go(t, "applying a tuple", expected(s, seq<N>), 0);
        go(std::as_const(t), "applying a const tuple", expected(s, seq<N>), CN);
        go(std::move(t), "applying an rvalue tuple", expected(s, seq<N>), RV);
        if (!Compressed) {
            go(a, "applying an array", arr, 0);
            go(std::move(a), "applying an rvalue array", arr, RV);
            clear();
            std::apply(Rec{}, pigro::to_tuple(t));
            want_values("viewing a tuple", N, expected(s, seq<N>));
            bool same = at.size() == N;
            if (same) [&]<std::size_t... I>(std::index_sequence<I...>) { ((same = same && at[I] == &std::get<I>(reinterpret_cast<decltype(std_tuple(0, seq<N>)) &>(t))), ...); }
            (seq<N>);
            CHECK(same, "viewing a tuple of %d elements does not yield references to them", N);
            mon::stat("views");
        }
    }
}
// C17
template<int N>
void algorithms() {
    auto t = std_tuple(5, seq<N>);
    struct Proj {
        std::vector<int> *seen;
        auto operator()(const int &x) const { seen->push_back(x); return x; }
        auto operator()(const short &x) const { seen->push_back(x); return std::tuple{ static_cast<int>(x) }; }
        auto operator()(const Nil<0> &) const { seen->push_back(0); return std::pair{ 0, 1 }; }
    };
    std::vector<int> visited, want = expected(5, seq<N>);
    auto r = pigro::transform(t, Proj{ &visited });
    CHECK(std::tuple_size_v<decltype(r)> == N && visited == want, "transform of %d elements does not visit each once in order", N);
    std::vector<int> results;
    auto add = [&](auto &x) {
        using X = std::remove_cvref_t<decltype(x)>;
        if constexpr (std::is_same_v<X, int>) results.push_back(x);
        else results.push_back(std::get<0>(x));
    };
    std::apply([&](auto &...x) { (add(x), ...); }, r);
    CHECK(results == want, "transform of %d elements: a result is not that of its element", N);
    mon::stat("projections", N);
    done("transform", N, 0);
    std::array<int, N> a{};
    for (int hit = -1; hit < N; ++hit) {
        if (hit >= 0) a[static_cast<std::size_t>(hit)] = 1;
        int steps = 0;
        const int *last = nullptr;
        bool order = true;
        auto p = [&](const int &x) {
            ++steps;
            order = order && (!last || last < &x);
            last = &x;
            return x != 0;
        };
        CHECK(pigro::any(a, p) == (hit >= 0), "any of %d elements of which element %d holds is wrong", N, hit);
        CHECK(order && steps == (hit < 0 ? N : hit + 1), "any of %d elements of which element %d holds takes %d steps", N, hit, steps);
        CHECK(pigro::any(a) == (hit >= 0), "any of %d elements of which element %d is true is wrong", N, hit);
        if (hit >= 0) a[static_cast<std::size_t>(hit)] = 0;
        mon::stat("predicate_events", steps), mon::stat("short_circuits", hit >= 0);
        done("any", N, hit + 1);
    }
}
// C18
template<int N>
void enumerating() {
    auto t = std_tuple(3, seq<N>);
    std::vector<int> indexes, numbers, want, count;
    for (int i = 0; i < N; ++i) count.push_back(i);
    int made = 0;
    bool same = true;
    auto f = [&](auto &&...items) {
        ++made;
        (indexes.push_back(static_cast<int>(items.index)), ...);
        (numbers.push_back(static_cast<int>(num(items.value))), ...);
        int k = 0;
        const void *addresses[] = { address(items.value)... };
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((same = same && addresses[k++] == &std::get<I>(t)), ...); }
        (seq<N>);
        return static_cast<int>(sizeof...(items));
    };
    CHECK(std::apply([&](auto &...a) { return pigro::enumerate_pack(f, a...); }, t) == N && made == 1, "enumerating %d arguments: not one call whose result is returned", N);
    CHECK(indexes == count, "enumerating %d arguments: the indices are not their positions", N);
    CHECK(same && differs(numbers, expected(3, seq<N>)).empty(), "enumerating %d arguments: a value is not the argument", N);
    mon::stat("items", N);
    done("enumerate_pack", N, 0);
    indexes.clear(), numbers.clear(), made = 0;
    auto g = [&](auto &&...items) {
        ++made;
        (indexes.push_back(static_cast<int>(items.index)), ...);
        (numbers.push_back(static_cast<int>(items.value)), ...);
        return static_cast<int>(sizeof...(items));
    };
    CHECK(pigro::enumerate_n<N>(g) == N && made == 1 && indexes == count && numbers == count, "enumerating the numbers to %d: not one call with each in order", N);
    mon::stat("items", N);
    done("enumerate_n", N, 0);
}
// C19
template<std::size_t I>
struct Key {};
template<std::size_t I>
struct On { // every third stateless
    int operator()(Key<I>) const { return static_cast<int>(I); }
};
template<std::size_t I>
requires(I % 3 != 0) struct On<I> {
    int n = 0;
    int operator()(Key<I>) { return static_cast<int>(I) + 1000 * n++; }
};
template<int N>
void overloads() {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        pigro::overload f{ On<I>{}... };
        for (int round = 0; round < 2; ++round) {
            std::vector<int> got{ f(Key<I>{})... }, want{ (static_cast<int>(I) + (I % 3 ? 1000 * round : 0))... };
            auto d = differs(got, want);
            CHECK(d.empty(), "an overload set of %d callables: %s", N, d.c_str());
            done("an overload set", N, round);
        }
        CHECK(!(std::is_invocable_v<decltype(f), Key<N>>), "an overload set of %d callables accepts what none of them does", N);
        mon::stat("rejections");
    }
    (seq<N>);
}
// C20
template<std::size_t I>
using listed = std::conditional_t<I % 7 == 4, int &, std::conditional_t<I % 3 == 1, Key<I>, std::array<char, I + 1>>>;
template<class T>
struct wanted : std::bool_constant<std::is_empty_v<T>> {};
template<class T>
struct unwanted : std::bool_constant<!std::is_empty_v<T>> {};
template<class... T>
std::vector<std::type_index> types(pigro::typelist<T...>) { return { typeid(list<T>)... }; }
template<std::size_t From, std::size_t... I>
auto range_list(std::index_sequence<I...>) { return pigro::typelist<listed<From + I>...>{}; }
template<std::size_t K, std::size_t N> // the first K and the rest
bool joins(const std::vector<std::type_index> &all) {
    auto a = range_list<0>(std::make_index_sequence<K>{});
    auto b = range_list<K>(std::make_index_sequence<N - K>{});
    return types(a + b) == all && types(pigro::concat(a, b)) == all;
}
template<int N>
void partitions() {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        const std::vector<std::type_index> all{ typeid(list<listed<I>>)... };
        if constexpr (N <= 130) {
            const bool joined[] = { joins<I, N>(all)... };
            for (int k = 0; k < N; ++k)
                if (!CHECK(joined[k], "joining lists of %d and %d types changes their sequence", k, N - k)) break;
        }
        const bool empty[] = { std::is_empty_v<listed<I>>... };
        for (int how = 0; how < 2; ++how) {
            std::vector<std::type_index> want;
            for (int pass = 0; pass < 2; ++pass)
                for (std::size_t i = 0; i < all.size(); ++i)
                    if (empty[i] == ((pass == 0) == (how == 0))) want.push_back(all[i]);
            const auto got = how == 0 ? types(pigro::partition_t<wanted, listed<I>...>{}) : types(pigro::partition_t<unwanted, listed<I>...>{});
            CHECK(got == want, "partitioning %d types is not stable and complete", N);
            mon::stat("both_groups"), mon::stat("types_compared", N);
            done("partition", N, how);
        }
    }
    (seq<N>);
}
// C21
struct OfSelf {
    int operator()(auto &&self, auto &&...a) const {
        clear();
        return Rec{}(std::forward<decltype(a)>(a)...) + 5000 * (static_cast<const void *>(&self) == static_cast<const void *>(this));
    }
};
template<int N>
void self_passing() {
    for (int s = 0; s < 2; ++s) {
        pigro::recursive f{ OfSelf{} };
        auto t = std_tuple(s, seq<N>);
        CHECK(std::apply([&](auto &...a) { return f(a...); }, t) == 6000 + N, "a self-passing function of %d arguments: the result", N);
        want_values("self-passing", N, expected(s, seq<N>));
        done("self-passing", N, s);
    }
}
// C23
template<int N>
void uncapturing() {
    for (int s = 0; s < 2; ++s) {
        auto f = std::apply([](auto... v) { return pigro::uncaptured(v...); }, std_tuple(s, seq<N>)) >> Rec{};
        auto g = f;
        int x = 31117;
        for (auto *p : { &f, &g, &f }) {
            clear();
            CHECK((*p)(x) == N + 1 + 1000, "%d uncaptured values: the result is not passed through", N);
            want_values("uncaptured", N, std::vector<int>{ x } + expected(s, seq<N>));
        }
        mon::stat("modifications");
        done("uncaptured", N, s);
    }
}
// C24
struct OfVoid {
    void operator()(auto &...a) const { Rec{}(a...); }
};
template<int N>
void regular() {
    for (int s = 0; s < 2; ++s) {
        auto t = std_tuple(s, seq<N>);
        auto f = pigro::regularized_void(OfVoid{});
        auto g = pigro::unregularized_void(f);
        clear();
        auto r = std::apply([&](auto &...a) { return f(a...); }, t);
        CHECK((std::is_same_v<decltype(r), pigro::regular_void>), "a regularized function of %d arguments does not return a unit value", N);
        want_values("regularized", N, expected(s, seq<N>));
        clear();
        std::apply([&](auto &...a) { g(a...); }, t);
        want_values("unregularized", N, expected(s, seq<N>));
        CHECK(std::apply([&](auto &...a) { return pigro::regularized_void(Rec{})(a...); }, t) == N + 1000, "a regularized function of %d arguments does not return its result", N);
        mon::stat("void_calls", 2), mon::stat("optional_steps");
        done("regularized", N, s);
    }
}

} // namespace bm::wide
