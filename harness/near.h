// Values that differ by as little as values of their type can, and back again.
#pragma once
#include "special.h"

#include <array>
#include <bitset>
#include <chrono>
#include <climits>
#include <complex>
#include <cmath>
#include <deque>
#include <limits>
#include <map>
#include <set>
#include <system_error>
#include <typeindex>
#include <unordered_map>
#include <valarray>
#include <variant>

namespace sp {

template<class T>
struct Near {
    inline static std::vector<T> values;
    inline static std::size_t now = 0;
    inline static std::vector<std::size_t> received; // by the functions on top
    inline static long inner = 0, through = 0;
    static bool same(const T &a, const T &b) { return a == b || (a != a && b != b); }
    static std::size_t index(const T &v) { // of the first value like v
        std::size_t k = 0;
        while (k < values.size() && !same(values[k], v)) ++k;
        return k;
    }
    struct Source {
        T operator()() const { return values[now]; }
    };
    struct Describe {
        std::size_t operator()(const T &v) const {
            received.push_back(index(v));
            return received.back();
        }
    };
    struct Beside {
        std::size_t operator()(const T &v, int, const std::string &) const { return Describe{}(v); }
    };
    struct Inner {
        T operator()(const T &v) const {
            ++inner;
            return v;
        }
    };
    struct Through { // a result like its argument
        T operator()(const T &v, char) const {
            ++through;
            return v;
        }
    };
    struct Three {
        int operator()() const { return 3; }
    };
};

template<class T>
void near(const char *name, std::vector<T> values) {
    using N = Near<T>;
    N::values = std::move(values), N::now = 0;
    auto plain = lazy(typename N::Describe{}, typename N::Source{});
    auto nested = lazy(typename N::Beside{}, lazy(typename N::Inner{}, typename N::Source{}), typename N::Three{}, std::string("constant"));
    auto through = lazy(typename N::Through{}, typename N::Source{}, 'c');
    const auto n = N::values.size();
    std::size_t last = n;
    auto visit = [&](std::size_t k) {
        N::now = k;
        const auto is = N::index(N::values[k]);
        const bool due = last == n || N::values[last] != N::values[k];
        auto go = [&](auto &f, const char *what) {
            N::received.clear(), N::inner = 0, N::through = 0;
            const std::size_t got = f();
            mon::stat("calls"), mon::stat(due ? "source_changes" : "cache_hits");
            return CHECK_FOR("C01", got == is && (!due || (N::received.size() == 1 && N::received[0] == is)), "%s, %s: the result for value %zu after value %zu is that for value %zu", name, what, k, last, got)
                && CHECK_FOR("C02 C03", N::received.size() == due, "%s, %s: value %zu after value %zu: evaluated %zu times", name, what, k, last, N::received.size());
        };
        if (!go(plain, "a plain dependency") || !go(nested, "a nested function")) return false;
        if (!CHECK_FOR("C02 C03", N::inner == due, "%s: the inner function is evaluated %ld times for value %zu after value %zu", name, N::inner, k, last)) return false;
        N::through = 0;
        const T got = through();
        if (!CHECK_FOR("C01", N::same(got, N::values[k]), "%s: the result of the function is not its argument", name)) return false;
        if (!CHECK_FOR("C02", N::through == due, "%s: evaluated %ld times for value %zu after value %zu", name, N::through, k, last)) return false;
        seen(std::hash<std::string_view>{}(name), last * 64 + k, due);
        last = k;
        return true;
    };
    for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b)
            for (auto k : { a, b, a, a, b, b })
                if (!visit(k)) return;
    mon::sample(mon::format("%s: %zu values that are nearly the same, every one after every other", name, n));
}

// the smallest and largest values, those next to them, and those that differ in one bit
template<class T>
std::vector<T> bits() {
    std::vector<T> v{ 0, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), static_cast<T>(std::numeric_limits<T>::max() - 1) };
    for (int b = 0; b < std::numeric_limits<T>::digits; b += std::numeric_limits<T>::digits > 20 ? 5 : 1) v.push_back(static_cast<T>(T{ 1 } << b));
    if (std::numeric_limits<T>::digits > 20) v.push_back(static_cast<T>(T{ 1 } << (std::numeric_limits<T>::digits - 1)));
    return v;
}
template<class T>
std::vector<T> reals() {
    using L = std::numeric_limits<T>;
    return { 0, -T{ 0 }, 1, std::nextafter(T{ 1 }, T{ 2 }), std::nextafter(T{ 1 }, T{ 0 }), L::denorm_min(), -L::denorm_min(), L::min(), L::max(), std::nextafter(L::max(), T{ 0 }), L::infinity(), -L::infinity(), L::quiet_NaN(), T(1e-30), T(2e-30) };
}

#if NEAR == 0
inline void nearly(mon::Rng &) {
    near<bool>("bool", { false, true });
    near<char>("char", { 'a', 'b', '\0', '\x7f', '\x80', '\xff' });
    near<unsigned char>("unsigned char", bits<unsigned char>());
    near<short>("short", bits<short>());
    near<unsigned>("unsigned", bits<unsigned>());
    near<long long>("long long", bits<long long>());
    near<unsigned long>("unsigned long", bits<unsigned long>());
    near<__int128>("__int128", { 0, 1, static_cast<__int128>(1) << 64, (static_cast<__int128>(1) << 64) + 1, static_cast<__int128>(1) << 100, -1 });
    near<float>("float", reals<float>());
    near<double>("double", reals<double>());
    near<long double>("long double", reals<long double>());
    near<std::complex<double>>("complex", { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1e-300 }, { 1e300, 1 } });
    enum class Color : unsigned char { red, green = 128, blue = 255 };
    near<Color>("an enumeration", { Color::red, Color::green, Color::blue });
    static int a[3];
    near<int *>("pointers into an array", { a, a + 1, a + 2, nullptr });
    static const char text[] = "equal", other[] = "equal";
    near<const char *>("pointers to equal texts", { text, other, text + 1 });
    near<const void *>("pointers to void", { a, text, nullptr });
    struct Base { int x; virtual ~Base() = default; };
    struct A : Base {};
    static A first, second;
    near<Base *>("pointers to bases", { &first, &second, nullptr });
    near<int Base::*>("member pointers", { &Base::x, nullptr });
    near<int (*)(int)>("function pointers", { [](int x) { return x; }, [](int x) { return x + 1; }, nullptr });
    near<std::byte>("byte", { std::byte{ 0 }, std::byte{ 1 }, std::byte{ 128 } });
    near<char32_t>("char32_t", { 0, 1, 0x10000, 0x10ffff });
}
#elif NEAR == 1
struct Padded { // its second value is behind padding
    char c;
    long long x;
    bool operator==(const Padded &) const = default;
};
struct Based : Padded {
    char last[3] = {};
    bool operator==(const Based &) const = default;
};
struct Bits {
    unsigned a : 3, b : 5;
    bool operator==(const Bits &) const = default;
};
struct Selective { // equal as to its key; a value that does not matter
    int key, ignored;
    bool operator==(const Selective &o) const { return key == o.key; }
};
inline void nearly(mon::Rng &) {
    const std::string l(50, 'l');
    auto with = [&](std::size_t at, char c) {
        auto s = l;
        s[at] = c;
        return s;
    };
    using namespace std::string_literals;
    near<std::string>("string", { "", "\0"s, "a", "a\0b"s, "a\0c"s, "abc", "axc", "abd", l, with(0, 'x'), with(49, 'x'), with(25, 'x'), with(25, '\0'), l + 'l' });
    static const std::string s1 = l, s2 = l, s3 = with(30, 'x');
    near<std::string_view>("string_view", { s1, s2, s3, std::string_view(s1).substr(1), "", {} });
    near<std::u16string>("u16string", { u"", u"a", u"\u0161", u"a\u0100c", u"a\u0200c" });
    near<std::vector<int>>("vector", { {}, { 0 }, { 0, 0 }, { 1, 2, 3, 4, 5 }, { 1, 2, 4, 4, 5 }, { 1, 3, 2, 4, 5 }, { 1, 2, 3, 4, 6 }, { 0, 2, 3, 4, 5 } });
    near<std::vector<bool>>("vector<bool>", { {}, { false }, { true }, std::vector<bool>(100, true), [] { std::vector<bool> v(100, true); v[64] = false; return v; }(), [] { std::vector<bool> v(100, true); v[99] = false; return v; }() });
    near<std::vector<std::vector<std::string>>>("nested vectors", { {}, { {} }, { { "a" }, { "b", l } }, { { "a" }, { "b", with(20, 'x') } }, { { "a", "b" }, { l } } });
    near<std::array<int, 5>>("array", { { 1, 2, 3, 4, 5 }, { 1, 2, 0, 4, 5 }, { 1, 2, 3, 4, 0 }, { 0, 2, 3, 4, 5 } });
    near<std::list<int>>("list", { {}, { 1, 2, 3 }, { 1, 3, 2 }, { 1, 5, 3 } });
    near<std::deque<std::string>>("deque", { {}, { "a", l, "c" }, { "a", with(1, 'x'), "c" } });
    near<std::map<int, std::string>>("map", { {}, { { 1, "a" } }, { { 1, "b" } }, { { 2, "a" } }, { { 1, "a" }, { 2, l }, { 3, "c" } }, { { 1, "a" }, { 2, with(9, 'x') }, { 3, "c" } } });
    near<std::unordered_map<std::string, int>>("unordered_map", { {}, { { "a", 1 }, { "b", 2 } }, { { "b", 2 }, { "a", 1 } }, { { "a", 2 }, { "b", 1 } } });
    near<std::set<int>>("set", { {}, { 1, 2, 3 }, { 1, 2, 4 }, { 1, 7, 3 } });
    near<std::multiset<int>>("multiset", { { 1, 1, 2 }, { 1, 2, 2 }, { 1, 2 } });
    near<Padded>("a struct with padding", { { 'a', 1 }, { 'b', 1 }, { 'a', 1LL << 40 }, { 'a', 2 } });
    near<Based>("a derived struct", { { { 'a', 1 }, "" }, { { 'a', 2 }, "" }, { { 'a', 1 }, "x" }, { { 'a', 1 }, { 0, 0, 'x' } } });
    near<Bits>("bit fields", { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 7, 31 }, { 7, 30 } });
    near<Selective>("a struct whose comparison ignores a member", { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 } });
}
#elif NEAR == 2
inline void nearly(mon::Rng &) {
    const std::string l(50, 'l');
    using OO = std::optional<std::optional<int>>;
    near<std::optional<int>>("optional", { std::nullopt, 0, 1, -1 });
    near<OO>("optional of optional", { OO{}, OO{ std::optional<int>{} }, OO{ std::optional<int>{ 0 } }, OO{ std::optional<int>{ 1 } } });
    near<std::optional<bool>>("optional<bool>", { std::nullopt, false, true });
    near<std::optional<std::string>>("optional string", { std::nullopt, "", "a", l });
    using V = std::variant<int, long, std::string>;
    near<V>("variant", { V{ 0 }, V{ 0L }, V{ 1 }, V{ 1L }, V{ "" }, V{ l } });
    near<std::variant<int, int>>("variant with the same type twice", { std::variant<int, int>{ std::in_place_index<0>, 1 }, std::variant<int, int>{ std::in_place_index<1>, 1 }, std::variant<int, int>{ std::in_place_index<1>, 2 } });
    near<std::pair<int, std::string>>("pair", { { 1, "a" }, { 1, "b" }, { 2, "a" } });
    near<std::tuple<int, char, std::string>>("tuple", { { 1, 'a', "x" }, { 1, 'a', "y" }, { 1, 'b', "x" }, { 2, 'a', "x" } });
    near<std::tuple<std::pair<int, int>, std::array<char, 2>>>("nested tuples", { { { 1, 2 }, { 'a', 'b' } }, { { 1, 2 }, { 'a', 'c' } }, { { 1, 3 }, { 'a', 'b' } }, { { 0, 2 }, { 'a', 'b' } } });
    const auto p = std::make_shared<int>(1), q = std::make_shared<int>(1);
    near<std::shared_ptr<int>>("shared_ptr to equal values", { p, q, nullptr, std::shared_ptr<int>(p, q.get()) });
    near<std::bitset<100>>("bitset", { {}, 1, std::bitset<100>{}.set(64), std::bitset<100>{}.set(99) });
    near<std::chrono::nanoseconds>("a duration", { std::chrono::nanoseconds{ 0 }, std::chrono::nanoseconds{ 1 }, std::chrono::hours{ 1 }, std::chrono::hours{ 24 * 365 * 200 } });
    near<std::chrono::system_clock::time_point>("a time point", { {}, std::chrono::system_clock::time_point{ std::chrono::nanoseconds{ 1 } } });
    near<std::error_code>("error codes", { {}, std::error_code(1, std::generic_category()), std::error_code(1, std::system_category()), std::error_code(2, std::generic_category()) });
    near<std::type_index>("type_index", { typeid(int), typeid(long), typeid(const int *) });
    near<std::monostate>("monostate", { {}, {} });
    near<std::nullptr_t>("nullptr", { nullptr, nullptr });
    near<std::vector<std::optional<int>>>("a vector of optionals", { {}, { std::nullopt }, { 0 }, { 0, std::nullopt, 0 }, { 0, 0, 0 } });
    near<std::vector<double>>("a vector with NaN", { { 1, 2 }, { 1, NAN }, { 1, std::nextafter(2, 3) } });
    near<std::map<std::string, std::vector<int>>>("a map of vectors", { {}, { { "a", {} } }, { { "a", { 1, 2, 3 } } }, { { "a", { 1, 0, 3 } } } });
    near<std::pair<double, float>>("a pair of reals", { { 1, 1 }, { std::nextafter(1, 2), 1 }, { 1, std::nextafter(1.f, 2.f) }, { -0.0, 0 }, { 0.0, 0 } });
}
#endif

} // namespace sp
