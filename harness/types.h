// Value types for the workloads. Every type has a small table of pairwise
// different values ("tokens" 0..dom-1), so that a value can be made from a token
// and recognised again; -1 means: not a value this type was ever made from.
#pragma once
#include "mon.h"

#include <array>
#include <bitset>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <limits>
#include <optional>
#include <string_view>
#include <tuple>
#include <variant>
#include <compare>
#include <functional>
#include <new>
#include <stdexcept>

namespace lm {

using tok_t = long long;
constexpr tok_t BAD = -1;
constexpr tok_t VOID_TOK = -2;

// ---------------------------------------------------------------- faults, lifetimes

struct Fault {
    long serial;
    int where; // 0 evaluation, 1 comparison, 2 copy
};

// the same as one of the standard's own exceptions, or as something that is none
template<class Base, class Info>
struct As : Base, Info {
    template<class... A>
    explicit As(const Info &i, A... a) : Base(a...), Info(i) {}
};
template<class Info>
[[noreturn]] void throw_as(unsigned kind, const Info &i) {
    switch (kind % 9) {
    case 0: throw As<std::runtime_error, Info>(i, "runtime");
    case 1: throw As<std::bad_alloc, Info>(i);
    case 2: throw As<std::bad_optional_access, Info>(i);
    case 3: throw As<std::bad_variant_access, Info>(i);
    case 4: throw As<std::bad_function_call, Info>(i);
    case 5: throw As<std::logic_error, Info>(i, "logic");
    case 6: throw As<std::out_of_range, Info>(i, "range");
    case 7: throw As<std::exception, Info>(i);
    default: throw i;
    }
}

struct Hooks {
    long fault_in = -1; // throw at the n-th faultable event from now
    long serial = 0;
    long fired = 0;
    long cmp_events = 0, copy_events = 0;
    bool copies_throw = false;
    bool quiet = true; // outside of calls: no faults, no comparison events
    std::vector<std::pair<int, int>> cmps; // origins of compared Spy values
};
inline Hooks &hooks() {
    static thread_local Hooks h;
    return h;
}
inline void faultable(int where) {
    auto &h = hooks();
    if (h.quiet || h.fault_in < 0) return;
    if (h.fault_in-- == 0) {
        ++h.fired;
        ++h.serial;
        throw_as(static_cast<unsigned>(h.serial), Fault{ h.serial, where });
    }
}

// every live tracked object, by address
struct Registry {
    std::unordered_set<const void *> live;
    long constructed = 0, destroyed = 0, errors = 0;
    void error(const char *what, const void *p) {
        if (++errors <= 5) mon::violation(mon::format("lifetime: %s (object %p)", what, p));
    }
    void born(const void *p) {
        ++constructed;
        if (!live.insert(p).second) error("constructed on top of a live object", p);
    }
    void used(const void *p) {
        if (!live.count(p)) error("use of an object that is not alive", p);
    }
    void died(const void *p) {
        ++destroyed;
        if (!live.erase(p)) error("destroyed an object that is not alive", p);
    }
};
inline Registry &registry() {
    static thread_local Registry r;
    return r;
}

// ---------------------------------------------------------------- instrumented values

// compares with an event
struct Spy {
    int tok = 0;
    int origin = -1;
    friend bool operator==(const Spy &a, const Spy &b) {
        if (!hooks().quiet) {
            ++hooks().cmp_events;
            hooks().cmps.emplace_back(a.origin, b.origin);
        }
        faultable(1);
        return a.tok == b.tok;
    }
    friend bool operator!=(const Spy &a, const Spy &b) { return !(a == b); }
};

// owns memory, is registered, may throw when copied or compared
struct Heap {
    int *p;
    explicit Heap(int v) : p{ new int{ v } } { registry().born(this); }
    Heap(const Heap &o) : p{ nullptr } {
        registry().used(&o);
        if (!hooks().quiet) ++hooks().copy_events;
        if (hooks().copies_throw) faultable(2);
        p = o.p ? new int{ *o.p } : nullptr;
        registry().born(this);
    }
    Heap(Heap &&o) noexcept : p{ o.p } {
        registry().used(&o);
        o.p = nullptr;
        registry().born(this);
    }
    Heap &operator=(const Heap &o) {
        registry().used(&o);
        registry().used(this);
        if (this != &o) {
            if (hooks().copies_throw) faultable(2);
            int *q = o.p ? new int{ *o.p } : nullptr;
            delete p;
            p = q;
        }
        return *this;
    }
    Heap &operator=(Heap &&o) noexcept {
        registry().used(&o);
        registry().used(this);
        std::swap(p, o.p);
        return *this;
    }
    ~Heap() {
        registry().died(this);
        delete p;
        p = reinterpret_cast<int *>(0x10);
    }
    int get() const {
        registry().used(this);
        return p ? *p : -1;
    }
    friend bool operator==(const Heap &a, const Heap &b) {
        faultable(1);
        return a.get() == b.get();
    }
};

// can only be copied, also where others are moved; each copy may throw
struct Costly {
    int v;
    explicit Costly(int x) : v{ x } { registry().born(this); }
    Costly(const Costly &o) : v{ o.v } {
        registry().used(&o);
        if (hooks().copies_throw) faultable(2);
        registry().born(this);
    }
    Costly &operator=(const Costly &o) {
        registry().used(&o);
        registry().used(this);
        if (hooks().copies_throw) faultable(2);
        v = o.v;
        return *this;
    }
    ~Costly() {
        registry().died(this);
        v = -1;
    }
    tok_t token() const {
        registry().used(this);
        return v;
    }
    friend bool operator==(const Costly &a, const Costly &b) { return a.token() == b.token(); }
};

struct Point {
    int x, y;
    bool operator==(const Point &) const = default;
};
struct OnlyEq {
    std::string s;
    friend bool operator==(const OnlyEq &a, const OnlyEq &b) { return a.s == b.s; }
};
struct NoDefault {
    int v;
    explicit NoDefault(int x) : v{ x } {}
    bool operator==(const NoDefault &o) const { return v == o.v; }
    bool operator!=(const NoDefault &o) const { return v != o.v; }
};
struct Big {
    int a[200];
    bool operator==(const Big &o) const { return std::memcmp(a, o.a, sizeof a) == 0; }
};
struct alignas(64) Aligned {
    double d;
    bool operator==(const Aligned &o) const { return d == o.d; }
};
struct EmptyVal {
    bool operator==(const EmptyVal &) const { return true; }
};
// equality that ignores part of the representation: copies made for the same token differ
inline unsigned noise() {
    static thread_local unsigned n = 0;
    return ++n * 2654435761u;
}
struct Coarse {
    int v;
    unsigned ignored;
    bool operator==(const Coarse &o) const { return v == o.v; }
};
// takes a list of itself: braces around one make another value
struct Json {
    int k = 0;
    std::vector<Json> v;
    Json() = default;
    explicit Json(int x) : k{ x } {}
    Json(std::initializer_list<Json> l) : k{ -1 }, v(l) {}
    bool operator==(const Json &o) const { return k == o.k && v == o.v; }
};
// constructible from anything
struct Greedy {
    int v = 0;
    Greedy() = default;
    Greedy(const Greedy &) = default;
    Greedy(Greedy &) = default;
    Greedy(Greedy &&) = default;
    Greedy &operator=(const Greedy &) = default;
    template<class T>
    requires(!std::is_same_v<std::remove_cvref_t<T>, Greedy>) Greedy(T &&) : v{ -99 } {}
    static Greedy of(int x) {
        Greedy g;
        g.v = x;
        return g;
    }
    friend bool operator==(const Greedy &a, const Greedy &b) { return a.v == b.v; }
};
// with operators one does not expect
struct Amp {
    int v = 0;
    void operator&() const {}
    template<class T>
    void operator,(T &&) const {}
    bool operator!() const { return true; }
    explicit operator bool() const { return false; }
    bool operator==(const Amp &o) const { return v == o.v; }
};
// with an order that does not distinguish all that is unequal
struct Ordered {
    int v = 0;
    bool operator==(const Ordered &o) const { return v == o.v; }
    std::weak_ordering operator<=>(const Ordered &o) const { return v / 3 <=> o.v / 3; }
};
// the result of == is not a bool
struct Verdict {
    int bits;
    operator bool() const { return bits != 0; }
};
struct OddEq {
    int v = 0;
    friend Verdict operator==(const OddEq &a, const OddEq &b) { return { a.v == b.v ? 6 : 0 }; }
    friend Verdict operator!=(const OddEq &a, const OddEq &b) { return { a.v != b.v ? 8 : 0 }; }
};
// empty
struct FinalNil final {
    bool operator==(const FinalNil &) const { return true; }
};
struct NilNoDefault {
    explicit NilNoDefault(int) {}
    bool operator==(const NilNoDefault &) const { return true; }
};
struct Padded {
    char c;
    int i;
    bool operator==(const Padded &) const = default;
};
// only as constants: no equality
struct NoEq {
    std::string s;
    int t;
    int token() const { return s == std::string(30, 'n') + std::to_string(t) ? t : -7; }
};
struct Functor { // not callable without arguments: a value
    int t;
    int operator()(int x) const { return x + t; }
    int token() const { return t; }
};
struct EmptyFunctor {
    int operator()(int, int) const { return 1; }
    int token() const { return 0; }
};
enum class Colour : signed char { red = -3, green = 5, blue = 127, grey = 0, black = 1 };

// ---------------------------------------------------------------- codecs

template<class T>
struct Codec;

#define CODEC(T, D, ...)                   \
    template<>                             \
    struct Codec<T> {                      \
        using type = T;                    \
        static constexpr int dom = D;      \
        static type make(int t) __VA_ARGS__ \
    };

template<class T>
T integer(int t) {
    using L = std::numeric_limits<T>;
    switch (t) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return L::max();
    case 3: return L::min() == T(0) ? T(L::max() - 1) : L::min();
    case 4: return T(L::max() / 2 + 1);
    case 5: return T(2);
    default: return T(3 + t);
    }
}
template<class F>
F floating(int t) {
    switch (t) {
    case 0: return noise() & 0x10000 ? F(0) : -F(0);
    case 1: return F(1);
    case 2: return std::nextafter(F(1), F(2));
    case 3: return -std::numeric_limits<F>::infinity();
    case 4: return std::numeric_limits<F>::denorm_min();
    case 5: return std::numeric_limits<F>::max();
    case 6: return F(-1);
    case 7: return F(0.1);
    default: return F(0.1) * F(1 + std::numeric_limits<F>::epsilon() * (t - 7) * 4);
    }
}
inline std::string text(int t) {
    std::string s;
    if (t == 0) return s;
    if (t % 3 == 1) s = std::string(40, 'x'); // long: heap allocated
    if (t % 5 == 2) s += std::string(1, '\0');
    return s + std::to_string(t);
}
inline const int *pool(int t) {
    static const int p[64] = {};
    return p + t;
}

CODEC(bool, 2, { return t == 1; })
CODEC(char, 12, { return static_cast<char>(t * 20 - 100); })
CODEC(signed char, 12, { return integer<signed char>(t); })
CODEC(unsigned char, 12, { return integer<unsigned char>(t); })
CODEC(short, 12, { return integer<short>(t); })
CODEC(unsigned short, 12, { return integer<unsigned short>(t); })
CODEC(int, 12, { return integer<int>(t); })
CODEC(unsigned, 12, { return integer<unsigned>(t); })
CODEC(long, 12, { return integer<long>(t); })
CODEC(long long, 12, { return t < 6 ? integer<long long>(t) : (1LL << 32) * (t - 5) + 1; })
CODEC(unsigned long long, 12, { return t < 6 ? integer<unsigned long long>(t) : (1ULL << (26 + t)) + 1; })
CODEC(char32_t, 12, { return integer<char32_t>(t); })
CODEC(float, 10, { return t == 9 ? std::numeric_limits<float>::quiet_NaN() : floating<float>(t); })
CODEC(double, 12, { return floating<double>(t); })
CODEC(long double, 12, { return floating<long double>(t); })
CODEC(Colour, 5, { constexpr Colour c[] = { Colour::red, Colour::green, Colour::blue, Colour::grey, Colour::black }; return c[t]; })
CODEC(const int *, 12, { return t == 0 ? nullptr : pool(t); })
CODEC(std::string, 12, { return text(t); })
CODEC(std::string_view, 12, { static const std::array<std::string, 12> k = [] { std::array<std::string, 12> a; for (int i = 0; i < 12; ++i) a[i] = text(i); return a; }(); return k[t]; })
CODEC(std::vector<int>, 12, { return t % 2 ? std::vector<int>(t, 7) : std::vector<int>(t, t); })
CODEC(std::vector<std::string>, 12, { std::vector<std::string> v; for (int i = 0; i < t; ++i) v.push_back(text(i)); return v; })
using pair_ii = std::pair<int, int>;
using pair_si = std::pair<std::string, int>;
using tuple_i = std::tuple<int>;
using tuple_is = std::tuple<int, std::string>;
using tuple_t = std::tuple<std::tuple<int>>;
using array_3 = std::array<int, 3>;
using variant_is = std::variant<int, std::string>;
using map_is = std::map<int, std::string>;
CODEC(pair_ii, 12, { return { t / 2, t % 2 }; })
CODEC(pair_si, 12, { return { text(t / 2), t % 2 }; })
CODEC(tuple_i, 12, { return tuple_i{ integer<int>(t) }; })
CODEC(tuple_is, 12, { return { t % 2, text(t / 2) }; })
CODEC(tuple_t, 12, { return tuple_t{ std::tuple<int>{ t } }; })
CODEC(array_3, 12, { return { t % 2, t / 2, -t }; })
CODEC(std::optional<int>, 12, { return t == 0 ? std::optional<int>{} : std::optional<int>{ t - 1 }; })
CODEC(std::optional<std::string>, 12, { return t == 0 ? std::optional<std::string>{} : std::optional<std::string>{ text(t - 1) }; })
CODEC(variant_is, 12, { return t % 2 ? variant_is{ text(t / 2) } : variant_is{ t / 2 }; })
CODEC(map_is, 12, { map_is m; for (int i = 0; i < t; ++i) m[i] = text(i); return m; })
CODEC(std::shared_ptr<int>, 12, { static const std::array<std::shared_ptr<int>, 12> k = [] { std::array<std::shared_ptr<int>, 12> a; for (int i = 1; i < 12; ++i) a[i] = std::make_shared<int>(7); return a; }(); return k[t]; })
CODEC(std::complex<double>, 12, { return { floating<double>(t / 3), double(t % 3) }; })
CODEC(std::chrono::milliseconds, 12, { return std::chrono::milliseconds{ integer<long>(t) }; })
CODEC(std::bitset<9>, 12, { return std::bitset<9>(static_cast<unsigned>(t * 37)); })
CODEC(Point, 12, { return { t % 2, t / 2 }; })
CODEC(OnlyEq, 12, { return { text(t) }; })
CODEC(NoDefault, 12, { return NoDefault{ t }; })
CODEC(Big, 12, { Big b{}; b.a[t == 0 ? 0 : 199 - t] = 1; return b; })
CODEC(Aligned, 12, { return { floating<double>(t) }; })
CODEC(EmptyVal, 1, { (void) t; return {}; })
CODEC(Json, 12, { return t % 3 == 2 ? Json{ Json(t), Json(7) } : Json(t); })
CODEC(Greedy, 12, { return Greedy::of(t); })
CODEC(Amp, 12, { return { t }; })
CODEC(Ordered, 12, { return { t }; })
CODEC(OddEq, 12, { return { t }; })
CODEC(FinalNil, 1, { (void) t; return {}; })
CODEC(NilNoDefault, 1, { (void) t; return NilNoDefault{ 1 }; })
CODEC(Coarse, 12, { return { t, noise() }; })
CODEC(Padded, 12, { Padded p; std::memset(static_cast<void *>(&p), static_cast<int>(noise() >> 16), sizeof p); p.c = static_cast<char>(t % 2); p.i = t / 2; return p; })
CODEC(NoEq, 12, { return { std::string(30, 'n') + std::to_string(t), t }; })
CODEC(Functor, 12, { return { t }; })
CODEC(EmptyFunctor, 1, { (void) t; return {}; })
CODEC(std::nullptr_t, 1, { (void) t; return nullptr; })
CODEC(std::monostate, 1, { (void) t; return {}; })
CODEC(Spy, 12, { return { t, -1 }; })
CODEC(Costly, 12, { return Costly{ t }; })
CODEC(Heap, 12, { return Heap{ t }; })

template<class T>
tok_t dec(const T &v) {
    if constexpr (std::is_same_v<T, Spy>)
        return v.tok;
    else if constexpr (std::is_same_v<T, Heap>)
        return v.get();
    else if constexpr (requires { v.token(); })
        return v.token();
    else {
        if constexpr (std::is_same_v<T, float>)
            if (std::isnan(v)) return 9;
        static const std::vector<T> table = [] {
            std::vector<T> t;
            for (int i = 0; i < Codec<T>::dom; ++i) t.push_back(Codec<T>::make(i));
            return t;
        }();
        for (std::size_t i = 0; i < table.size(); ++i)
            if (table[i] == v) return static_cast<tok_t>(i);
        return BAD;
    }
}
template<class T>
T make(tok_t t, int origin) {
    if constexpr (std::is_same_v<T, Spy>)
        return Spy{ static_cast<int>(t), origin };
    else
        return Codec<T>::make(static_cast<int>(t));
}
// does token t of this type compare equal to itself?
template<class T>
constexpr tok_t unequal_to_itself() {
    return std::is_same_v<T, float> ? 9 : BAD;
}

} // namespace lm
