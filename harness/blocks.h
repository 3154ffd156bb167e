// Monitors for the building blocks: instrumented argument types, a recorder for what a
// callable receives, and a family of callables to hand to the library.
#pragma once
#include "types.h"

#include <pigro/apply.h>
#include <pigro/bind_tuple.h>
#include <pigro/compressed_tuple.h>
#include <pigro/forward_like.h>
#include <pigro/fwd_capture.h>
#include <pigro/overload.h>
#include <pigro/pack_algorithms.h>
#include <pigro/partition.h>
#include <pigro/recursive.h>
#include <pigro/regular_void.h>
#include <pigro/to_tuple.h>
#include <pigro/tuple_algorithms.h>
#include <pigro/uncapture.h>
#include <pigro/utils.h>

#include <typeindex>
#include <typeinfo>

namespace lm {

// counts copies and moves
struct Obj {
    int tok = 0;
    static inline thread_local long copies = 0, moves = 0;
    Obj() = default;
    explicit Obj(int t) : tok{ t } {}
    Obj(const Obj &o) : tok{ o.tok } { ++copies; }
    Obj(Obj &&o) noexcept : tok{ o.tok } {
        o.tok = 11;
        ++moves;
    }
    Obj &operator=(const Obj &o) {
        tok = o.tok;
        ++copies;
        return *this;
    }
    Obj &operator=(Obj &&o) noexcept {
        tok = o.tok;
        o.tok = 11;
        ++moves;
        return *this;
    }
    friend bool operator==(const Obj &a, const Obj &b) { return a.tok == b.tok; }
};
struct MoveOnly {
    std::unique_ptr<int> p;
    MoveOnly() : p{ std::make_unique<int>(0) } {}
    explicit MoveOnly(int t) : p{ std::make_unique<int>(t) } {}
    friend bool operator==(const MoveOnly &a, const MoveOnly &b) { return (a.p ? *a.p : -1) == (b.p ? *b.p : -1); }
};
template<int N>
struct Nil { // empty
    friend bool operator==(Nil, Nil) { return true; }
};
struct LoudNil { // empty, with special members of its own
    static inline thread_local long alive = 0;
    LoudNil() { ++alive; }
    LoudNil(const LoudNil &) { ++alive; }
    LoudNil &operator=(const LoudNil &) { return *this; }
    ~LoudNil() { --alive; }
    friend bool operator==(const LoudNil &, const LoudNil &) { return true; }
};
CODEC(Obj, 10, { return Obj{ t }; })
CODEC(MoveOnly, 12, { return MoveOnly{ t }; })
CODEC(std::tuple<>, 1, { (void) t; return {}; })
CODEC(LoudNil, 1, { (void) t; return {}; })
template<int N>
struct Codec<Nil<N>> {
    static constexpr int dom = 1;
    static Nil<N> make(int) { return {}; }
};
inline tok_t dec(const Obj &o) { return o.tok; }
inline tok_t dec(const MoveOnly &o) { return o.p ? *o.p : BAD; }
inline tok_t dec(const LoudNil &) { return 0; }
template<int N>
tok_t dec(const Nil<N> &) { return 0; }
inline tok_t dec(const std::tuple<> &) { return 0; }

} // namespace lm

namespace bm {

using namespace lm;

template<class... T>
struct list {};

constexpr int RV = 1, CN = 2, VL = 4;
// category and qualification of the expression with which a forwarding parameter was bound
template<class A>
constexpr int cat = (std::is_lvalue_reference_v<A> ? 0 : RV) | (std::is_const_v<std::remove_reference_t<A>> ? CN : 0) | (std::is_volatile_v<std::remove_reference_t<A>> ? VL : 0);
inline std::string cat_name(int c) { return std::string(c & CN ? "const " : "") + (c & VL ? "volatile " : "") + (c & RV ? "&&" : "&"); }

struct Seen {
    int cat;
    const void *addr;
    tok_t tok;
    std::type_index type;
};
struct Log {
    std::vector<std::vector<Seen>> calls;
    std::vector<int> who;
    std::vector<long> state;
    void clear() { calls.clear(), who.clear(), state.clear(); }
};
inline Log &log() {
    static thread_local Log l;
    return l;
}
template<class A>
const void *address(A &&a) { return const_cast<const void *>(static_cast<const volatile void *>(std::addressof(a))); }

template<class A>
Seen see(A &&a) {
    using T = std::remove_cvref_t<A>;
    tok_t t = BAD;
    if constexpr (requires { dec(static_cast<const T &>(a)); })
        t = dec(const_cast<const T &>(static_cast<const volatile T &>(a)));
    return { cat<A &&>, address(a), t, typeid(T) };
}
template<class... A>
tok_t note(int who, long state, A &&...a) {
    std::vector<Seen> v;
    (v.push_back(see(std::forward<A>(a))), ...);
    std::uint64_t h = mon::mix(5, static_cast<std::uint64_t>(who));
    for (auto &s : v) h = mon::mix(h, static_cast<std::uint64_t>(s.tok));
    log().calls.push_back(v);
    log().who.push_back(who);
    log().state.push_back(state);
    return static_cast<tok_t>(h >> 16);
}

// ---------------------------------------------------------------- callables

struct Plain { // stateless
    template<class... A>
    tok_t operator()(A &&...a) const { return note(1, 0, std::forward<A>(a)...); }
};
struct State { // with a captured value
    std::string s = "captured state, long enough to be on the heap";
    template<class... A>
    tok_t operator()(A &&...a) const { return note(2, static_cast<long>(s.size()), std::forward<A>(a)...); }
};
struct Small { // with little, trivially copyable state
    int v = 77;
    template<class... A>
    tok_t operator()(A &&...a) const { return note(8, v, std::forward<A>(a)...); }
};
struct LargeState { // with much trivially copyable state
    int v[60];
    LargeState() {
        for (int &x : v) x = 5;
    }
    template<class... A>
    tok_t operator()(A &&...a) const {
        long sum = 0;
        for (int x : v) sum += x;
        return note(9, sum, std::forward<A>(a)...);
    }
};
struct Pointing { // with a pointer
    static inline int target = 13;
    const int *p = &target;
    template<class... A>
    tok_t operator()(A &&...a) const { return note(10, *p, std::forward<A>(a)...); }
};
// the state constant callables report
inline bool intact(int who, long state) {
    switch (who) {
    case 2: return state == 45;
    case 8: return state == 77;
    case 9: return state == 300;
    case 10: return state == 13;
    default: return true;
    }
}
struct Mutating { // with state it changes
    long n = 0;
    template<class... A>
    tok_t operator()(A &&...a) { return note(3, n++, std::forward<A>(a)...); }
};
struct ReturnsVoid {
    template<class... A>
    void operator()(A &&...a) const { note(4, 0, std::forward<A>(a)...); }
};
template<int K>
struct ReturnsArg { // passes its K-th argument through, with its category
    template<class... A>
    auto operator()(A &&...a) const -> decltype(std::get<K>(std::forward_as_tuple(std::forward<A>(a)...))) {
        note(5, 0, std::forward<A>(a)...);
        return std::get<K>(std::forward_as_tuple(std::forward<A>(a)...));
    }
};
struct ReturnsMoveOnly {
    template<class... A>
    MoveOnly operator()(A &&...a) const {
        note(6, 0, std::forward<A>(a)...);
        return MoveOnly{ 7 };
    }
};
template<class T, int N>
struct NotCopyable; // never defined
struct Overloaded { // distinguishes the categories of its last argument
    template<class... A>
    int operator()(A &&...a) const {
        note(7, 0, std::forward<A>(a)...);
        return last(std::forward<A>(a)...);
    }
    static int last() { return -1; }
    template<class A>
    static int last(A &&) { return cat<A &&>; }
    template<class A, class... B>
    static int last(A &&, B &&...b) { return last(std::forward<B>(b)...); }
};

// ---------------------------------------------------------------- making values

template<class T>
T value(mon::Rng &rng, tok_t *out = nullptr) {
    const tok_t t = static_cast<tok_t>(rng.below(Codec<T>::dom));
    if (out) *out = t;
    return make<T>(t, 0);
}
template<class T>
constexpr bool is_empty_v = std::is_empty_v<std::remove_cvref_t<T>>;

template<class T>
std::string type_name() {
    std::string s = __PRETTY_FUNCTION__;
    auto p = s.find("T = ");
    s = p == std::string::npos ? s : s.substr(p + 4);
    auto q = s.find("; std::string");
    if (q != std::string::npos) s = s.substr(0, q);
    return s.substr(0, 160);
}

// inside [base, base + size)
inline bool inside(const void *p, const void *base, std::size_t size) {
    auto x = reinterpret_cast<std::uintptr_t>(p), b = reinterpret_cast<std::uintptr_t>(base);
    return x >= b && x < b + size;
}

struct Want {
    int cat;
    const void *addr; // nullptr: not determined
    tok_t tok;
};
// compares one recorded argument list with what is expected
inline bool same(const std::vector<Seen> &got, const std::vector<Want> &want, std::string &why) {
    if (got.size() != want.size()) {
        why = mon::format("received %zu arguments instead of %zu", got.size(), want.size());
        return false;
    }
    for (std::size_t i = 0; i < got.size(); ++i) {
        if (got[i].tok != want[i].tok) {
            why = mon::format("argument %zu has value %lld instead of %lld", i, got[i].tok, want[i].tok);
            return false;
        }
        if (want[i].cat >= 0 && got[i].cat != want[i].cat) {
            why = mon::format("argument %zu is a '%s' instead of a '%s'", i, cat_name(got[i].cat).c_str(), cat_name(want[i].cat).c_str());
            return false;
        }
        if (want[i].addr && got[i].addr != want[i].addr) {
            why = mon::format("argument %zu is a different object", i);
            return false;
        }
    }
    return true;
}
inline std::string show(const std::vector<Seen> &v) {
    std::string s = "(";
    for (auto &x : v) s += (s.size() > 1 ? ", " : "") + std::to_string(x.tok) + cat_name(x.cat);
    return s + ")";
}
inline std::uint64_t hash(const std::string &s) { return std::hash<std::string>{}(s); }
inline std::uint64_t hash(std::uint64_t h, const std::vector<Want> &w) {
    for (auto &x : w) h = mon::mix(mon::mix(h, static_cast<std::uint64_t>(x.tok)), static_cast<std::uint64_t>(x.cat + 8));
    return h;
}

} // namespace bm
