// recursive
#pragma once
#include "c14.h"

namespace bm {

struct SelfSeen {
    int self_cat = -1, op_cat = -1;
    const void *self = nullptr;
    long calls = 0;
    std::vector<Seen> args;
    tok_t payload = BAD;
};
inline SelfSeen &self_seen() {
    static thread_local SelfSeen s;
    return s;
}
template<class Self, class... A>
void saw_self(int op, tok_t payload, Self &&self, A &&...a) {
    auto &s = self_seen();
    ++s.calls;
    s.self_cat = cat<Self &&>;
    s.op_cat = op;
    s.self = address(self);
    s.payload = payload;
    s.args = { see(std::forward<A>(a))... };
}
// state of any kind: a callable may be small or large, trivially copyable or not, or empty
template<class P>
struct Held {
    static constexpr tok_t tok = 3 % Codec<P>::dom;
    P payload = make<P>(tok, 0);
    tok_t held() const { return dec(payload); }
};
template<>
struct Held<void> {
    static constexpr tok_t tok = 0;
    tok_t held() const { return 0; }
};
// distinguishes the category with which its own operator is called
template<class R, class P = std::string>
struct Four : Held<P> {
    template<class Self, class... A>
    R operator()(Self &&self, A &&...a) & { return saw_self(0, this->held(), std::forward<Self>(self), std::forward<A>(a)...), result(); }
    template<class Self, class... A>
    R operator()(Self &&self, A &&...a) const & { return saw_self(CN, this->held(), std::forward<Self>(self), std::forward<A>(a)...), result(); }
    template<class Self, class... A>
    R operator()(Self &&self, A &&...a) && { return saw_self(RV, this->held(), std::forward<Self>(self), std::forward<A>(a)...), result(); }
    template<class Self, class... A>
    R operator()(Self &&self, A &&...a) const && { return saw_self(RV | CN, this->held(), std::forward<Self>(self), std::forward<A>(a)...), result(); }
    static inline std::string target = "result";
    static R result() {
        if constexpr (std::is_void_v<R>)
            return;
        else if constexpr (std::is_reference_v<R>)
            return static_cast<R>(target);
        else if constexpr (std::is_same_v<R, MoveOnly>)
            return MoveOnly{ 9 };
        else
            return make<R>(1, 0);
    }
};
// empty
struct Stateless4 {
    template<class Self, class... A>
    tok_t operator()(Self &&self, A &&...a) const { return saw_self(-1, 0, std::forward<Self>(self), std::forward<A>(a)...), 5; }
};

template<class F, class G> // F with the constness and category of G
using as_called = std::conditional_t<std::is_lvalue_reference_v<G>,
  std::conditional_t<std::is_const_v<std::remove_reference_t<G>>, const F, F> &,
  std::conditional_t<std::is_const_v<std::remove_reference_t<G>>, const F, F> &&>;
template<class F, class... A>
void self_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int i = 0; i < 12 * mon::state().scale && j.ok; ++i) {
        pigro::recursive f{ F{} };
        auto go = [&](auto &&g, int category, const char *when) {
            Args<A...> args{ rng };
            const auto want = args.wants();
            const long c0 = Obj::copies, m0 = Obj::moves;
            self_seen() = {};
            using G = decltype(g);
            auto call = [&](auto &&...a) -> decltype(auto) { return static_cast<G>(g)(static_cast<decltype(a)>(a)...); };
            using R = decltype(args.call(call));
            using W = std::invoke_result_t<as_called<F, G>, G, A...>;
            if (!std::is_same_v<R, W>) j.fail("the result has another type than the callable's");
            if constexpr (std::is_void_v<R>)
                args.call(call);
            else {
                auto &&r = args.call(call);
                if constexpr (std::is_reference_v<R>) {
                    if (address(r) != address(F::target)) j.fail("the reference returned is not passed through");
                } else if constexpr (std::is_same_v<R, MoveOnly>) {
                    if (dec(r) != 9) j.fail("the result is not passed through");
                }
            }
            auto &s = self_seen();
            if (s.calls != 1) j.fail(mon::format("%s: the callable was called %ld times", when, s.calls));
            if (s.self != address(f)) j.fail(mon::format("%s: the first argument is not the object itself", when));
            if (s.self_cat != category) j.fail(mon::format("%s: the object arrives as a '%s'", when, cat_name(s.self_cat).c_str()));
            if (s.op_cat >= 0 && s.op_cat != category) j.fail(mon::format("%s: the callable is called as a '%s'", when, cat_name(s.op_cat).c_str()));
            if constexpr (requires { F::tok; })
                if (s.payload != F::tok) j.fail(mon::format("%s: the state of the callable is lost", when));
            std::string why;
            if (!same(s.args, want, why)) j.fail(mon::format("%s: %s", when, why.c_str()));
            if (Obj::copies != c0 || Obj::moves != m0) j.fail(mon::format("%s: arguments are copied or moved", when));
            mon::stat("calls");
            mon::stat("checks", 5);
            mon::evaluated(mon::mix(hash(hash(name), want), static_cast<std::uint64_t>(category)), true);
            if (i == 0 && j.ok) mon::sample(mon::format("%s, called as '%s', received itself and %s", name, cat_name(category).c_str(), show(s.args).c_str()));
        };
        go(f, 0, "lvalue");
        go(std::as_const(f), CN, "const lvalue");
        go(std::move(f), RV, "rvalue");
        go(std::move(std::as_const(f)), RV | CN, "const rvalue");
    }
}

// recursion compared with direct recursion
inline long fib(long n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
inline long ack(long m, long n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
struct Tree {
    int v;
    std::vector<Tree> kids;
};
inline Tree random_tree(mon::Rng &rng, int depth) {
    Tree t{ static_cast<int>(rng.below(100)), {} };
    if (depth)
        for (std::uint64_t i = rng.below(4); i > 0; --i) t.kids.push_back(random_tree(rng, depth - 1));
    return t;
}
inline long tree_sum(const Tree &t) {
    long s = t.v;
    for (auto &k : t.kids) s = s * 3 + tree_sum(k);
    return s;
}
inline std::string render(const Tree &t) {
    std::string s = std::to_string(t.v) + "(";
    for (auto &k : t.kids) s += render(k);
    return s + ")";
}

struct CountedAck {
    long calls = 0;
    template<class Self>
    long operator()(Self &self, long m, long n) {
        ++calls;
        return m == 0 ? n + 1 : n == 0 ? self(m - 1, 1L) : self(m - 1, self(m, n - 1));
    }
};
struct Base1 {
    int operator()(auto &&, int x) const { return x; }
};

    struct More : pigro::recursive<Base1> {
        int operator()(auto &&, int y, int z) const { return 100 * y + z; }
    };

    struct Memo {
        std::map<long, long> seen;
        long misses = 0;
        long operator()(auto &self, long n) {
            if (auto i = seen.find(n); i != seen.end()) return i->second;
            ++misses;
            const long r = n < 2 ? n : self(n - 1) + self(n - 2);
            return seen[n] = r;
        }
    };

inline void recursion_facts(mon::Rng &rng) {
    using pigro::overload, pigro::recursive;
    recursive f{ [](auto &&self, long n) -> long { return n < 2 ? n : self(n - 1) + self(n - 2); } };
    for (long n = 0; n < 22; ++n) CHECK(f(n) == fib(n), "fib(%ld)", n), CHECK(std::as_const(f)(n) == fib(n), "const fib(%ld)", n), mon::evaluated(mon::mix(1, n), n > 1);
    recursive a{ CountedAck{} };
    long counted = 0;
    for (long m = 0; m < 3; ++m)
        for (long n = 0; n < 6; ++n) {
            CHECK(a(m, n) == ack(m, n), "ack(%ld, %ld)", m, n);
            counted = a.calls;
            mon::evaluated(mon::mix(mon::mix(2, m), n), true);
        }
    long expected = 0;
    struct Count {
        static long ack(long m, long n, long &c) { return ++c, m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1, c) : ack(m - 1, ack(m, n - 1, c), c); }
    };
    for (long m = 0; m < 3; ++m)
        for (long n = 0; n < 6; ++n) Count::ack(m, n, expected);
    CHECK(counted == expected, "state changed by %ld levels instead of %ld", counted, expected);
    recursive s{ [](auto &&self, const Tree &t) -> long { long r = t.v; for (auto &k : t.kids) r = r * 3 + self(k); return r; } };
    recursive w{ [](auto &&self, const Tree &t) -> std::string { std::string r = std::to_string(t.v) + "("; for (auto &k : t.kids) r += self(k); return r + ")"; } };
    for (int i = 0; i < 60 * mon::state().scale; ++i) {
        const auto t = random_tree(rng, 5);
        CHECK(s(t) == tree_sum(t), "summing a tree");
        CHECK(w(t) == render(t), "rendering a tree");
        mon::evaluated(hash(render(t)), !t.kids.empty());
    }
    // deep recursion with a mutable counter and an out parameter by reference
    recursive d{ [depth = 0L](auto &&self, long n, std::string &out) mutable -> long { ++depth; if (n == 0) { out += "!"; return depth; } return self(n - 1, out); } };
    std::string out;
    CHECK(d(500L, out) == 501 && d(10L, out) == 512 && out == "!!", "state across levels and calls");
    // mutual recursion through an overload set
    struct Even {};
    struct Odd {};
    recursive eo{ overload{ [](auto &&self, Even, int n) -> bool { return n == 0 || self(Odd{}, n - 1); }, [](auto &&self, Odd, int n) -> bool { return n != 0 && self(Even{}, n - 1); } } };
    for (int n = 0; n < 40; ++n) CHECK(eo(Even{}, n) == (n % 2 == 0) && eo(Odd{}, n) == (n % 2 == 1), "mutual recursion %d", n), mon::evaluated(mon::mix(3, n), true);
    // exceptions pass through all levels
    recursive x{ [](auto &&self, int n) -> int { if (n == 0) throw Fault{ 21, 0 }; return self(n - 1); } };
    bool thrown = false;
    try {
        x(30);
    } catch (const Fault &e) {
        thrown = e.serial == 21;
    }
    CHECK(thrown, "an exception of a deeper level");
    // callable exactly with what is accepted
    auto g = [](auto &&, int, const std::string &) { return 1; };
    using G = recursive<decltype(g)>;
    CHECK((std::is_invocable_v<G &, int, std::string> && std::is_invocable_v<const G &, int, const char *> && std::is_invocable_v<G, char, std::string>), "not callable with what the callable accepts");
    CHECK((!std::is_invocable_v<G &> && !std::is_invocable_v<G &, int> && !std::is_invocable_v<G &, std::string, int> && !std::is_invocable_v<G &, int, std::string, int>), "callable with what the callable does not accept");
    auto m = [n = 0](auto &&, int &) mutable { return ++n; };
    using M = recursive<decltype(m)>;
    CHECK((std::is_invocable_v<M &, int &> && std::is_invocable_v<M, int &>), "not callable with what a mutable callable accepts");
    CHECK((!std::is_invocable_v<M &, int> && !std::is_invocable_v<const M &, int &> && !std::is_invocable_v<M &, const int &>), "callable with what a mutable callable does not accept");
    auto l = [](auto &self) { return &self; };
    using L = recursive<decltype(l)>;
    CHECK((std::is_invocable_v<L &> && std::is_invocable_v<const L &>), "the category of the object counts");
    // copies are independent
    recursive c{ CountedAck{} };
    c(1, 1);
    auto c2 = c;
    c2(1, 1), c2(1, 1);
    CHECK(c.calls * 3 == c2.calls, "copies have their own state");
    c = c2;
    CHECK(c.calls == c2.calls, "assignment copies state");
    // wrapping what is itself a self-passing function
    recursive inner{ Base1{} };
    recursive outer{ More{} };
    CHECK(outer(3, 4) == 304 && inner(6) == 6, "wrapping a class derived from a self-passing function");
    // a memoising function
    recursive memo{ Memo{} };
    CHECK(memo(40L) == 102334155 && memo.misses == 41 && memo(40L) == 102334155 && memo.misses == 41, "state is seen by every level");
}

} // namespace bm
