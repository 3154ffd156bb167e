// bind_back
#pragma once
#include "c14.h"

namespace bm {

// Back: how each bound argument is given (T & or T &&); A: front arguments
template<class F, class... A, class... Back>
void back_case(const char *name, list<Back...>) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    for (int i = 0; i < 12 * mon::state().scale && j.ok; ++i) {
        auto back = std::make_unique<Args<Back...>>(rng);
        // lvalues: the very object; rvalues: a stored object, passed as an lvalue
        auto given = back->wants();
        for (auto &w : given)
            if (w.cat & RV) w = { w.cat & CN, nullptr, w.tok };
        F f{};
        const long copies = Obj::copies;
        auto b = [&]<std::size_t... I>(std::index_sequence<I...>) { return pigro::bind_back(F{}, back->template pass<I>()...); }
        (std::index_sequence_for<Back...>{});
        // a constant rvalue can only be copied
        constexpr long unavoidable = (0 + ... + (std::is_same_v<Back, const Obj &&> ? 1 : 0));
        if (Obj::copies > copies + unavoidable) j.fail("binding copies an argument");
        if constexpr (!(std::is_lvalue_reference_v<Back> || ...)) {
            // nothing is referred to: the originals may go away
            back.reset();
        }
        auto twice = [&](auto &b, const char *when) {
            for (int k = 0; k < 3 && j.ok; ++k) {
                Args<A...> args{ rng };
                const long c0 = Obj::copies, m0 = Obj::moves;
                log().clear();
                if constexpr (std::is_void_v<decltype(args.call(b))>)
                    args.call(b);
                else
                    (void) args.call(b);
                if (Obj::copies != c0 || Obj::moves != m0) j.fail("a call copies or moves its arguments");
                j.one_call(args.wants() + given, when);
                if (is_mutating<F> && log().state.size() == 1 && log().state[0] != k) j.fail("the bound callable does not keep its state");
                mon::stat("calls");
                mon::evaluated(hash(hash(name), args.wants() + given), true);
                if (i == 0 && k == 0 && j.ok) mon::sample(mon::format("%s received %s", name, show(log().calls[0]).c_str()));
            }
        };
        if constexpr (std::is_copy_constructible_v<decltype(b)>) {
            auto copy = b;
            twice(b, "call");
            twice(copy, "call of a copy");
        } else
            twice(b, "call");
        // changes of lvalues are seen
        if (back) {
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ([&] {
                    using B = std::tuple_element_t<I, std::tuple<Back...>>;
                    if constexpr (std::is_lvalue_reference_v<B>) { // also if bound as const
                        std::get<I>(back->v) = value<std::remove_cvref_t<B>>(rng);
                        given[I].tok = dec(std::get<I>(back->v));
                    }
                }(),
                  ...);
            }
            (std::index_sequence_for<Back...>{});
            Args<A...> args{ rng };
            log().clear();
            args.call(b);
            j.one_call(args.wants() + given, "call after the bound lvalues changed");
        }
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

inline void back_facts() {
    using namespace pigro;
    int x = 1;
    std::string s = "a";
    auto f = bind_back([](int a, int &b, std::string &c) { b += a; c += "b"; return b; }, x, s);
    CHECK(f(2) == 3 && f(3) == 6 && x == 6 && s == "abb", "writes to lvalues bound behind do not reach them");
    // an lvalue callable is referred to
    Mutating m;
    auto g = bind_back(m, 1);
    g(2), g(3);
    CHECK(m.n == 2, "a callable given as an lvalue is not the one called");
    struct S {
        int v;
        int add(int a, int b) const { return v + 10 * a + 100 * b; }
    };
    CHECK(bind_back(&S::add, 2, 3)(S{ 1 }) == 321, "member functions");
    CHECK(bind_back(&S::v)(S{ 7 }) == 7, "member objects");
    auto k = bind_back([](MoveOnly p, int y) { return *p.p + y; }, 5);
    CHECK(k(MoveOnly{ 2 }) == 7 && k(MoveOnly{ 3 }) == 8, "move-only front arguments");
    for (int i = 0; i < 40; ++i) { // stored rvalues outlive the expression and keep what the callable writes to them
        auto h = bind_back([](int a, auto &&v) { v.push_back(a); return v.size(); }, std::vector<int>(static_cast<std::size_t>(i), 1));
        CHECK(h(1) == static_cast<std::size_t>(i) + 1 && h(2) == static_cast<std::size_t>(i) + 2, "a stored vector (%d)", i);
        mon::evaluated(static_cast<std::uint64_t>(70000 + i), true);
    }
    struct ByCategory { // what is stored is called, and passed, as an lvalue
        int n = 0;
        long operator()(int a, std::string &t) & { return t += 'l', ++n + a; }
        const char *operator()(int, std::string &&) && { return "rvalue"; }
        double operator()(int, std::string &&) & { return -1; }
        double operator()(int, std::string &) && { return -2; }
    };
    auto c = bind_back(ByCategory{}, std::string("x"));
    CHECK((std::is_same_v<decltype(c(1)), long>), "the result of a stored callable and value is not that of lvalues");
    CHECK(c(1) == 2 && c(1) == 3, "a stored callable and value are not called and passed as lvalues");
    auto n = bind_back([](int a, int b) -> int { return a - b; });
    CHECK(n(5, 3) == 2, "binding nothing");
    CHECK((std::is_invocable_v<decltype(bind_back(std::declval<int (*)(int, char)>(), 'c')) &, int>) &&!(std::is_invocable_v<decltype(bind_back(std::declval<int (*)(int, char)>(), 'c')) &, int, int>), "callable with exactly what the callable accepts");
}

} // namespace bm
