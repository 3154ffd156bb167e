// Every kind of exception through every block, one at a time; the exception object itself is followed.
#pragma once
#include "c14.h"

#include <pigro/lazy.h>

#include <any>
#include <charconv>
#include <exception>
#include <filesystem>
#include <future>
#include <ios>
#include <regex>
#include <stdexcept>
#include <system_error>
#include <typeinfo>

namespace bm::faults {

struct NotStandard {
    std::string text = "an exception that is not a std::exception, with memory of its own";
};
struct Derived final : std::runtime_error {
    int code = 7;
    using std::runtime_error::runtime_error;
};
// two bases, caught by either
struct Both : std::invalid_argument, NotStandard {
    Both() : std::invalid_argument("both") {}
};

constexpr int kinds = 34;
inline std::exception_ptr exception(int k) {
    auto p = [](auto x) { return std::make_exception_ptr(std::move(x)); };
    switch (k) {
    case 0: return p(std::runtime_error("runtime"));
    case 1: return p(std::logic_error("logic"));
    case 2: return p(std::bad_alloc());
    case 3: return p(std::bad_array_new_length());
    case 4: return p(std::bad_cast());
    case 5: return p(std::bad_typeid());
    case 6: return p(std::bad_function_call());
    case 7: return p(std::bad_optional_access());
    case 8: return p(std::bad_variant_access());
    case 9: return p(std::bad_any_cast());
    case 10: return p(std::bad_weak_ptr());
    case 11: return p(std::bad_exception());
    case 12: return p(std::out_of_range("range"));
    case 13: return p(std::length_error("length"));
    case 14: return p(std::domain_error("domain"));
    case 15: return p(std::invalid_argument("argument"));
    case 16: return p(std::range_error("range"));
    case 17: return p(std::overflow_error("over"));
    case 18: return p(std::underflow_error("under"));
    case 19: return p(std::system_error(std::make_error_code(std::errc::io_error)));
    case 20: return p(std::ios_base::failure("failure"));
    case 21: return p(std::filesystem::filesystem_error("file", std::make_error_code(std::errc::io_error)));
    case 22: return p(std::future_error(std::future_errc::no_state));
    case 23: return p(std::regex_error(std::regex_constants::error_brack));
    case 24: return p(std::exception());
    case 25: return p(5);
    case 26: return p(static_cast<const char *>("text"));
    case 27: return p(std::string("a string"));
    case 28: return p(nullptr);
    case 29: return p(NotStandard{});
    case 30: return p(Derived("derived"));
    case 31: return p(Both{});
    case 32: return p(std::make_error_code(std::errc::io_error));
    default: return p(true);
    }
}

// ---------------------------------------------------------------- what throws

inline thread_local std::exception_ptr to_throw;
inline thread_local long calls = 0, after = 0;
template<class R>
struct Throws {
    template<class... A>
    R operator()(A &&...) const {
        ++calls;
        if (to_throw) std::rethrow_exception(to_throw);
        if constexpr (!std::is_void_v<R>) {
            static std::remove_cvref_t<R> r{};
            return static_cast<R>(r);
        }
    }
};
template<>
struct Throws<MoveOnly> {
    template<class... A>
    MoveOnly operator()(A &&...) const {
        ++calls;
        if (to_throw) std::rethrow_exception(to_throw);
        return MoveOnly{ 7 };
    }
};
template<class R>
struct Keeps : Throws<R> { // with state
    std::string s = "some state, long enough to be on the heap";
    template<class... A>
    R operator()(A &&...a) {
        if (s.size() != 41) mon::violation("a callable lost its state");
        return Throws<R>::operator()(a...);
    }
};
struct Not {};
struct OnlyNot {
    void operator()(Not) const {}
};

template<class Go>
void through(const char *what, Go go) {
    for (int k = 0; k < kinds; ++k) {
        calls = 0;
        to_throw = nullptr;
        go();
        const long expected = calls;
        CHECK(expected == 1, "%s: the callable is called %ld times", what, expected);
        auto mine = exception(k);
        for (int again = 0; again < 2; ++again) {
            calls = 0;
            to_throw = mine;
            std::exception_ptr arrived;
            try {
                go();
            } catch (...) {
                arrived = std::current_exception();
            }
            to_throw = nullptr;
            mon::stat("exceptions"), mon::stat("calls");
            mon::evaluated(mon::mix(hash(what), static_cast<std::uint64_t>(k)), true);
            if (!CHECK(arrived != nullptr, "%s: an exception of kind %d is lost", what, k)) return;
            if (!CHECK(arrived == mine, "%s: not the exception thrown arrives (kind %d)", what, k)) return;
            if (!CHECK(calls == 1, "%s: called %ld times although the first call threw an exception of kind %d", what, calls, k)) return;
        }
        calls = 0;
        go();
        CHECK(calls == 1, "%s: called %ld times after an exception of kind %d", what, calls, k);
    }
    mon::sample(mon::format("%s: %d kinds of exception", what, kinds));
}

template<class R, template<class> class F>
void blocks(const char *name) {
    using namespace pigro;
    auto n = [&](const char *what) { return std::string(what) + " of a callable returning " + name; };
    int x = 1;
    std::string s = "s";
    auto a = std::tuple{ 1, std::string("x") } >> F<R>{};
    through(n("bound in front").c_str(), [&] { a(x); });
    auto b = compressed_tuple{ 1, std::string("x"), Nil<0>{} } << F<R>{};
    through(n("bound behind").c_str(), [&] { b(x, s); });
    auto c = bind_back(F<R>{}, x, 2, std::string("x"));
    through(n("bind_back").c_str(), [&] { c(s); });
    F<R> f;
    through(n("apply to a tuple").c_str(), [&] { pigro::apply(f, std::tuple{ 1, s }); });
    through(n("apply to a compressed tuple").c_str(), [&] { pigro::apply(f, compressed_tuple{ 1, s, Nil<0>{} }); });
    through(n("apply to an empty tuple").c_str(), [&] { pigro::apply(f, std::tuple{}); });
    if constexpr (!std::is_reference_v<R>) {
        through(n("enumerate_pack").c_str(), [&] { enumerate_pack(f, x, s, 3); });
        through(n("enumerate_pack of nothing").c_str(), [&] { enumerate_pack(f); });
        through(n("enumerate_n").c_str(), [&] { enumerate_n<4>(f); });
        auto g = regularized_void(F<R>{});
        through(n("regularized").c_str(), [&] { g(x, s); });
        through(n("regularized, without arguments,").c_str(), [&] { g(); });
        auto h = unregularized_void(F<R>{});
        through(n("unregularized").c_str(), [&] { h(x, s); });
        auto i = unregularized_void(regularized_void(F<R>{}));
        through(n("regularized and back").c_str(), [&] { i(x); });
    }
    auto k = overload{ F<R>{}, OnlyNot{} };
    through(n("an overload set").c_str(), [&] { k(x); });
    auto l = recursive{ F<R>{} };
    through(n("self-passing").c_str(), [&] { l(x); });
    through(n("a self-passing rvalue").c_str(), [&] { std::move(l)(x); });
    auto m = uncaptured(1) >> F<R>{};
    through(n("an uncaptured value").c_str(), [&] { m(x); });
    auto o = uncaptured(1, Nil<0>{}, std::string("x")) >> F<R>{};
    through(n("uncaptured values").c_str(), [&] { o(x, s); });
    if constexpr (std::is_same_v<F<R>, Throws<R>>) {
        through(n("a const function bound in front").c_str(), [&] { std::as_const(a)(x); });
        through(n("a const overload set").c_str(), [&] { std::as_const(k)(x); });
        through(n("a const self-passing function").c_str(), [&] { std::as_const(l)(x), 0; });
        through(n("a const self-passing rvalue").c_str(), [&] { std::move(std::as_const(l))(x); });
        through(n("a const uncaptured value").c_str(), [&] { std::as_const(m)(x); });
    }
}
inline void algorithms() {
    using namespace pigro;
    auto later = [](int at) { return [at](const int &v) { return v == at ? (Throws<void>{}(v), 1) : 0; }; };
    for (int at = 0; at < 4; ++at) {
        through(mon::format("transform whose projection %d throws", at).c_str(), [&] { (void) transform(std::tuple{ 0, 1, 2, 3 }, later(at)); });
        through(mon::format("any whose predicate %d throws", at).c_str(), [&] { (void) any(std::array{ 0, 1, 2, 3 }, later(at)); });
    }
    through("any whose default predicate throws", [&] {
        struct Bool {
            operator bool() const { return Throws<int>{}(), false; }
        };
        (void) any(std::tuple{ 0, Bool{}, false });
    });
    through("copying an element", [&] {
        struct Element {
            Element() = default;
            Element(const Element &) { Throws<void>{}(); }
            int v = 1;
        };
        static const Element e;
        alignas(16) char room[64];
        (void) room;
        auto c = fwd_capture(e);
        (void) c;
        auto t = fwd_capture(Element(e));
        (void) t;
        calls = calls > 1 && !to_throw ? 1 : calls; // how often it is copied is not specified
    });
}

// ---------------------------------------------------------------- lazy functions

inline int source = 0, evaluations = 0;
struct Source {
    int operator()() const { return source; }
};
// go() changes something and calls; an exception must arrive as it is, and the calls after it must be fresh
template<class F>
void lazily(const char *what, F f, long per_call) {
    auto call = [&] {
        if constexpr (std::is_void_v<decltype(f())>) return f(), 0;
        else return f();
    };
    int expect = -1;
    for (int k = 0; k < kinds; ++k) {
        auto mine = exception(k);
        for (int again = 0; again < 3; ++again) {
            ++source;
            calls = 0;
            to_throw = mine;
            std::exception_ptr arrived;
            try {
                call();
            } catch (...) {
                arrived = std::current_exception();
            }
            to_throw = nullptr;
            mon::stat("exceptions"), mon::stat("calls");
            mon::evaluated(mon::mix(hash(what), static_cast<std::uint64_t>(k)), true);
            if (!CHECK(arrived != nullptr, "%s: an exception of kind %d is lost", what, k)) return;
            if (!CHECK(arrived == mine, "%s: not the exception thrown arrives (kind %d)", what, k)) return;
            if (!CHECK(calls == 1, "%s: called %ld times although the first call threw (kind %d)", what, calls, k)) return;
            if (again == 1) continue;
            calls = 0;
            const int got = call();
            if constexpr (!std::is_void_v<decltype(f())>) {
                if (!CHECK(got == source * 10, "%s: %d instead of %d after an exception of kind %d", what, got, source * 10, k)) return;
            }
            CHECK(calls >= 1, "%s: not evaluated after an exception of kind %d", what, k);
            (void) call();
        }
    }
    (void) expect, (void) per_call;
    mon::sample(mon::format("%s: %d kinds of exception", what, kinds));
}
inline void lazy_functions() {
    using pigro::lazy;
    auto maybe = [](int v) { return Throws<void>{}(), v * 10; };
    lazily("the function of a lazy function", lazy(maybe, Source{}), 1);
    lazily("a void function", lazy([](int) { Throws<void>{}(); }, Source{}), 1);
    lazily("an inner function", lazy([](int v, int) { return v; }, lazy(maybe, Source{}), 5), 1);
    lazily("an inner void function", lazy([](pigro::regular_void, int v) { return v * 10; }, lazy([](int) { Throws<void>{}(); }, Source{}), Source{}), 1);
    lazily("a plain dependency", lazy([](int v) { return v * 10; }, [] { return Throws<void>{}(), source; }), 1);
    lazily("a plain void dependency", lazy([](pigro::regular_void, int v) { return v * 10; }, [] { Throws<void>{}(); }, Source{}), 1);
    lazily("the last of several dependencies", lazy([](int v, int, const std::string &, int) { return v * 10; }, Source{}, lazy([](int v) { return v; }, Source{}), std::string("constant"), [] { return Throws<void>{}(), source; }), 1);
    lazily("a dependency three levels down", lazy([](int v) { return v; }, lazy([](int v) { return v * 10; }, lazy([](int v) { return v; }, [] { return Throws<void>{}(), source; }))), 1);
    lazily("a function with state", lazy([s = std::string("some state, long enough to be on the heap"), n = 0](int v) mutable { if (s.size() != 41) mon::violation("lost"); return Throws<void>{}(), ++n, v * 10; }, Source{}), 1);
    auto inner = lazy(maybe, Source{});
    lazily("a lazy function through std::ref", lazy([](int v) { return v; }, std::ref(inner)), 1);
    lazily("a lazy function in std::function", std::function<int()>(lazy(maybe, Source{})), 1);
}

} // namespace bm::faults
