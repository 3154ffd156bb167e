// forward_like, as_nonconst, fwd_capture, access
#pragma once
#include "c14.h"

namespace bm {

// what forward_like<From> of an object of type T must be
template<class From, class T>
struct Like {
    using F = std::remove_reference_t<From>;
    using A = std::conditional_t<std::is_const_v<F>, const T, T>;
    using B = std::conditional_t<std::is_volatile_v<F>, volatile A, A>;
    using type = std::conditional_t<std::is_lvalue_reference_v<From>, B &, B &&>;
};

template<class From, class T, class X>
void like_one(Judge &j, X &&x, const void *where, const char *how) {
    mon::stat("checks");
    using Want = typename Like<From, T>::type;
    using Got = decltype(pigro::forward_like<From>(static_cast<X &&>(x)));
    if constexpr (!std::is_same_v<Got, Want>)
        j.fail(mon::format("forward_like<%s> of %s is a '%s' instead of a '%s'", type_name<From>().c_str(), how, cat_name(cat<Got>).c_str(), cat_name(cat<Want>).c_str()));
    else {
        auto &&r = pigro::forward_like<From>(static_cast<X &&>(x));
        if (address(r) != where) j.fail(mon::format("forward_like<%s> of %s is another object", type_name<From>().c_str(), how));
    }
    mon::evaluated(mon::mix(hash(type_name<From>()), hash(how + type_name<T>())), true);
}

template<class O>
struct other {};

template<class T, class... From>
void like_case(const char *name, list<From...>) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int i = 0; i < 3 * mon::state().scale && j.ok; ++i) {
        T x = value<T>(rng);
        const auto before = dec(x);
        const long c0 = Obj::copies, m0 = Obj::moves;
        auto one = [&]<class F>() {
            like_one<F, T>(j, x, address(x), "an lvalue");
            if constexpr (!std::is_lvalue_reference_v<F>) like_one<F, T>(j, std::move(x), address(x), "an rvalue");
            if constexpr (std::is_const_v<std::remove_reference_t<F>>) {
                like_one<F, T>(j, std::as_const(x), address(x), "a const lvalue");
                if constexpr (!std::is_lvalue_reference_v<F>) like_one<F, T>(j, std::move(std::as_const(x)), address(x), "a const rvalue");
            }
            if constexpr (std::is_volatile_v<std::remove_reference_t<F>> && !std::is_same_v<T, bool>)
                like_one<F, T>(j, const_cast<volatile T &>(x), address(x), "a volatile lvalue");
        };
        (one.template operator()<From>(), ...);
        if (Obj::copies != c0 || Obj::moves != m0) j.fail("forward_like copies or moves");
        if (dec(x) != before) j.fail("forward_like changes the object");
        mon::stat("casts", static_cast<long>(sizeof...(From)) * 2);
    }
    mon::sample(name);
}

template<class T>
void nonconst_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    for (int i = 0; i < 6 * mon::state().scale && j.ok; ++i) {
        tok_t t = 0;
        T x = value<T>(rng, &t);
        const long c0 = Obj::copies, m0 = Obj::moves;
        auto one = [&](auto &&u, bool rv, const char *how) {
            using R = decltype(pigro::as_nonconst(static_cast<decltype(u)>(u)));
            if (!std::is_same_v<R, std::conditional_t<std::is_lvalue_reference_v<decltype(u)>, T &, T &&>>) j.fail(mon::format("of %s is a '%s'", how, cat_name(cat<R>).c_str()));
            auto &&r = pigro::as_nonconst(static_cast<decltype(u)>(u));
            if (address(r) != address(x)) j.fail(mon::format("of %s is another object", how));
            (void) rv;
            mon::stat("checks", 2), mon::stat("casts");
            mon::evaluated(mon::mix(hash(name), hash(how)), true);
        };
        one(x, false, "an lvalue");
        one(std::as_const(x), false, "a const lvalue");
        one(std::move(x), true, "an rvalue");
        one(std::move(std::as_const(x)), true, "a const rvalue");
        if (Obj::copies != c0 || Obj::moves != m0) j.fail("as_nonconst copies or moves");
        if (dec(x) != t) j.fail("as_nonconst changes the object");
        // writing through it reaches the object
        if constexpr (std::is_copy_assignable_v<T> && !is_empty_v<T>) {
            tok_t t2 = 0;
            T y = value<T>(rng, &t2);
            pigro::as_nonconst(std::as_const(x)) = y;
            if (dec(x) != t2) j.fail("writing through as_nonconst does not reach the object");
        }
    }
}

template<class T>
void capture_case(const char *name) {
    using pigro::access, pigro::fwd_capture;
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    const long live = static_cast<long>(registry().live.size());
    for (int i = 0; i < 8 * mon::state().scale && j.ok; ++i) {
        tok_t t = 0;
        T x = value<T>(rng, &t);
        {
            const long c0 = Obj::copies, m0 = Obj::moves;
            auto expect = [&](auto &&r, auto want, const char *how) {
                using W = typename decltype(want)::type;
                if (!std::is_same_v<decltype(r), W>) j.fail(mon::format("access to %s is a '%s' instead of a '%s'", how, cat_name(cat<decltype(r)>).c_str(), cat_name(cat<W>).c_str()));
                if (address(r) != address(x)) j.fail(mon::format("access to %s is another object", how));
                mon::stat("checks", 2);
                mon::evaluated(mon::mix(hash(name), hash(how)), true);
            };
            auto c = fwd_capture(x);
            expect(access(c), std::type_identity<T &>{}, "the capture of an lvalue");
            expect(access(std::as_const(c)), std::type_identity<T &>{}, "the const capture of an lvalue");
            expect(access(std::move(c)), std::type_identity<T &>{}, "the moved capture of an lvalue");
            auto c2 = c;
            expect(access(c2), std::type_identity<T &>{}, "a copy of the capture of an lvalue");
            auto k = fwd_capture(std::as_const(x));
            expect(access(k), std::type_identity<const T &>{}, "the capture of a const lvalue");
            if (Obj::copies != c0 || Obj::moves != m0) j.fail("capturing an lvalue copies or moves it");
        }
        {
            const long c0 = Obj::copies;
            auto c = fwd_capture(std::move(x));
            using R = decltype(access(c));
            auto &&r = access(c);
            if (!std::is_same_v<R, T &>) j.fail("the capture of an rvalue is not accessed as the object captured");
            if (dec(r) != t) j.fail("the capture of an rvalue is another value");
            if (address(r) == address(x) && !is_empty_v<T>) j.fail("an rvalue is captured by reference");
            if (!is_empty_v<T> && !inside(address(r), &c, sizeof c)) j.fail("an rvalue is not stored in its capture");
            if (!std::is_same_v<decltype(access(std::as_const(c))), const T &> || address(access(std::as_const(c))) != address(r)) j.fail("const access to the capture of an rvalue");
            if (!std::is_same_v<decltype(access(std::move(c))), T &&> || address(access(std::move(c))) != address(r)) j.fail("moving access to the capture of an rvalue");
            T out = access(std::move(c));
            if (dec(out) != t) j.fail("moving out of the capture of an rvalue");
            if (Obj::copies != c0) j.fail("capturing an rvalue copies it");
            mon::stat("checks", 6), mon::stat("captures", 3);
            mon::evaluated(mon::mix(hash(name), static_cast<std::uint64_t>(t)), true);
        }
        if constexpr (std::is_copy_constructible_v<T>) { // a constant rvalue is stored, too
            tok_t t3 = 0;
            auto capture = [&] {
                const T tmp = value<T>(rng, &t3);
                return fwd_capture(std::move(tmp));
            };
            auto c = capture();
            auto &&r = access(c);
            if (!std::is_same_v<decltype(access(c)), const T &>) j.fail("the capture of a const rvalue is not accessed as the constant object captured");
            if (!is_empty_v<T> && !inside(address(r), &c, sizeof c)) j.fail("a const rvalue is not stored in its capture");
            if (dec(r) != t3) j.fail("the capture of a const rvalue is another value");
            mon::stat("captures"), mon::stat("checks", 3);
        }
        // through the macro, in a lambda that outlives the expression
        {
            tok_t t2 = 0;
            T y = value<T>(rng, &t2);
            auto hold = [](auto &&a) { return [c = FWD_CAPTURE(a)]() mutable -> auto & { return access(c); }; };
            auto h = hold(y);
            auto &&r = h();
            if (address(r) != address(y)) j.fail("FWD_CAPTURE of an lvalue is another object");
            auto g = hold(value<T>(rng, &t2));
            if (dec(g()) != t2) j.fail("FWD_CAPTURE of an rvalue is another value");
            if (!is_empty_v<T> && !inside(address(g()), &g, sizeof g)) j.fail("FWD_CAPTURE of an rvalue is not stored");
            mon::stat("captures", 2);
        }
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

} // namespace bm
