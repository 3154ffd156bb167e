// Empty types with something to lose: over-aligned, counted, and throwing when copied; as values and as callables.
#pragma once
#include "mon.h"

#include <pigro/lazy.h>
#include <pigro/to_tuple.h>
#include <pigro/uncapture.h>

#include <cstdint>
#include <string>

namespace bm::odd {

struct CopyFails {
    long serial;
};
struct Watch {
    long alive = 0, copies = 0, fail_in = -1, serial = 0, calls = 0;
};
inline Watch watch;

template<int Id, std::size_t Alignment>
struct alignas(Alignment) Empty {
    void check(const char *what) const {
        const auto at = reinterpret_cast<std::uintptr_t>(this);
        CHECK(at % alignof(Empty) == 0, "an empty object with alignment %zu is %s at a misaligned address", alignof(Empty), what);
    }
    static void copy() {
        ++watch.copies;
        if (watch.fail_in >= 0 && watch.fail_in-- == 0) throw CopyFails{ ++watch.serial };
    }
    Empty() { check("constructed"), ++watch.alive; }
    Empty(const Empty &o) {
        check("constructed"), o.check("read");
        copy();
        ++watch.alive;
    }
    Empty &operator=(const Empty &o) {
        check("assigned"), o.check("read");
        return *this;
    }
    ~Empty() { check("destroyed"), --watch.alive; }
    bool operator==(const Empty &) const { return true; }
    template<class... A>
    long operator()(A &&...a) const {
        check("called");
        ++watch.calls;
        return 100 * Id + static_cast<long>(sizeof...(a));
    }
};

struct CountsArgs { // not empty
    long base = 7;
    template<class... A>
    long operator()(A &&...) { return ++watch.calls, base + static_cast<long>(sizeof...(A)); }
};

// make() composes something, use() calls it and yields a number; whichever copy fails
template<class Make, class Use>
void each_copy_fails(const char *name, Make make, Use use) {
    const long before = watch.alive;
    watch.fail_in = -1;
    long expected = 0, calls = 0;
    {
        auto a = make();
        watch.calls = 0;
        expected = use(a);
        calls = watch.calls;
    }
    CHECK(watch.alive == before, "%s: %ld empty objects are left", name, watch.alive - before);
    long n = 0;
    for (; n < 400; ++n) {
        bool threw = false;
        auto arms = [&](auto go) {
            const long last = watch.serial;
            watch.fail_in = n;
            try {
                go();
            } catch (const CopyFails &f) {
                threw = true;
                CHECK(f.serial == watch.serial && watch.serial == last + 1, "%s: another exception than the one thrown by copy %ld", name, n);
            }
            watch.fail_in = -1;
            CHECK((watch.serial != last) == threw || watch.serial == last, "%s: the exception thrown by copy %ld is lost", name, n);
        };
        bool any = false;
        // while it is composed
        arms([&] { auto a = make(); });
        any |= threw, threw = false;
        CHECK(watch.alive == before, "%s: %ld empty objects are left after copy %ld failed", name, watch.alive - before, n);
        {
            auto a = make();
            // while it is used
            watch.calls = 0;
            arms([&] {
                const long got = use(a);
                CHECK(got == expected, "%s: %ld instead of %ld", name, got, expected);
            });
            CHECK(!threw || watch.calls <= calls, "%s: called %ld times although copy %ld failed", name, watch.calls, n);
            any |= threw, threw = false;
            // and as before afterwards
            const long again = use(a);
            CHECK(again == expected, "%s: %ld instead of %ld after copy %ld failed", name, again, expected, n);
            // while it is copied
            arms([&] {
                auto b = a;
                watch.fail_in = -1;
                const long got = use(b);
                CHECK(got == expected, "%s: a copy yields %ld instead of %ld", name, got, expected);
            });
            any |= threw, threw = false;
            const long last = use(a);
            CHECK(last == expected, "%s: %ld instead of %ld after copying failed", name, last, expected);
        }
        if (!CHECK(watch.alive == before, "%s: %ld empty objects are left after copy %ld failed", name, watch.alive - before, n)) return;
        mon::stat("calls", 4), mon::stat("exceptions", any);
        mon::evaluated(mon::mix(std::hash<std::string_view>{}(name), static_cast<std::uint64_t>(n)), any);
        if (!any) break;
    }
    mon::sample(mon::format("%s: each of %ld copies failing", name, n));
}

template<std::size_t Alignment>
void empties_with() {
    using namespace pigro;
    using A = Empty<1, Alignment>;
    using B = Empty<2, Alignment>;
    using C = Empty<3, Alignment == 1 ? 8 : 1>;
    auto call = [](auto &f) { return static_cast<long>(f(1, 'c')); };
    auto each = [](const char *name, auto make, auto use) { each_copy_fails(mon::format("%s, alignment %zu", name, Alignment).c_str(), make, use); };
#ifdef ODD_blocks
    each("a compressed tuple", [] { return compressed_tuple{ A{}, 1, B{}, C{} }; }, [](auto &t) {
        auto a = get<0>(t);
        (void) get<3>(std::as_const(t)), (void) get<2>(t);
        return a() + get<1>(t); });
    each("a compressed tuple of one", [] { return compressed_tuple{ A{} }; }, [](auto &t) { return get<0>(t)(); });
    each("a compressed tuple by default", [] { return compressed_tuple<A, B, A>{}; }, [](auto &t) { return get<2>(t)() + get<1>(t)(); });
    each("a compressed tuple applied", [] { return compressed_tuple{ A{}, 1, B{} }; }, [](auto &t) { return pigro::apply(C{}, t); });
    each("a compressed tuple viewed", [] { return compressed_tuple{ 4, 1 }; }, [](auto &t) { return pigro::apply(C{}, to_tuple(t)); });
    each("empty values bound in front", [] { return std::tuple{ A{}, 1, B{} } >> CountsArgs{}; }, call);
    each("an empty callable, bound in front", [] { return std::tuple{ 1 } >> A{}; }, call);
    each("compressed empty values bound in front", [] { return compressed_tuple{ A{}, 1, B{} } >> C{}; }, call);
    each("empty values bound behind", [] { return std::tuple{ A{}, 1, B{} } << CountsArgs{}; }, call);
    each("compressed empty values bound behind", [] { return compressed_tuple{ A{}, B{} } << C{}; }, call);
    each("empty values in bind_back", [] { return bind_back(A{}, B{}, 1, C{}); }, call);
    each("uncaptured empty values", [] { return uncaptured(A{}, 1, B{}) >> CountsArgs{}; }, call);
    each("uncaptured equal empty values", [] { return uncaptured(A{}, A{}, A{}) >> CountsArgs{}; }, call);
    each("an uncaptured empty value", [] { return uncaptured(A{}) >> C{}; }, call);
    each("an empty callable, regularized", [] { return regularized_void(A{}); }, [](auto &f) { return f(B{}, 1) + 0; });
    each("an empty callable, regularized and back", [] { return unregularized_void(regularized_void(A{})); }, call);
    each("an empty callable, self-passing", [] { return recursive{ A{} }; }, call);
    each("an empty callable in an overload set", [] { return overload{ [](A) { return 5L; }, CountsArgs{} }; }, [](auto &f) { return f(A{}) + f(1); });
    each("empty items", [] { return A{}; }, [](auto &a) { return enumerate_pack(C{}, a, B{}, 1); });
    each("empty values transformed", [] { return std::tuple{ A{}, 1, B{} }; }, [](auto &t) { return get<2>(transform(t, [](const auto &v) { return v; }))(); });
    each("a predicate over empty values", [] { return std::tuple{ A{}, 1, B{} }; }, [](auto &t) { return static_cast<long>(any(t, A{})); });
    each("captured empty values", [] { return fwd_capture(A{}); }, [](auto &c) { return access(c)(); });
#endif
#ifdef ODD_lazy
    each("a lazy empty function", [] { return lazy(A{}, [] { return 1; }); }, [](auto &f) { return f(); });
    each("a lazy function of empty constants", [] { return lazy(CountsArgs{}, lazy([](const auto &b, int) { return b; }, [] { return B{}; }, 2), 1); }, [](auto &f) { return f(); });
    each("a lazy function of empty dependencies", [] { return lazy(CountsArgs{}, A{}, B{}, 1); }, [](auto &f) { return f(); });
    each("a lazy function with an empty result", [] { return lazy([](int) { return A{}; }, [n = 0]() mutable { return ++n; }); }, [](auto &f) { return f()(); });
    each("nested lazy empty functions", [] { return lazy(A{}, lazy(B{}, C{}, C{}), lazy(C{}, [n = 0]() mutable { return ++n; })); }, [](auto &f) { return f(); });
#endif
    (void) call;
}

inline void empties() {
    empties_with<1>();
    empties_with<64>();
}

} // namespace bm::odd
