// Objects of the library passed between translation units (C27). A unit includes the library's headers in an
// order of its own, then this file, and exports one table of operations per kind of object. The objects are
// made by one unit, called, copied, moved, assigned and destroyed by others; every object has a model.
#pragma once
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>

namespace units {

struct Empty {};
struct Other {};

extern long cells[64];
extern long live;

// reports its arguments, the calls it has had and what it was made with
struct Counter {
    long base = 0, calls = 0;
    std::unique_ptr<long> owned = std::make_unique<long>(0);
    explicit Counter(long b) : base{ b } { ++live; }
    Counter(const Counter &o) : base{ o.base }, calls{ o.calls } { ++live; }
    Counter(Counter &&o) noexcept : base{ o.base }, calls{ o.calls } { ++live; }
    Counter &operator=(const Counter &o) { return base = o.base, calls = o.calls, *this; }
    ~Counter() { --live; }
    long operator()(long a, long b) { return *owned + base * 1000000 + a * 10000 + b * 100 + ++calls; }
};
struct VoidCounter : Counter {
    using Counter::Counter;
    static inline thread_local long last;
    void operator()(long a, long b) { last = Counter::operator()(a, b); }
};
struct Source {
    int slot;
    long operator()() const { return cells[slot]; }
};
struct Selfish {
    Counter c;
    template<typename Self>
    long operator()(Self &&self, long a, long b) {
        return a > 50 ? self(a - 50, b) + 50 * 10000 : c(a, b);
    }
};
struct OnOther {
    long operator()(Other) const { return -1; }
};
struct Visit {
    template<typename... Items>
    long operator()(const Items &...items) const {
        return ((items.value * static_cast<long>(items.index + 1)) + ... + 0);
    }
};

struct Ops {
    const char *kind;
    void *(*make)(long base, int slot);
    long (*call)(void *, long x, int slot);
    void *(*copy)(const void *);
    void *(*move)(void *);
    bool (*assign)(void *, const void *);
    void (*destroy)(void *);
    const std::type_info *type;
    unsigned long size;
    bool cached;
};
struct Table {
    const Ops *first;
    int n;
};

} // namespace units

namespace { // every unit has its own

template<typename Make, typename Call, typename T = std::invoke_result_t<Make, long, int>>
units::Ops ops(const char *kind, Make, Call, bool cached = false) {
    return units::Ops{
        kind,
        [](long base, int slot) -> void * { return new T(Make{}(base, slot)); },
        [](void *p, long x, int slot) -> long { return Call{}(*static_cast<T *>(p), x, slot); },
        [](const void *p) -> void * { return new T(*static_cast<const T *>(p)); },
        [](void *p) -> void * { return new T(std::move(*static_cast<T *>(p))); },
        [](void *p, const void *q) -> bool {
            if constexpr (std::is_copy_assignable_v<T>)
                return *static_cast<T *>(p) = *static_cast<const T *>(q), true;
            else
                return false;
        },
        [](void *p) { delete static_cast<T *>(p); },
        &typeid(T),
        sizeof(T),
        cached,
    };
}

#define UNIT(name)                                                                                                                                     \
    units::Table name() {                                                                                                                              \
        using namespace units; using pigro::operator<<; using pigro::operator>>;                                                                                                                        \
        auto put = [](long x, int slot) { cells[slot] = x; };                                                                                          \
        (void) put;                                                                                                                                    \
        static const Ops table[] = {                                                                                                                   \
            ops(                                                                                                                                       \
              "compressed_tuple", [](long b, int) { return pigro::compressed_tuple{ Empty{}, Counter{ b }, Other{}, std::string(30, 'x'), Empty{} }; }, \
              [](auto &t, long x, int) -> long { return get<3>(t).size() == 30 ? get<1>(t)(x, 7) : -1; }),                                             \
            ops(                                                                                                                                       \
              "bound behind", [](long b, int) { return std::tuple{ 7L } << Counter{ b }; }, [](auto &f, long x, int) -> long { return f(x); }),         \
            ops(                                                                                                                                       \
              "bound behind, compressed", [](long b, int) { return pigro::compressed_tuple{ Empty{}, 7L } << Drop{ Counter{ b } }; },                    \
              [](auto &f, long x, int) -> long { return f(x); }),                                                                                      \
            ops(                                                                                                                                       \
              "bound in front", [](long b, int) { return pigro::compressed_tuple{ 7L } >> Flip{ Counter{ b } }; },                                     \
              [](auto &f, long x, int) -> long { return f(x); }),                                                                                      \
            ops(                                                                                                                                       \
              "bind_back", [](long b, int) { return pigro::bind_back(Counter{ b }, 7L); }, [](auto &f, long x, int) -> long { return f(x); }),         \
            ops(                                                                                                                                       \
              "overload", [](long b, int) { return pigro::overload{ OnOther{}, Counter{ b } }; },                                                      \
              [](auto &f, long x, int) -> long { return f(Other{}) == -1 ? f(x, 7) : -1; }),                                                           \
            ops(                                                                                                                                       \
              "recursive", [](long b, int) { return pigro::recursive{ Selfish{ Counter{ b } } }; }, [](auto &f, long x, int) -> long { return f(x, 7); }), \
            ops(                                                                                                                                       \
              "uncaptured", [](long b, int) { return pigro::uncaptured(7L) >> Counter{ b }; }, [](auto &f, long x, int) -> long { return f(x); }),     \
            ops(                                                                                                                                       \
              "regularized", [](long b, int) { return pigro::regularized_void(VoidCounter{ b }); },                                                    \
              [](auto &f, long x, int) -> long { return f(x, 7L) == pigro::regular_void{} ? VoidCounter::last : -1; }),                                \
            ops(                                                                                                                                       \
              "unregularized", [](long b, int) { return pigro::unregularized_void(Counter{ b }); }, [](auto &f, long x, int) -> long { return f(x, 7L); }), \
            ops(                                                                                                                                       \
              "lazy", [](long b, int slot) { return pigro::lazy(Counter{ b }, Source{ slot }, 7L); },                                                  \
              [](auto &f, long x, int slot) -> long { cells[slot] = x; return f(); }, true),                                                           \
            ops(                                                                                                                                       \
              "lazy of lazy", [](long b, int slot) { return pigro::lazy(Counter{ b }, pigro::lazy(std::identity{}, Source{ slot }), pigro::lazy(std::identity{}, 7L)); }, \
              [](auto &f, long x, int slot) -> long { cells[slot] = x; return f(); }, true),                                                           \
            ops(                                                                                                                                       \
              "lazy void", [](long b, int slot) { return pigro::lazy(VoidCounter{ b }, Source{ slot }, 7L); },                                         \
              [](auto &f, long x, int slot) -> long { cells[slot] = x; f(); return -1; }, true),                                                       \
        };                                                                                                                                             \
        return { table, sizeof table / sizeof *table };                                                                                                \
    }

} // namespace

namespace units {
struct Drop { // the element that does not count
    Counter c;
    long operator()(auto &&...args) { return take(args...); }
    long take(long a, Empty, long b) { return c(a, b); }
};
struct Flip {
    Counter c;
    long operator()(long b, long a) { return c(a, b); }
};
} // namespace units
