// Arrays, functions, reference wrappers and member pointers as arguments, elements and callables.
// A program defines ODD_<part> for the one part it runs, so that it depends on that part of the library only.
#pragma once
#include "c14.h"

namespace bm::odd {

inline int twice(int x) { return 2 * x; }
struct Member {
    int v;
    int add(int x) const { return v + x; }
};
struct Counts {
    long n = 0;
    std::vector<std::size_t> received;
    int operator()(auto &&...a) {
        received.push_back(sizeof...(a));
        return static_cast<int>(++n);
    }
};
struct SelfCounts {
    long n = 0;
    int operator()(auto &, int x) { ++n; return x; }
};
// the types and identities with which it was called
struct Got {
    std::vector<std::type_index> types;
    std::vector<const void *> at;
};
inline Got &got() {
    static thread_local Got g;
    return g;
}
struct Notes {
    template<class... A>
    int operator()(A &&...a) const {
        got() = {};
        (got().types.push_back(typeid(list<A &&>)), ...);
        (got().at.push_back(place(a)), ...);
        return static_cast<int>(sizeof...(A));
    }
    template<class A>
    static const void *place(A &a) {
        if constexpr (std::is_function_v<A>) return reinterpret_cast<const void *>(&a);
        else return address(a);
    }
};
struct SelfNotes {
    template<class S, class... A>
    int operator()(S &&, A &&...a) const { return Notes{}(std::forward<A>(a)...); }
};
template<class... T>
std::vector<std::type_index> types() { return { typeid(list<T>)... }; }
inline void expect(const char *what, const std::vector<std::type_index> &t, const std::vector<const void *> &at = {}) {
    mon::stat("checks", 2), mon::stat("odd_cases");
    mon::evaluated(mon::mix(hash(what), t.size()), true);
    if (got().types != t) {
        std::size_t i = 0;
        while (i < t.size() && i < got().types.size() && t[i] == got().types[i]) ++i;
        mon::violation(mon::format("%s: argument %zu of %zu does not have the type %s", what, i, got().types.size(), i < t.size() ? t[i].name() : "(none)"));
        return;
    }
    for (std::size_t i = 0; i < at.size(); ++i)
        if (at[i] && at[i] != got().at[i]) mon::violation(mon::format("%s: argument %zu is a different object", what, i));
}

struct Objects {
    int arr[3] = { 1, 2, 3 };
    const char text[5] = "text";
    std::string two[2][2] = { { "a", "b" }, { "c", "d" } };
    int n = 5;
    std::reference_wrapper<int> ref{ n };
    const void *fn = reinterpret_cast<const void *>(&twice);
};
// arrays, a function, a reference wrapper and a member pointer passed through `call`
template<class C>
void passed(const char *what, C call) {
    Objects o;
    auto pm = &Member::v;
    call(o.arr, o.text, o.two, twice, o.ref, pm);
    expect(what, types<int(&)[3], const char(&)[5], std::string(&)[2][2], int (&)(int), std::reference_wrapper<int> &, int Member::*&>(), { &o.arr, &o.text, &o.two, o.fn, &o.ref, &pm });
    call(std::move(o.arr), std::as_const(o.two), "abc", std::move(o.ref), &Member::add, nullptr);
    expect(what, types<int(&&)[3], const std::string(&)[2][2], const char(&)[4], std::reference_wrapper<int> &&, int (Member::*&&)(int) const, std::nullptr_t &&>(), { &o.arr, &o.two, nullptr, &o.ref });
}

#ifdef ODD_binding
inline void binding() { // C14
    using namespace pigro;
    const auto f = std::tuple<>{} >> Notes{};
    const auto b = compressed_tuple<>{} << Notes{};
    passed("call arguments of a function bound in front", [&](auto &&...a) { f(FWD(a)...); });
    passed("call arguments of a function bound behind", [&](auto &&...a) { b(FWD(a)...); });
    Objects o;
    int Member::*pm = &Member::v;
    std::tuple<int(&)[3], int (&)(int), std::reference_wrapper<int>, int Member::*> t{ o.arr, twice, o.ref, pm };
    (std::tuple{ 1 } << (t >> Notes{}))();
    expect("arrays, functions and wrappers bound in front", types<int(&)[3], int (&)(int), std::reference_wrapper<int> &, int Member::*&, int &>(), { &o.arr, o.fn, &std::get<2>(t), &std::get<3>(t) });
    (t << Notes{})('c');
    expect("arrays, functions and wrappers bound behind", types<char &&, int(&)[3], int (&)(int), std::reference_wrapper<int> &, int Member::*&>(), { nullptr, &o.arr, o.fn, &std::get<2>(t), &std::get<3>(t) });
    auto c = compressed_tuple{ std::ref(o.n), std::cref(o.n) };
    (c >> Notes{})();
    expect("reference wrappers in a compressed tuple, bound", types<std::reference_wrapper<int> &, std::reference_wrapper<const int> &>());
    // wrapped callables are called, not copied
    Counts m;
    auto g = std::tuple{ 1 } >> std::ref(m);
    auto h = std::tuple{ 1 } << std::ref(m);
    auto g2 = g;
    g(), h(), g2(), g();
    CHECK(m.n == 4, "a callable bound through std::ref is not the one called (%ld)", m.n);
    CHECK((std::tuple{ 5 } >> twice)() == 10 && (std::tuple{ 5 } << &twice)() == 10, "a function bound");
    CHECK((std::tuple{ Member{ 1 } } >> &Member::add)(2) == 3 && (std::tuple{ 2 } << &Member::add)(Member{ 1 }) == 3, "a member function bound");
    Member obj{ 4 };
    CHECK((std::tuple{ &obj } >> &Member::v)() == 4 && (std::tuple{ std::ref(obj) } >> &Member::v)() == 4 && (std::tuple{ std::make_unique<Member>(obj) } >> &Member::add)(1) == 5, "a member bound to a pointer or wrapper");
    (std::tuple{ obj } >> &Member::v)() = 9;
    auto w = std::tuple{ std::ref(obj) } >> &Member::v;
    w() = 11;
    CHECK(obj.v == 11, "the reference a member pointer yields is not passed through");
}
#endif

#ifdef ODD_back
inline void back() { // C15
    using namespace pigro;
    passed("front arguments of bind_back", [](auto &&...a) { bind_back(Notes{})(FWD(a)...); });
    Objects o;
    const auto &c = o.arr;
    auto b = bind_back(Notes{}, o.arr, c, o.two, twice, o.ref, "abc");
    b(1);
    expect("arrays and functions given to bind_back", types<int &&, int(&)[3], const int(&)[3], std::string(&)[2][2], int (&)(int), std::reference_wrapper<int> &, const char(&)[4]>(), { nullptr, &o.arr, &o.arr, &o.two, o.fn, &o.ref });
    o.arr[1] = 50;
    CHECK(bind_back([](int i, const int(&a)[3]) { return a[i]; }, o.arr)(1) == 50, "changes to an array given to bind_back are not seen");
    Counts m;
    auto g = bind_back(std::ref(m), 1);
    auto g2 = g;
    g(), g2(), g();
    CHECK(m.n == 3, "a callable given through std::ref is not the one called (%ld)", m.n);
    CHECK(bind_back(twice)(4) == 8 && bind_back(&twice, 4)() == 8, "functions given to bind_back");
    int n = 1;
    auto r = bind_back([](std::reference_wrapper<int> x) { return ++x.get(); }, std::ref(n));
    CHECK(r() == 2 && r() == 3 && n == 3, "a reference wrapper given to bind_back");
}
#endif

#ifdef ODD_applying
inline void applying() { // C16
    using namespace pigro;
    passed("elements of a tuple of references", [](auto &&...a) { pigro::apply(Notes{}, std::forward_as_tuple(FWD(a)...)); });
    passed("elements of a view of a tuple of references", [](auto &&...a) { std::apply(Notes{}, to_tuple(std::forward_as_tuple(FWD(a)...))); });
    Objects o;
    std::tuple<int(&)[3], std::reference_wrapper<int>, int Member::*> t{ o.arr, o.ref, &Member::v };
    pigro::apply(Notes{}, t);
    expect("arrays and wrappers applied", types<int(&)[3], std::reference_wrapper<int> &, int Member::*&>(), { &o.arr, &std::get<1>(t), &std::get<2>(t) });
    pigro::apply(Notes{}, std::as_const(t));
    expect("arrays and wrappers of a const tuple applied", types<int(&)[3], const std::reference_wrapper<int> &, int Member::*const &>(), { &o.arr, &std::get<1>(t) });
    CHECK((std::is_same_v<decltype(to_tuple(t)), std::tuple<int(&)[3], std::reference_wrapper<int> &, int Member::*&>>), "the view of a tuple of arrays and wrappers");
    auto c = compressed_tuple{ std::ref(o.n), 'c' };
    pigro::apply(Notes{}, c);
    expect("a wrapper in a compressed tuple applied", types<std::reference_wrapper<int> &, char &>());
    CHECK((std::is_same_v<decltype(to_tuple(c)), std::tuple<std::reference_wrapper<int> &, char &>>), "the view of a compressed tuple with a wrapper");
    mon::stat("views");
    Counts m;
    pigro::apply(std::ref(m), t), pigro::apply(m, t);
    CHECK(m.n == 2, "a callable applied through std::ref is not the one called (%ld)", m.n);
    CHECK(pigro::apply(twice, std::tuple{ 4 }) == 8 && pigro::apply(&twice, std::array{ 4 }) == 8, "a function applied");
    Member obj{ 4 };
    CHECK(pigro::apply(&Member::v, std::tuple{ &obj }) == 4 && pigro::apply(&Member::add, std::pair{ std::ref(obj), 3 }) == 7 && pigro::apply(&Member::add, std::tuple{ std::make_shared<Member>(obj), 3 }) == 7, "members applied");
    CHECK((std::is_same_v<decltype(pigro::apply(&Member::v, std::tuple<Member &>{ obj })), int &>) &&(std::is_same_v<decltype(pigro::apply(&Member::v, std::tuple<Member>{ obj })), int &&>), "the type of a member applied");
    pigro::apply(&Member::v, std::tuple<Member &>{ obj }) = 6;
    CHECK(obj.v == 6, "the reference a member pointer yields is not passed through");
}
#endif

#ifdef ODD_elements
inline void elements() { // C13
    using namespace pigro;
    Objects o;
    auto c = compressed_tuple{ std::ref(o.n), std::cref(o.n), &Member::v, &twice };
    CHECK((std::is_same_v<decltype(c), compressed_tuple<std::reference_wrapper<int>, std::reference_wrapper<const int>, int Member::*, int (*)(int)>>), "the elements deduced are not the values given");
    CHECK((std::is_same_v<decltype(get<0>(c)), std::reference_wrapper<int> &>) &&(std::is_same_v<decltype(get<1>(std::as_const(c))), const std::reference_wrapper<const int> &>), "a wrapper as an element is not accessed as such");
    int other = 77;
    get<0>(c) = std::ref(other); // rebinds, does not assign
    CHECK(o.n == 5 && get<0>(c) == 77 && get<1>(c) == 5 && get<3>(c)(4) == 8, "a wrapper as an element cannot be rebound");
    auto d = c;
    get<0>(c) = std::ref(o.n);
    CHECK(get<0>(d) == 77 && get<0>(c) == 5, "the wrappers of copies are not independent");
    compressed_tuple<int(&)[3], int (&)(int), std::string &> e{ o.arr, twice, o.two[0][1] };
    CHECK((std::is_same_v<decltype(get<0>(e)), int(&)[3]>) &&&get<0>(e) == &o.arr && get<1>(e)(4) == 8 && &get<2>(e) == &o.two[0][1], "references to arrays and functions as elements");
    CHECK((std::is_same_v<std::tuple_element_t<0, decltype(e)>, int(&)[3]>) &&(std::is_same_v<std::tuple_element_t<1, decltype(e)>, int (&)(int)>), "the element types of references to arrays and functions");
    mon::stat("element_reads", 8);
    mon::evaluated(60999, true);
}
#endif

#ifdef ODD_algorithms
inline void algorithms() { // C17
    using namespace pigro;
    Objects o;
    std::tuple<int(&)[3], std::reference_wrapper<int>, int (&)(int), int Member::*> t{ o.arr, o.ref, twice, &Member::v };
    struct Same {
        auto operator()(const int (&a)[3]) const { return a[2]; }
        auto operator()(const std::reference_wrapper<int> &r) const { return r; }
        int (*operator()(int (&f)(int)) const)(int) { return f; }
        auto operator()(int Member::*const &p) const { return p; }
    };
    auto r = transform(t, Same{});
    CHECK((std::is_same_v<decltype(r), std::tuple<int, std::reference_wrapper<int>, int (*)(int), int Member::*>>), "transform to wrappers and pointers: the types");
    if constexpr (std::is_same_v<decltype(r), std::tuple<int, std::reference_wrapper<int>, int (*)(int), int Member::*>>) {
        o.n = 6;
        CHECK(std::get<0>(r) == 3 && std::get<1>(r) == 6 && &std::get<1>(r).get() == &o.n && std::get<2>(r) == &twice && std::get<3>(r) == &Member::v, "transform to wrappers and pointers: the values");
    }
    auto lit = transform(std::tuple{ 1, 2 }, [](int) -> const char(&)[4] { return "abc"; });
    CHECK((std::tuple_size_v<decltype(lit)> == 2) && std::string(std::get<1>(lit)) == "abc", "transform to arrays");
    CHECK(transform(std::array{ Member{ 1 }, Member{ 2 } }, std::mem_fn(&Member::v)) == (std::tuple{ 1, 2 }), "transform by a member");
    Counts m;
    long calls = 0;
    auto count = [&calls](auto &&...) { ++calls; return false; };
    CHECK(!any(t, std::ref(count)) && calls == 4, "any through std::ref");
    CHECK(any(std::tuple{ false, std::true_type{}, nullptr != nullptr }) && !any(std::pair{ false, 0 }) && any(std::tuple{ static_cast<const char *>("x") }), "any of elements convertible to bool");
    mon::stat("projections", 10), mon::stat("predicate_events", 10);
    mon::evaluated(60998, true);
}
#endif

#ifdef ODD_items
inline void items() { // C18
    using namespace pigro;
    Objects o;
    auto f = [](auto &&...i) {
        got() = {};
        (got().types.push_back(typeid(list<decltype(i.value)>)), ...);
        (got().at.push_back(Notes::place(i.value)), ...);
        return 0;
    };
    enumerate_pack(f, o.arr, o.text, o.two, twice, o.ref, std::move(o.arr), "abc");
    expect("items of arrays, functions and wrappers", types<int(&)[3], const char(&)[5], std::string(&)[2][2], int (&)(int), std::reference_wrapper<int> &, int(&&)[3], const char(&)[4]>(), { &o.arr, &o.text, &o.two, o.fn, &o.ref, &o.arr });
    Counts m;
    enumerate_pack(std::ref(m), 1, 2), enumerate_pack(m, 1, 2), enumerate_n<3>(std::ref(m));
    CHECK(m.n == 3, "enumerating calls a copy of its callable (%ld)", m.n);
    // an item as an argument of its own
    const int nested = enumerate_pack([](auto &&a, auto &&b) {
        return enumerate_pack([](auto &&x, auto &&y) { return static_cast<int>(x.index * 1000 + y.index * 100 + x.value.index * 10 + y.value.index) + x.value.value + y.value.value; }, b, a);
    }, 20000, 40000);
    CHECK(nested == 60000 + 100 + 10, "items of items (%d)", nested);
    mon::stat("items", 11);
}
#endif

#ifdef ODD_overloads
inline void overloads() { // C19
    using namespace pigro;
    Counts m;
    struct OnText {
        int operator()(const char *) const { return 1; }
    };
    struct OnArray {
        int operator()(int (&)[3]) const { return 2; }
        int operator()(int (&&)[3]) const { return 3; }
    };
    struct OnFunction {
        int operator()(int (*f)(int)) const { return f(2); }
    };
    Objects o;
    overload f{ OnText{}, OnArray{}, OnFunction{} };
    CHECK(f("abc") == 1 && f(o.arr) == 2 && f(std::move(o.arr)) == 3 && f(twice) == 4 && f(&twice) == 4, "overloads for arrays and functions");
    auto once = [n = 0](Member &x) mutable { return x.v + ++n; };
    overload g{ std::ref(once), OnText{} };
    Member x{ 10 };
    CHECK(g(x) == 11 && once(x) == 12 && g(x) == 13 && g("abc") == 1, "an overload set with a wrapped callable");
    mon::evaluated(60997, true);
}
#endif

#ifdef ODD_self_passing
inline void self_passing() { // C21
    using namespace pigro;
    recursive f{ SelfNotes{} };
    passed("arguments of a self-passing function", [&](auto &&...a) { f(FWD(a)...); });
    passed("arguments of a const rvalue self-passing function", [&](auto &&...a) { std::move(std::as_const(f))(FWD(a)...); });
    SelfCounts c;
    recursive g{ std::ref(c) };
    auto g2 = g;
    CHECK(g(1) == 1 && g2(2) == 2 && c.n == 2, "a self-passing function around a wrapped callable");
}
#endif

#ifdef ODD_uncapturing
inline void uncapturing() { // C23
    using namespace pigro;
    auto plain = uncaptured(7) >> Notes{};
    Objects o;
    auto pm = &Member::v;
    plain(o.arr, o.text, o.two, twice, o.ref, pm);
    expect("arguments before an uncaptured value", types<int(&)[3], const char(&)[5], std::string(&)[2][2], int (&)(int), std::reference_wrapper<int> &, int Member::*&, int &>(), { &o.arr, &o.text, &o.two, o.fn, &o.ref, &pm });
    // wrapped callables are called, not copied
    Counts m;
    auto f = uncaptured(1) >> std::ref(m);
    auto g = uncaptured(1, 2) >> std::ref(m);
    auto h = uncaptured(Nil<0>{}, Nil<1>{}, 'c') >> std::ref(m);
    auto g2 = g;
    f(), g(), h(), g2(), g(5);
    CHECK(m.n == 5, "a callable through std::ref is not the one called (%ld)", m.n);
    CHECK((m.received == std::vector<std::size_t>{ 1, 2, 3, 2, 3 }), "uncaptured values of a callable through std::ref");
    // wrapped values are passed on
    int n = 0;
    auto k = uncaptured(std::ref(n), std::string("x"), std::cref(n)) >> [](std::reference_wrapper<int> r, const std::string &, std::reference_wrapper<const int> c) { ++r.get(); return c.get(); };
    auto k2 = k;
    CHECK(k() == 1 && k2() == 2 && n == 2, "uncaptured reference wrappers");
    auto p = uncaptured(&Member::v, &twice, nullptr) >> [](Member x, int Member::*a, int (*b)(int), std::nullptr_t) { return b(x.*a); };
    CHECK(p(Member{ 4 }) == 8, "uncaptured pointers");
    auto t = uncaptured(std::tuple{ 1, 2 }, std::pair{ 3, 4 }) >> [](std::tuple<int, int> a, std::pair<int, int> b) { return std::get<0>(a) + std::get<1>(a) * 10 + b.first * 100 + b.second * 1000; };
    CHECK(t() == 4321, "uncaptured tuples");
    auto t1 = uncaptured(std::tuple{ 1, 2 }) >> [](std::tuple<int, int> a) { return std::get<0>(a) + std::get<1>(a) * 10; };
    CHECK(t1() == 21, "an uncaptured tuple");
}
#endif

#ifdef ODD_regular
inline void regular() { // C24
    using namespace pigro;
    Counts m;
    auto f = regularized_void(std::ref(m));
    auto g = unregularized_void(std::ref(m));
    auto f2 = f;
    f(1), g(2), f2(3);
    CHECK(m.n == 3, "a callable through std::ref is not the one called (%ld)", m.n);
    static int ran;
    ran = 0;
    void (*fn)(int) = [](int x) { ran += x; };
    auto h = regularized_void(fn);
    CHECK((std::is_same_v<decltype(h(1)), regular_void>), "a regularized function pointer");
    h(4);
    unregularized_void(h)(5);
    CHECK(ran == 9, "a regularized function pointer is called once");
    Member x{ 4 };
    CHECK(regularized_void([](Member *p) { return p->v; })(&x) == 4, "a pointer argument");
    mon::evaluated(60996, true);
}
#endif

#ifdef ODD_captures
inline void captures() { // C22
    using namespace pigro;
    Objects o;
    auto same = [](auto &&r, auto want, const void *at, const char *what) {
        using W = typename decltype(want)::type;
        CHECK((std::is_same_v<decltype(r), W>), "%s: not the type it should be", what);
        CHECK(Notes::place(r) == at, "%s: a different object", what);
        mon::stat("casts"), mon::stat("captures");
        mon::evaluated(hash(what), true);
    };
    auto a = fwd_capture(o.arr);
    same(access(a), std::type_identity<int(&)[3]>{}, &o.arr, "capturing an array");
    auto b = fwd_capture(std::as_const(o.two));
    same(access(b), std::type_identity<const std::string(&)[2][2]>{}, &o.two, "capturing a const array");
    auto c = fwd_capture(twice);
    same(access(c), std::type_identity<int (&)(int)>{}, o.fn, "capturing a function");
    auto d = fwd_capture(o.ref);
    same(access(d), std::type_identity<std::reference_wrapper<int> &>{}, &o.ref, "capturing a wrapper");
    auto e = fwd_capture(std::ref(o.n));
    CHECK((std::is_same_v<decltype(access(e)), std::reference_wrapper<int> &>) &&&access(e).get() == &o.n, "capturing a temporary wrapper");
    volatile int v = 1;
    auto f = fwd_capture(v);
    same(access(f), std::type_identity<volatile int &>{}, const_cast<int *>(&v), "capturing a volatile object");
    std::tuple<int, int> t{ 1, 2 };
    auto g = fwd_capture(t);
    same(access(g), std::type_identity<std::tuple<int, int> &>{}, &t, "capturing a tuple");
    auto h = fwd_capture(std::tuple{ 8 });
    CHECK((std::is_same_v<decltype(access(h)), std::tuple<int> &>) && access(h) == std::tuple{ 8 }, "capturing a temporary tuple of one element");
    auto k = fwd_capture(std::tuple<std::tuple<int>>{ std::tuple<int>{ 8 } });
    CHECK((std::is_same_v<decltype(access(k)), std::tuple<std::tuple<int>> &>), "capturing a temporary tuple of a tuple");
    const auto ca = std::array{ 1, 2 };
    same(as_nonconst(o.text), std::type_identity<char(&)[5]>{}, &o.text, "as_nonconst of an array");
    same(as_nonconst(ca), std::type_identity<std::array<int, 2> &>{}, &ca, "as_nonconst of a std::array");
    same(forward_like<int &>(o.arr), std::type_identity<int(&)[3]>{}, &o.arr, "forward_like of an array");
    same(forward_like<int>(o.arr), std::type_identity<int(&&)[3]>{}, &o.arr, "forward_like of an array, as an rvalue");
    same(forward_like<const int &>(o.arr), std::type_identity<const int(&)[3]>{}, &o.arr, "forward_like of an array, as a const lvalue");
    same(forward_like<const std::string &&>(o.two), std::type_identity<const std::string(&&)[2][2]>{}, &o.two, "forward_like of an array of arrays, as a const rvalue");
}
#endif

} // namespace bm::odd
