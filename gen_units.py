"""Programs of several translation units (C27)."""
import random

HEADERS = ["apply", "bind_tuple", "compressed_tuple", "concepts", "empty_object", "forward_like", "fwd_capture", "lazy", "overload", "pack_algorithms",
           "partition", "recursive", "regular_void", "to_tuple", "tuple_algorithms", "uncapture", "utils"]

# what a unit that includes nothing before one header can do with it: includes of its own, body, calls with their results
ALONE = {
    "apply": ("#include <tuple>", "struct F { long operator()(long a, int b) const { return a * 10 + b; } };\nlong use(long x) { std::tuple<long, int> t{ x, 3 }; return pigro::apply(F{}, t); }", "x * 10 + 3"),
    "bind_tuple": ("#include <tuple>", "struct F { long operator()(long a, long b) const { return a * 10 + b; } };\nlong use(long x) { using pigro::operator>>; using pigro::operator<<; auto f = std::tuple{ 4L } >> F{}; auto g = std::tuple{ 5L } << F{}; auto h = pigro::bind_back(F{}, x); return f(x) + 100 * g(x) + 10000 * h(2); }",
                   "40 + x + 100 * (x * 10 + 5) + 10000 * (20 + x)"),
    "compressed_tuple": ("", "struct E {};\nlong use(long x) { pigro::compressed_tuple t{ E{}, x, 'a', E{} }; get<1>(t) += 2; return get<1>(t) * static_cast<long>(sizeof(t) <= 2 * sizeof(long)); }", "x + 2"),
    "concepts": ("#include <tuple>", "struct E {};\nstruct NE { int i; };\nlong use(long x) { return x + pigro::concepts::empty<E> + 2 * pigro::concepts::empty<NE> + 4 * pigro::concepts::tuple_like<std::tuple<int>> + 8 * pigro::concepts::tuple_like<std::tuple<int> &>; }", "x + 13"),
    "empty_object": ("", "struct E { long f(long x) const { return x + 1; } };\nlong use(long x) { return pigro::empty_object<E>::get().f(x); }", "x + 1"),
    "forward_like": ("", "long over(long &x) { return x; }\nlong over(const long &x) { return x + 1; }\nlong over(long &&x) { return x + 2; }\nlong use(long x) { return over(pigro::forward_like<int &>(x)) + 10 * over(pigro::forward_like<int &&>(x)); }", "x + 10 * (x + 2)"),
    "fwd_capture": ("#include <utility>", "long use(long x) { auto c = pigro::fwd_capture(x); pigro::access(c) += 5; auto d = pigro::fwd_capture(x + 1); return x + pigro::access(std::move(d)); }", "x + 5 + x + 5 + 1"),
    "lazy": ("", "struct F { long operator()(long a, long b) const { return a * 10 + b; } };\nstruct S { const long *p; long operator()() const { return *p; } };\nlong use(long x) { long cell = 1; auto f = pigro::lazy(F{}, S{ &cell }, 7L); auto g = pigro::lazy(F{}, f, S{ &cell }); const long a = g(); cell = x; return g() + a; }", "(x * 10 + 7) * 10 + x + 171"),
    "overload": ("", "struct F { long operator()(long a) const { return a + 1; } };\nstruct G { long operator()(const char *) const { return 5; } };\nlong use(long x) { pigro::overload<F, G> o{ F{}, G{} }; return o(x) + o(\"\"); }", "x + 6"),
    "pack_algorithms": ("", "struct F { template<class... I> long operator()(I &&...i) const { return ((static_cast<long>(i.value) * static_cast<long>(i.index + 1)) + ...); } };\nlong use(long x) { return pigro::enumerate_pack(F{}, x, 10L) + 1000 * pigro::enumerate_n<3>(F{}); }", "x + 20 + 8000"),
    "partition": ("", "template<class T> struct is_ptr { static constexpr bool value = false; };\ntemplate<class T> struct is_ptr<T *> { static constexpr bool value = true; };\ntemplate<class A, class B> struct same { static constexpr bool value = false; };\ntemplate<class A> struct same<A, A> { static constexpr bool value = true; };\nlong use(long x) { return x + same<pigro::partition_t<is_ptr, int, char *, long, int *>, pigro::typelist<char *, int *, int, long>>::value; }", "x + 1"),
    "recursive": ("", "struct F { template<class S> long operator()(S &&self, long n) const { return n <= 0 ? 0 : n + self(n - 1); } };\nlong use(long x) { pigro::recursive f{ F{} }; return f(x); }", "x <= 0 ? 0 : x * (x + 1) / 2"),
    "regular_void": ("#include <optional>", "struct F { void operator()(long) const {} };\nstruct G { long operator()(long a) const { return a; } };\nlong use(long x) { auto f = pigro::regularized_void(F{}); auto g = pigro::unregularized_void(G{}); std::optional<pigro::regular_void> o; o = f(x); return g(x) + (o ? 1 : 0); }", "x + 1"),
    "to_tuple": ("#include <tuple>", "long use(long x) { std::tuple<long, long> t{ x, 1 }; auto v = pigro::to_tuple(t); std::get<0>(v) += 1; return std::get<0>(t) * 2; }", "(x + 1) * 2"),
    "tuple_algorithms": ("#include <tuple>", "struct Twice { long operator()(long a) const { return 2 * a; } };\nstruct Big { bool operator()(long a) const { return a > 5; } };\nlong use(long x) { auto t = pigro::transform(std::tuple{ x, 1L }, Twice{}); return std::get<0>(t) + std::get<1>(t) + 1000 * pigro::any(std::tuple{ x, 1L }, Big{}); }", "2 * x + 2 + 1000 * (x > 5)"),
    "uncapture": ("", "struct F { long operator()(long a, long b, char c) const { return a * 100 + b * 10 + c; } };\nlong use(long x) { auto f = pigro::uncaptured(3L, '\\1') >> F{}; return f(x); }", "x * 100 + 31"),
    "utils": ("", "long use(long x) { const long &c = x; pigro::as_nonconst(c) += 1; return x + static_cast<long>(pigro::idx<2>); }", "x + 3"),
}
STD = ["vector", "map", "functional", "tuple", "optional", "memory", "string", "variant", "algorithm", "ranges", "thread", "type_traits", "utility", "array"]


def alone(seed, headers):
    """one unit per header, which includes nothing before it"""
    units, decl, calls = [], "", ""
    for h in headers:
        own, body, result = ALONE[h]
        units.append((f"alone_{h}", f"#include <pigro/{h}.h>\n{own}\nnamespace alone_{h} {{\n{body}\n}}\n", ["-std=gnu++20"]))
        decl += f"namespace alone_{h} {{ long use(long); }}\n"
        calls += f'    for (long i = 0; i < 40; ++i) {{ const long x = i < 8 ? i : static_cast<long>(rng.below(500)); const long r = alone_{h}::use(x), e = {result}; CHECK(r == e, "{h}.h alone: use(%ld) gives %ld instead of %ld", x, r, e); mon::stat("calls"); mon::evaluated(mon::mix({HEADERS.index(h)}, static_cast<std::uint64_t>(x)), true); }}\n'
    return f'#include "mon.h"\n{decl}int main(int argc, char **argv) {{\n    mon::begin(argc, argv);\n    mon::Rng rng{{ mon::state().seed }};\n{calls}    mon::sample("headers alone: {", ".join(headers)}");\n    return mon::end();\n}}\n', units


def several(rng, n, first):
    units, names = [], []
    for k in range(n):
        order = HEADERS[:]
        rng.shuffle(order)
        h = first[k % len(first)]
        order.remove(h)
        order = [h] + order
        if rng.random() < 0.3:
            order += rng.sample(HEADERS, 4)
        text = ""
        for k2, x in enumerate(order):
            if k2 and rng.random() < 0.2:
                text += f"#include <{rng.choice(STD)}>\n"
            text += f"#include <pigro/{x}.h>\n"
        name = f"unit_{k}"
        names.append(name)
        flags = ["-std=" + rng.choice(["gnu++20", "c++20", "gnu++20", "gnu++23"]), rng.choice(["-O0", "-O0", "-O1", "-O2"])] + rng.choice([[], ["-D_GLIBCXX_ASSERTIONS"], ["-g1"], ["-DNDEBUG"]])
        units.append((name, f'{text}#include "units.h"\nUNIT({name})\n', flags))
    main = '#include "units_main.h"\n' + "".join(f"units::Table {u}();\n" for u in names) + \
        "int main(int argc, char **argv) {\n    mon::begin(argc, argv);\n    mon::Rng rng{ mon::state().seed };\n    units::run(rng, { " + ", ".join(f"{u}()" for u in names) + " });\n    return mon::end();\n}\n"
    return main, units


def generate(seed, programs, n):
    rng = random.Random(seed * 1000003 + 27)
    first = HEADERS[:]
    rng.shuffle(first)
    res = [(f"c27_alone_{k}", *alone(seed, HEADERS[k::2])) for k in range(2)]
    for k in range(programs):
        res.append((f"c27_units_{k}", *several(rng, n, first[k * n % len(first):] + first)))
    return res
