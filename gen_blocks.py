"""Generates monitor programs for the building blocks."""
import random

ELEMS = ["int", "char", "double", "bool", "std::string", "std::vector<int>", "Obj", "MoveOnly", "Heap", "Big", "Aligned", "const int *", "tuple_i",
         "pair_si", "array_3", "std::shared_ptr<int>", "long long", "std::optional<int>", "OnlyEq", "NoDefault", "Json", "Greedy", "Amp"]
NILS = ["Nil<0>", "Nil<1>", "Nil<2>", "LoudNil", "EmptyVal", "std::tuple<>", "FinalNil", "NilNoDefault"]


def main(includes, body, decls=""):
    return "#define BIND_FACTS\n" * ("bind_facts();" in body) + "".join(f'#include "{i}"\n' for i in includes) + "using namespace bm;\n" + decls + \
        "\nint main(int argc, char **argv) {\n    mon::begin(argc, argv);\n" + "".join("    " + b + "\n" for b in body) + "    return mon::end();\n}\n"


def type_list(r, n, p_nil=.35, pool=ELEMS):
    return [r.choice(NILS) if r.random() < p_nil else r.choice(pool) for _ in range(n)]


def clean(ts):
    return ", ".join(ts).replace('"', "")


def c13(r, n, per, scale):
    out = []
    for k in range(n):
        body = []
        for j in range(per):
            i = k * per + j
            ar = [0, 1, 2, 3, 4, 5, 6, 8, 10][i % 9]
            ts = type_list(r, ar, r.choice([.1, .35, .6]))
            if i % 9 == 1 and k % 2:
                ts = [r.choice(NILS)]
            body.append(f'tuple_case<{clean(ts)}>("{clean(ts)}", {i});')
        if k == 0:
            body += ["conversion_cases();"] + [f'reference_case<{t}>("{t}");' for t in ("int", "std::string", "Obj", "Big", "Heap")]
        out.append((f"c13_{k}", main(["c13.h"], body)))
    return out


def c12(r, n, per, scale):
    out = []
    for k in range(n):
        body, decls = [], []
        for j in range(per):
            ar = r.choice([1, 2, 3, 4, 5, 6, 8])
            full = [t for t in type_list(r, ar, 0, [e for e in ELEMS if e != "MoveOnly"] + ["short", "float", "const int *"])]
            mixed = []
            for t in full:
                mixed += [r.choice(NILS) for _ in range(r.choice([0, 0, 1, 1, 2, 5]))] + [t]
            mixed += [r.choice(NILS) for _ in range(r.choice([0, 1, 2]))]
            decls.append(f"struct S{k}_{j} {{ " + " ".join(f"{t} m{x};" for x, t in enumerate(full)) + " };")
            body.append(f'size_is("compressed_tuple<{clean(mixed)}>", sizeof(pigro::compressed_tuple<{clean(mixed)}>), sizeof(pigro::compressed_tuple<{clean(full)}>));')
            body.append(f'size_is("compressed_tuple<{clean(full)}>", sizeof(pigro::compressed_tuple<{clean(full)}>), sizeof(S{k}_{j}), true);')
            # overloads and bound functions
            st = [(x, r.choice(["char", "int", "double", "std::string", "short"])) for x in range(r.choice([0, 1, 2, 3]))]
            stateful = [f"F1<{x}, {t}>" for x, t in st]
            both = []
            c = 20
            for s in stateful:
                for _ in range(r.choice([0, 1, 2])):
                    both.append(f"F0<{c}>"); c += 1
                both.append(s)
            for _ in range(r.choice([1, 2])):
                both.append(f"F0<{c}>"); c += 1
            want = f"sizeof(pigro::overload<{', '.join(stateful)}>)" if stateful else "1"
            if stateful:
                decls.append(f"struct O{k}_{j} {{ " + " ".join(f"{t} m{x};" for x, t in st) + " };")
                body.append(f'size_is("overload<{clean(stateful)}>", sizeof(pigro::overload<{clean(stateful)}>), sizeof(O{k}_{j}), true);')
            body.append(f'size_is("overload<{clean(both)}>", sizeof(pigro::overload<{clean(both)}>), {want});')
            body.append(f'size_is("recursive<overload<{clean(both)}>>", sizeof(pigro::recursive<pigro::overload<{clean(both)}>>), sizeof(pigro::overload<{clean(both)}>));')
            nils = [r.choice(NILS[:3]) for _ in range(r.choice([1, 2, 4]))]
            op = r.choice([">>", "<<"])
            body.append(f'size_is("({clean(nils)}) {op} stateless", sizeof(pigro::compressed_tuple{{ {", ".join(t + "{}" for t in nils)} }} {op} F0<0>{{}}), 1);')
            one = r.choice(["char", "int", "double", "std::string", "Big", "Obj"])
            body.append(f'size_is("({clean(nils)}, {one}) {op} stateless", sizeof(pigro::compressed_tuple<{clean(nils + [one])}>{{}} {op} F0<0>{{}}), sizeof({one}));')
            body.append(f'size_is("({clean(nils)}) {op} stateful {one}", sizeof(pigro::compressed_tuple<{clean(nils)}>{{}} {op} F1<0, {one}>{{}}), sizeof({one}));')
            body.append(f'size_is("uncaptured({clean(nils + [one])}) >> stateless", sizeof(pigro::uncaptured({", ".join(t + "{}" for t in nils + [one])}) >> F0<0>{{}}), sizeof({one}));')
        if k == 0:
            for e, m in (("pigro::lazy(V<0>{})", 1), ("pigro::lazy(V<0>{}, pigro::lazy(V<1>{}))", 2), ("pigro::lazy(V<0>{}, pigro::lazy(V<0>{}, pigro::lazy(V<0>{})))", 3), ("pigro::lazy(V<0>{}, pigro::lazy(V<1>{}), pigro::lazy(V<2>{}))", 3), ("pigro::lazy(V<0>{}, Nil<0>{}, Nil<1>{})", 1)):
                body.append(f'size_is("{e}", sizeof({e.replace("V<", "lm::Stateless<").replace(">{}", ", void>{}").replace("Nil<0, void>", "Nil<0>").replace("Nil<1, void>", "Nil<1>")}), {m});')
            for t in ("void", "bool", "char", "int", "double", "std::string"):
                body.append(f'size_is("lazy(stateless -> {t})", sizeof(pigro::lazy(lm::Stateless<0, {t}>{{}})), cost_of<{t}>().size);')
                body.append(f'size_is("lazy(stateless -> void, lazy(stateless -> {t}))", sizeof(pigro::lazy(lm::Stateless<0, void>{{}}, pigro::lazy(lm::Stateless<1, {t}>{{}}))), bound({{ cost_of<void>(), cost_of<{t}>() }}), true);')
        # lazy functions
        for j in range(max(2, per // 3)):
            same = r.random() < .5
            ts = ["void", "bool", "char", "int", "double", "std::string", "Big", "float", "tok_t"]
            t0 = r.choice(ts)
            used = []

            def tree(d):
                t = t0 if same else r.choice(ts)
                me = len(used)
                used.append(f"cost_of<{t}>()")
                kids = [tree(d - 1) for _ in range(r.choice([0, 1, 1, 2]) if d > 1 else 0)]
                return "pigro::lazy(" + ", ".join([f"lm::Stateless<{r.choice([0, me])}, {t}>{{}}"] + kids) + ")"
            e = tree(r.choice([1, 2, 3]))
            total = len(used)
            name = e.replace("lm::", "").replace("pigro::", "")
            if same:
                body.append(f'size_is("{name}", sizeof({e}), {total} * cost_of<{t0}>().size);')
            else:
                body.append(f'size_is("{name}", sizeof({e}), bound({{ {", ".join(used)} }}), true);')
            # one captured value or one constant dependency costs at most its own size
            t1, t2 = r.choice(ts[1:]), r.choice(["char", "int", "double", "std::string", "Big"])
            body.append(f'size_is("lazy(stateful {t2} -> {t1})", sizeof(pigro::lazy([v = {t2}{{}}] {{ (void) v; return {t1}{{}}; }})), bound({{ cost_of<{t1}>(), Cost{{ sizeof({t2}), alignof({t2}) }} }}), true);')
            body.append(f'size_is("lazy(stateless -> {t1}, {t2})", sizeof(pigro::lazy(lm::Stateless<0, {t1}>{{}}, {t2}{{}})), bound({{ cost_of<{t1}>(), Cost{{ sizeof({t2}), alignof({t2}) }} }}), true);')
            body.append(f'size_is("lazy(stateless -> {t1}, EmptyVal, {t2}, Nil<1>, EmptyVal)", sizeof(pigro::lazy(lm::Stateless<0, {t1}>{{}}, EmptyVal{{}}, {t2}{{}}, Nil<1>{{}}, EmptyVal{{}})), bound({{ cost_of<{t1}>(), Cost{{ sizeof({t2}), alignof({t2}) }} }}), true);')
        out.append((f"c12_{k}", main(["c12.h"], body, "\n".join(decls))))
    return out


REFS = [" &", "const &", " &&", "const &&"]
STATEFUL = ["State", "Small", "LargeState", "Mutating", "Pointing"]
FNS = ["Plain", "ReturnsVoid", "ReturnsArg<0>", "ReturnsMoveOnly", "Overloaded"] + STATEFUL


def ref(r, t, refs=(" &", "const &", " &&", "const &&")):
    q = r.choice(refs)
    return f"const {t} {q[6:]}" if q.startswith("const") and not t.endswith("*") else f"{t} const {q[6:]}" if q.startswith("const") else t + q


def tuple_type(r, ar, pool=ELEMS):
    k = r.choice(["std::tuple", "std::tuple", "pigro::compressed_tuple", "pigro::compressed_tuple", "std::pair", "std::array"])
    if k == "std::pair":
        return f"std::pair<{r.choice(pool)}, {r.choice(pool)}>", 2
    if k == "std::array" and ar:
        return f"std::array<{r.choice(pool)}, {ar}>", ar
    if k == "std::array":
        k = "std::tuple"
    ts = type_list(r, ar, .3 if "compressed" in k else .15, pool)
    return f"{k}<{clean(ts)}>", ar


def c14(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["bind_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            t, m = tuple_type(r, [0, 1, 2, 3, 4, 6][i % 6])
            args = [ref(r, r.choice(ELEMS + NILS[:2])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            f = r.choice(FNS)
            if f == "ReturnsArg<0>" and m + len(args) == 0:
                f = "Plain"
            if f == "ReturnsArg<0>" and ("Nil" in t or "Empty" in t or "tuple<>" in t):  # may return a reference to a temporary
                f = "State"
            front, lv = r.random() < .5, r.random() < .4
            name = f"{t}{' &' if lv else ''} {'>>' if front else '<<'} {f}, called with ({clean(args)})"
            body.append(f'bind_case<{str(front).lower()}, {str(lv).lower()}, {", ".join([t, f] + args)}>("{name}");')
        out.append((f"c14_{k}", main(["c14.h"], body)))
    return out


def c15(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["back_facts();"] if k == 0 else []
        for j in range(per):
            back = [ref(r, r.choice(ELEMS + NILS[:2]), (" &", " &&", " &&", "const &")) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
            back = [f"const {b}" if b.endswith(" &&") and not b.startswith(("MoveOnly", "const")) and r.random() < .15 else b for b in back]
            args = [ref(r, r.choice(ELEMS + NILS[:2])) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
            f = r.choice(["Plain", "ReturnsVoid", "ReturnsMoveOnly"] + STATEFUL)
            name = f"bind_back({f}; {clean(back)}) called with ({clean(args)})"
            body.append(f'back_case<{", ".join([f] + args)}>("{name}", list<{clean(back)}>{{}});')
        out.append((f"c15_{k}", main(["c15.h"], body)))
    return out


def c16(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["apply_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            t, m = tuple_type(r, [0, 1, 2, 3, 4, 5, 7, 10][i % 8])
            f = r.choice(FNS)
            if f == "ReturnsArg<0>" and (m == 0 or "Nil" in t or "Empty" in t or "tuple<>" in t):
                f = "Plain"
            body.append(f'apply_case<{t}, {f}>("apply({f}, {t})");')
            body.append(f'view_case<{t}>("to_tuple({t})");')
        out.append((f"c16_{k}", main(["c16.h"], body)))
    return out


PROJ = ["ProjValue", "ProjVarying", "ProjPair", "ProjTuple1", "ProjTuple3", "ProjEmptyTuple", "ProjArray", "ProjOptional", "ProjConstRef", "ProjMoveOnly", "ProjState"]


def std_tuple(r, ar, pool):
    while True:
        t, m = tuple_type(r, ar, pool)
        if "compressed" not in t:
            return t, m


def c17(r, n, per, scale):
    out = []
    nomo = [e for e in ELEMS if e != "MoveOnly"]
    for k in range(n):
        body = ["algorithm_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            p = PROJ[i % len(PROJ)]
            t, m = std_tuple(r, [1, 0, 2, 3, 5, 1, 4, 8, 2, 12][i % 10], nomo if p == "ProjConstRef" else ELEMS)
            body.append(f'transform_case<{t}, {p}>("transform({t}, {p})");')
            t, m = std_tuple(r, [0, 1, 2, 3, 4, 5, 6, 9, 14, 30][i % 10], ELEMS)
            b = r.choice(["bool", "bool", "int", "Boolish"])
            body.append(f'any_case<{t}, {b}>("any({t}, -> {b})");')
            ts = [r.choice(["bool", "int", "char", "double", "const int *", "std::optional<int>", "std::shared_ptr<int>", "unsigned long long", "float"]) for _ in range(r.choice([1, 2, 3, 5, 7]))]
            body.append(f'any_default_case<{clean(ts)}>("any({clean(ts)})");')
        out.append((f"c17_{k}", main(["c17.h"], body)))
    return out


def c18(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["pack_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            args = [ref(r, r.choice(ELEMS + NILS)) for _ in range([0, 1, 2, 3, 4, 6, 9, 12, 17][i % 9])]
            f = r.choice(["TakesRvalues", "TakesConst", "TakesMutable", "GivesVoid", "GivesMoveOnly", "GivesRef"])
            body.append(f'pack_case<{", ".join([f] + args)}>("enumerate_pack({f}; {clean(args)})");')
        body += [f"numbers_case<{x}>();" for x in ([0, 1, 2, 3, 5, 8, 40, 300] if k == 0 else r.sample(range(4, 70), 3))]
        out.append((f"c18_{k}", main(["c18.h"], body)))
    return out


# parameter lists of call operators: (template head, parameters, names)
PARAMS = [("", "int", 1), ("", "const int &", 1), ("", "int &", 1), ("", "int &&", 1), ("", "long", 1), ("", "double", 1), ("", "char", 1), ("", "bool", 1), ("", "const char *", 1),
          ("", "std::string", 1), ("", "const std::string &", 1), ("", "std::string &", 1), ("", "std::string &&", 1), ("", "std::string_view", 1), ("", "const Obj &", 1), ("", "Obj &", 1), ("", "Obj &&", 1),
          ("", "const Base &", 1), ("", "Base &", 1), ("", "Derived", 1), ("", "Base *", 1), ("", "const void *", 1), ("", "std::nullptr_t", 1), ("", "FromInt", 1), ("", "unsigned", 1), ("", "std::unique_ptr<int>", 1), ("", "Colour", 1),
          ("", "", 0), ("", "int, int", 2), ("", "int, double", 2), ("", "double, double", 2), ("", "const std::string &, int", 2), ("", "int, int, int", 3),
          ("template<class T> ", "T &&", 1), ("template<class T> ", "const T &", 1), ("template<class T> ", "T &", 1), ("template<class T> ", "T *", 1), ("template<class T> requires std::integral<T> ", "T", 1),
          ("template<class T> requires std::floating_point<T> ", "const T &", 1), ("template<class T> ", "const std::vector<T> &", 1), ("template<class T, class U> ", "T &&, U &&", 2), ("template<class... T> ", "T &&...", -1), ("template<class... T> ", "int, T &&...", -2)]


def op(head, params, arity, cst, k, state, which):
    if arity == -1:
        ps, names = "T &&...a", "static_cast<T &&>(a)..."
    elif arity == -2:
        ps, names = "int b, T &&...a", "b, static_cast<T &&>(a)..."
    else:
        parts = [x.strip() for x in params.split(",")] if params else []
        ps = ", ".join(f"{x} {chr(97 + i)}" for i, x in enumerate(parts))
        names = ", ".join(f"static_cast<decltype({chr(97 + i)}) &&>({chr(97 + i)})" for i, x in enumerate(parts))
    change = state if cst else state + "++" if state != "-7" else state
    res = "void" if k % 4 == 3 else f"Res<{k}>"
    ret = "" if k % 4 == 3 else f" return Res<{k}>{{}};"
    return f"    {head}{res} operator()({ps}) {'const ' if cst else ''}{{ picked({k}, {'true' if cst else 'false'}, {change}{', ' if names else ''}{names});{ret} }}\n"


def c19(r, n, per, scale):
    out = []
    for k in range(n):
        body, decls = (["overload_facts();"] if k == 0 else []), []
        for j in range(per):
            i = k * per + j
            m = [2, 3, 1, 4, 5, 7, 10, 3][i % 8]
            chosen = r.sample(PARAMS[:-10], min(m, len(PARAMS) - 10))
            twin = r.randrange(m - 1) if m > 1 and r.random() < .5 else -1  # the same parameters twice: a const and a mutable callable
            if twin >= 0:
                chosen[twin + 1] = chosen[twin]
            if r.random() < .7 and m > 1 and twin < 0:
                chosen[r.randrange(m)] = r.choice(PARAMS[-10:])
            tag = f"{k}_{j}"
            ref = f"struct Ref{tag} {{\n    std::vector<long> s;\n"
            names, inits = [], []
            for x, (h, ps, ar) in enumerate(chosen):
                cst, stateful = r.random() < .6, r.random() < .6
                if twin >= 0 and x - 1 == twin:
                    cst = not last
                last = cst
                name = f"C{tag}_{x}"
                decls.append(f"struct {name} {{\n" + ("    long s = 0;\n" + ("    std::string payload = \"on the heap, not in place\";\n" if r.random() < .3 else "") if stateful else "") + op(h, ps, ar, cst, x, "s" if stateful else "-7", name) + "};\n")
                ref += op(h, ps, ar, cst, x, f"s[{x}]" if stateful else "-7", name)
                names.append(name)
                inits.append(f"{name}{{ s[{x}] }}" if stateful else f"{name}{{}}")
            decls.append(ref + "};\n")
            sig = "; ".join((h + "(" + ps + ")").replace('"', "") for h, ps, _ in chosen)
            body.append(f'overload_case<Ref{tag}>("overload of {sig}", [](const std::vector<long> &s) {{ (void) s; return pigro::overload{{ {", ".join(inits)} }}; }}, {m});')
        out.append((f"c19_{k}", main(["c19.h"], body, "".join(decls))))
    return out


TYPES = ["int", "const int", "volatile long", "const volatile char", "int &", "const int &", "int &&", "const std::string &", "std::string", "const std::string", "void *", "const char *", "char *const", "Nil<0>", "Nil<1>", "const Nil<0>", "Nil<0> &",
         "std::tuple<>", "std::tuple<int>", "std::vector<int>", "double", "bool", "EmptyVal", "Abstract", "int[3]", "const int[2]", "std::unique_ptr<int>", "Colour", "long long", "char", "pigro::typelist<>", "pigro::typelist<int>", "pigro::type_<int>", "MoveOnly", "int (*)(int)"]
ODD = ["void", "int(int)", "int[]", "Incomplete", "const void", "Incomplete &"]
TRAITS = ["std::is_const", "std::is_reference", "std::is_pointer", "std::is_integral", "std::is_class", "is_cv", "is_never", "is_always", "std::is_lvalue_reference", "std::is_array"]
COMPLETE = ["std::is_empty", "is_small", "std::is_trivially_copyable", "std::is_default_constructible"]


def c20(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["partition_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            m = [0, 1, 2, 3, 5, 8, 13, 20, 34][i % 9]
            complete = r.random() < .5
            pool = r.sample(TYPES, r.choice([3, 8, len(TYPES)])) + ([] if complete else ODD)
            ts = [r.choice(pool) for _ in range(m)]
            tr = r.choice(COMPLETE if complete else TRAITS)
            if tr == "std::is_integral":
                ts = [t for t in ts]
            body.append(f'partition_case<{", ".join([tr] + ts)}>("{tr}");')
            cuts = sorted(r.randrange(len(ts) + 1) for _ in range(r.choice([0, 1, 2, 4, 7])))
            parts = [ts[a:b] for a, b in zip([0] + cuts, cuts + [len(ts)])]
            body.append("concat_case(" + ", ".join(f"pigro::typelist<{', '.join(p)}>{{}}" for p in parts) + ");")
        out.append((f"c20_{k}", main(["c20.h"], body)))
    return out


def c21(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["mon::Rng rng{ mon::mix(mon::state().seed, 21) };", "recursion_facts(rng);"] if k == 0 else []
        for j in range(per):
            args = [ref(r, r.choice(ELEMS + NILS)) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]
            res = r.choice(["int", "void", "std::string &", "const std::string &", "std::string &&", "MoveOnly", "std::string"])
            f = r.choice(["Stateless4"] + [f"Four<{res}, {p}>" for p in ("std::string", "int", "char", "Big", "Heap", "void", "Obj", "double", "tuple_i", "MoveOnly")])
            body.append(f'self_case<{", ".join([f] + args)}>("recursive{{ {f} }} called with ({clean(args)})");')
        out.append((f"c21_{k}", main(["c21.h"], body)))
    return out


def c22(r, n, per, scale):
    out = []
    for k in range(n):
        body = []
        for j in range(per):
            t = r.choice(ELEMS + NILS[:2]) if k else (ELEMS + NILS[:2])[j]
            own = [t, "int", "Obj", "std::vector<int>", "Nil<0>", "Abstract"]
            froms = []
            for cv in ("", "const", "volatile", "const volatile"):
                for q in ("", " &", " &&"):
                    froms.append(f"{r.choice(own[:-1] + own[-1:] if q else own[:-1])} {cv}{q}")
            body.append(f'like_case<{t}>("forward_like of a {t}", list<{", ".join(froms)}>{{}});')
            body.append(f'nonconst_case<{t}>("as_nonconst of a {t}");')
            body.append(f'capture_case<{t}>("fwd_capture of a {t}");')
        out.append((f"c22_{k}", main(["c22.h"], body, "struct Abstract { virtual int f() = 0; };")))
    return out


def c23(r, n, per, scale):
    out = []
    pool = [e for e in ELEMS if e != "MoveOnly"]
    for k in range(n):
        body = ["uncapture_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            m = [1, 2, 3, 0, 4, 5, 7, 10][i % 8]
            vals = type_list(r, m, r.choice([0, .3, .6]), pool if r.random() < .7 else r.sample(pool, 2))
            f = r.choice(["Plain", "ReturnsVoid", "ReturnsMoveOnly", "Overloaded", "Bumps", "Bumps"] + STATEFUL)
            if f == "Bumps" and vals and r.random() < .8:
                vals[-1] = r.choice(["int", "Obj", "std::string"])
            args = [ref(r, r.choice(ELEMS + NILS[:2])) for _ in range(r.choice([0, 0, 1, 2, 3, 5]))]
            split = r.randrange(1, m) if m > 1 else 0
            name = f"uncaptured({clean(vals)}) >> {f}, called with ({clean(args)})"
            body.append(f'Uncaptured<list<{clean(vals)}>, {", ".join([str(split), f] + args)}>::run("{name}");')
        out.append((f"c23_{k}", main(["c23.h"], body)))
    return out


def c24(r, n, per, scale):
    out = []
    pool = [e for e in ELEMS if e != "MoveOnly"]
    for k in range(n):
        body = ["mon::Rng rng{ mon::mix(mon::state().seed, 24) };", "optional_histories(rng);"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            res = ["void", "pigro::regular_void", r.choice(ELEMS), "void", r.choice(ELEMS), "tok_t"][i % 6]
            f = r.choice(["Gives", "GivesCounting", "GivesStateless"]) + f"<{res}>"
            args = [ref(r, r.choice(pool + NILS[:2])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            body.append(f'void_case<{", ".join([f, res] + args)}>("{f} called with ({clean(args)})");')
        out.append((f"c24_{k}", main(["c24.h"], body, 'namespace lm { CODEC(pigro::regular_void, 1, { (void) t; return {}; }) }')))
    return out


APARAMS = ["int", "int &", "const int &", "int &&", "long", "double", "std::string", "std::string &", "const std::string &", "std::string &&", "const char *", "Obj &", "const Obj &", "Obj &&", "MoveOnly", "const MoveOnly &", "bool", "std::unique_ptr<int>"]
AARGS = ["int", "int &", "const int &", "long", "double &", "std::string", "std::string &", "const std::string &", "const char *", "Obj &", "const Obj &", "Obj", "MoveOnly", "const MoveOnly &", "std::nullptr_t", "bool"]


def acceptance(r, kind, count):
    """what blocks accept: parameter lists and argument lists that fit, nearly fit and do not"""
    near = {"int": ["int", "int &", "const int &", "long", "bool", "double &"], "std::string": ["std::string", "std::string &", "const std::string &", "const char *", "std::nullptr_t"], "Obj": ["Obj", "Obj &", "const Obj &"], "MoveOnly": ["MoveOnly", "const MoveOnly &"]}
    body = []
    for _ in range(count):
        ps = [r.choice(APARAMS) for _ in range(r.choice([0, 1, 2, 2, 3]))]

        def arg(p):
            for k, v in near.items():
                if k in p and r.random() < .8:
                    return r.choice(v)
            return r.choice(AARGS)
        args = [arg(p) for p in ps]
        if r.random() < .25 and args:
            args.pop(r.randrange(len(args)))
        elif r.random() < .15:
            args.insert(r.randrange(len(args) + 1), r.choice(AARGS))
        es = [r.choice(["int", "std::string", "Obj", "double"]) for _ in range(r.choice([0, 1, 1, 2]))]
        if kind == "recursive":
            f = r.choice(["TakesSelf", "TakesLvalueSelf"]) + f"<{', '.join(ps)}>"
            body.append(f'accept_recursive<{f}>("{f} and ({", ".join(args)})", list<{", ".join(args)}>{{}});')
            continue
        bound = [r.choice(["", "const ", ""]) + e + r.choice([" &", "", " &"]) for e in es]
        if kind == "apply":
            f = r.choice(["TakesConst_", "TakesMutable_"]) + f"<{', '.join(ps)}>"
            body.append(f'accept_apply<{f}>("{f} and ({", ".join(args)})", list<{", ".join(args)}>{{}});')
            continue
        if kind == "uncaptured":
            bound = [b.replace("const ", "") if r.random() < .3 else ("const " + e + " &") for b, e in zip(bound, es)]
        orders = [bound + ps] if kind == "bound" and r.random() < .5 else [ps + bound]
        f = r.choice(["TakesConst_", "TakesMutable_"] + ["TakesByCategory"] * (kind == "bind_back")) + f"<{', '.join(orders[0])}>"
        body.append(f'accept_{kind}<{f}>("{f} with ({", ".join(es)}) and ({", ".join(args)})", list<{", ".join(es)}>{{}}, list<{", ".join(args)}>{{}});')
    return main(["accept.h"], body)


WRAPS = ["front", "back", "bind_back", "uncaptured", "regularized", "unregularized", "self", "overload", "enumerate", "apply", "view", "self_uncaptured", "overload", "uncaptured"]
DOM = {"bool": 2, "tuple_t": 12, "Obj": 10}


class Composition:
    """a callable made of nested building blocks, and the tokens it passes before and behind its arguments"""

    def __init__(self, r, depth, first=None, kinds=None, base=None, pool=None):
        self.r, self.front, self.back, self.decay, self.used = r, [], [], False, []
        base = base or r.choice(["Faulty", "FaultyHeap", "FaultyCostly", "FaultyConst"])
        self.counts = base not in ("FaultyConst", "TallyConst")
        self.expr, self.text = base + "{}", base
        self.pool = pool or [e for e in ELEMS if e != "MoveOnly"] + ["Heap", "Heap", "Costly", "Costly"]
        for i in range(depth):
            self.wrap(kinds[i] if kinds else first if first and i == depth - 1 else r.choice(WRAPS))

    def values(self, pool, nils=.3):
        ts = type_list(self.r, self.r.choice([1, 1, 2, 3]), nils, pool)
        if self.used and self.r.random() < .6:  # types that occur more than once
            ts[self.r.randrange(len(ts))] = self.r.choice(self.used)
        self.used += ts
        toks = [0 if t in NILS else self.r.randrange(DOM.get(t, 9)) for t in ts]
        return ts, toks, ", ".join(f"make<{t}>({k}, 0)" for t, k in zip(ts, toks))

    def wrap(self, kind):
        r, pool = self.r, self.pool
        if kind in ("front", "back"):
            ts, toks, vals = self.values(pool)
            tup = r.choice(["std::tuple", "pigro::compressed_tuple", "pigro::compressed_tuple"]) + f"<{', '.join(ts)}>{{ {vals} }}"
            f, op = ("pigro::bind_front_tuple", "pigro::operator>>") if kind == "front" else ("pigro::bind_back_tuple", "pigro::operator<<")
            self.expr = f"{f}({self.expr}, {tup})" if r.random() < .5 else f"{op}({tup}, {self.expr})"
            if kind == "front":
                self.front = self.front + toks
            else:
                self.back = toks + self.back
            self.text = f"{kind}({clean(ts)}; {self.text})"
        elif kind in ("bind_back", "uncaptured"):
            ts, toks, vals = self.values(pool)
            self.expr = f"pigro::bind_back({self.expr}, {vals})" if kind == "bind_back" else f"(pigro::uncaptured({vals}) >> {self.expr})"
            self.back = toks + self.back
            self.text = f"{kind}({clean(ts)}; {self.text})"
        else:
            self.decay = self.decay or kind in ("regularized", "unregularized", "view")
            never = r.choice(["OnlyNever{}", "OnlyNeverState{}", "OnlyNever{}"])
            if kind in ("overload", "self_uncaptured") or r.random() < .3:
                ts, toks, vals = self.values(pool)
                if kind == "self_uncaptured":
                    self.expr = f"pigro::recursive{{ pigro::uncaptured({vals}) >> ThroughSelf{{ {self.expr} }} }}"
                    self.back = toks + self.back
                    self.text = f"self(uncaptured({clean(ts)}; {self.text}))"
                    return
                if r.random() < .7:
                    never = r.choice([f"(pigro::uncaptured({vals}) >> AnyNever{{}})", f"pigro::bind_front_tuple(AnyNever{{}}, std::tuple<{', '.join(ts)}>{{ {vals} }})", f"pigro::bind_back_tuple(AnyNever{{}}, pigro::compressed_tuple<{', '.join(ts)}>{{ {vals} }})", f"pigro::bind_back(AnyNever{{}}, {vals})"])
            self.expr = {"regularized": "pigro::regularized_void(%s)", "unregularized": "pigro::unregularized_void(pigro::regularized_void(%s))", "self": "pigro::recursive{ ThroughSelf{ %s } }",
                         "overload": "pigro::overload{ " + r.choice([f"%s, {never}", f"{never}, %s"]) + " }", "enumerate": "ThroughEnumerate{ %s }", "apply": "ThroughApply{ %s }", "view": "ThroughView{ %s }"}[kind] % self.expr
            self.text = f"{kind}({self.text})"

    def case(self, faults):
        r = self.r
        pool = [e for e in ELEMS if e != "MoveOnly"] if self.decay else ELEMS
        args = [ref(r, r.choice(pool + ["Heap", "Heap", "Costly", "Obj"] + NILS[:2]), (" &", " &&", "const &")) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        toks = "{ %s }, { %s }" % (", ".join(map(str, self.front)), ", ".join(map(str, self.back)))
        return f'composed_case<{", ".join([str(faults).lower()] + args)}>("{self.text}, called with ({clean(args)})", [] {{ return {self.expr}; }}, {toks}, {str(self.counts).lower()});'

    def light_case(self):
        toks = "{ %s }, { %s }" % (", ".join(map(str, self.front)), ", ".join(map(str, self.back)))
        return f'light_case("{self.text}", [] {{ return {self.expr}; }}, {toks}, {str(self.counts).lower()});'

    def lazy_case(self):
        toks = "{ %s }, { %s }" % (", ".join(map(str, self.front)), ", ".join(map(str, self.back)))
        return f'lazy_composed_case<{self.r.choice([0, 1, 2, 3])}>("lazy({self.text})", [] {{ return {self.expr}; }}, {toks}, {str(self.counts).lower()});'


def c25(r, n, per, scale):
    out = []
    for k in range(n):
        body = []
        for j in range(per):
            i = k * per + j
            body.append(Composition(r, [1, 1, 2, 2, 3][i % 5], WRAPS[i % len(WRAPS)]).case(True))
            ts = [r.choice([e for e in ELEMS if e != "MoveOnly"] + ["Heap", "Costly"] * 4) for _ in range(r.choice([1, 2, 3, 5]))]
            ts[r.randrange(len(ts))] = r.choice(["Heap", "Costly"])
            body.append(f'values_case<{clean(ts)}>("tuples of {clean(ts)}");')
        out.append((f"c25_{k}", main(["c25.h"], body)))
    return out


def c26(r, n, per, scale):
    out = []
    for k in range(n):
        body = ["compose_facts();"] if k == 0 else []
        for j in range(per):
            i = k * per + j
            body.append(Composition(r, [2, 2, 3, 3, 4][i % 5], WRAPS[i % len(WRAPS)]).case(False))
            if j % 2 == 0:
                body.append(Composition(r, [1, 2, 2, 3][i % 4], WRAPS[i * 7 % len(WRAPS)]).lazy_case())
        out.append((f"c26_{k}", main(["c25.h"], body)))
    # every block directly around every other (thorough: also a sample of three), with and without state at the bottom
    kinds = sorted(set(WRAPS))
    stacks = [(a, b) for a in kinds for b in kinds]
    if n > 8:
        stacks += [tuple(r.choice(kinds) for _ in range(3)) for _ in range(300)]
    parts = len(stacks) // 24
    for k in range(parts):
        body = [Composition(r, len(st), kinds=st, base="TallyConst" if r.random() < .15 else "Tally", pool=["int", "int", "std::string", "tuple_t"]).light_case() for st in stacks[k::parts]]
        out.append((f"c26_stacks_{k}", main(["c25.h"], body)))
    return out


def c10(r, n, per, scale):
    out = [("c10_shared", main(["c10s.h"], ["shared_originals();"])), ("c10_own", main(["c10.h"], ["own_objects();"]))]
    pool = [e for e in ELEMS if e != "std::shared_ptr<int>"]
    for k in range(n):
        body = []
        for j in range(per):
            ts = type_list(r, r.choice([2, 3, 5]), .35, pool)
            body.append(f'tuple_case<{clean(ts)}>("{clean(ts)}", {j});')
            t, m = tuple_type(r, r.choice([1, 2, 3]), pool)
            args = [ref(r, r.choice(pool + NILS[:2])) for _ in range(r.choice([0, 1, 2]))]
            f = r.choice(["Plain", "State", "Mutating", "ReturnsVoid", "ReturnsMoveOnly"])
            body.append(f'bind_case<{r.choice(["true", "false"])}, {r.choice(["true", "false"])}, {", ".join([t, f] + args)}>("binding {t} to {f}");')
            back = [ref(r, r.choice(pool), (" &", " &&", " &&")) for _ in range(r.choice([1, 2, 3]))]
            body.append(f'back_case<{", ".join([f] + args)}>("bind_back", list<{clean(back)}>{{}});')
            vals = type_list(r, r.choice([1, 2, 4]), .3, [e for e in pool if e != "MoveOnly"])
            body.append(f'Uncaptured<list<{clean(vals)}>, {", ".join(["0", r.choice(["Plain", "Mutating", "Bumps"])] + args)}>::run("uncaptured {clean(vals)}");')
        out.append((f"c10_blocks_{k}", main(["c10.h"], ["everywhere([] {"] + body + ["});"])))
    return out


ACCEPTANCE = {"C14": "bound", "C15": "bind_back", "C16": "apply", "C21": "recursive", "C23": "uncaptured"}


def generate(prop, seed, n, per):
    r = random.Random(f"{prop}/{seed}")
    out = globals()[prop.lower()](r, n, per, 1)
    if prop in ACCEPTANCE:
        for k in range(1 if n < 10 else 4):
            out.append((f"{prop.lower()}_accept_{k}", acceptance(r, ACCEPTANCE[prop], 60)))
    return out


if __name__ == "__main__":
    import sys
    for name, code in generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])):
        open(f"{sys.argv[5]}/{name}.cpp", "w").write(code)
