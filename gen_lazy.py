"""Generates monitor programs over random trees of lazy functions."""
import random

# C++ type, number of tokens, flags (n: one value unequal to itself, s: reports comparisons, h: owns tracked memory, e: empty)
TYPES = [
    ("bool", 2, ""), ("char", 12, ""), ("signed char", 12, ""), ("unsigned char", 12, ""), ("short", 12, ""),
    ("unsigned short", 12, ""), ("int", 12, ""), ("unsigned", 12, ""), ("long", 12, ""), ("long long", 12, ""),
    ("unsigned long long", 12, ""), ("char32_t", 12, ""), ("float", 10, "n"), ("double", 12, ""), ("long double", 12, ""),
    ("lm::Colour", 5, ""), ("const int *", 12, ""), ("std::string", 12, ""), ("std::string_view", 12, ""),
    ("std::vector<int>", 12, ""), ("std::vector<std::string>", 12, ""), ("lm::pair_ii", 12, ""), ("lm::pair_si", 12, ""),
    ("lm::tuple_i", 12, ""), ("lm::tuple_is", 12, ""), ("lm::tuple_t", 12, ""), ("lm::array_3", 12, ""), ("std::optional<int>", 12, ""),
    ("std::optional<std::string>", 12, ""), ("lm::variant_is", 12, ""), ("lm::map_is", 12, ""), ("std::shared_ptr<int>", 12, ""),
    ("std::complex<double>", 12, ""), ("std::chrono::milliseconds", 12, ""), ("std::bitset<9>", 12, ""), ("lm::Point", 12, ""),
    ("lm::OnlyEq", 12, ""), ("lm::NoDefault", 12, ""), ("lm::Big", 12, ""), ("lm::Aligned", 12, ""), ("lm::EmptyVal", 1, "e"),
    ("lm::Coarse", 12, ""), ("lm::Padded", 12, ""), ("lm::Json", 12, ""), ("lm::Greedy", 12, ""), ("lm::Amp", 12, ""), ("lm::Ordered", 12, ""), ("lm::OddEq", 12, ""), ("lm::FinalNil", 1, "e"), ("lm::NilNoDefault", 1, "e"),
    ("lm::Spy", 12, "s"), ("lm::Heap", 12, "h"), ("lm::Costly", 12, "h"),
]
CONSTANTS = [("lm::NoEq", 12, "c"), ("lm::Functor", 12, "c"), ("lm::EmptyFunctor", 1, "c"), ("std::nullptr_t", 1, "c"), ("std::monostate", 1, "c")]
BY = {t[0]: t for t in TYPES}
PLAIN = [t for t in TYPES if not t[2]]


class Tree:
    def __init__(self, gid, rng, prof):
        self.gid, self.rng, self.prof = gid, rng, prof
        self.nodes, self.nsrc, self.pending = [], 0, list(prof.get("must", []))

    def pick_type(self, role):
        r, p = self.rng, self.prof
        if self.pending:
            t = self.pending[0]
            if t in BY:
                self.pending.pop(0)
                return BY[t]
        pool = p.get("types", TYPES)
        return r.choice(pool)

    def node(self, **k):
        self.nodes.append(k)
        return len(self.nodes) - 1

    def const(self):
        t = self.pick_type("const")
        if self.rng.random() < .2 and "types" not in self.prof:
            t = self.rng.choice(CONSTANTS)
        tok = self.rng.randrange(t[1])
        if "n" in t[2] and self.rng.random() < .4:
            tok = 9
        i = self.node(kind="CONST", type=t, par=tok, kids=[], void=False, op=0, stateful=False, throws=False)
        return i, f"lm::make<{t[0]}>({tok}, {i})", f"{t[0]}:{tok}"

    def src(self):
        r, p = self.rng, self.prof
        void = r.random() < p.get("voidsrc", 0)
        t = None if void else self.pick_type("src")
        if self.nsrc and r.random() < .2:
            s = r.randrange(self.nsrc)  # two functions reading the same source
        else:
            s, self.nsrc = self.nsrc, self.nsrc + 1
        stateful = not void and r.random() < p.get("stateful", 0)
        throws = r.random() < p.get("throws", 0)
        i = self.node(kind="SRC", type=t, par=s, kids=[], void=void, op=0, stateful=stateful, throws=throws)
        return i, self.callable(i, t, [], stateful), f"src{s}->{t[0] if t else 'void'}"

    def callable(self, i, t, argtypes, stateful):
        r = self.rng
        R = t[0] if t else "void"
        if stateful:
            return f"lm::Counting<{R}>{{ {i} }}"
        kinds = self.prof.get("kinds", ["stateless", "stateless", "stateless", "capturing", "capturing", "pointer", "function", "lambda", "lambdacap", "byvalue", "reference", "mutable", "owning"])
        k = r.choice(kinds)
        if k == "reference" and not t:
            k = "stateless"
        if k == "stateless":
            return f"lm::Stateless<{i}, {R}>{{}}"
        if k == "byvalue":
            return f"lm::StatelessByValue<{i}, {R}>{{}}"
        if k == "capturing":
            return f"lm::Capturing<{R}>{{ {i} }}"
        if k == "owning":
            return f"lm::Owning<{R}>{{ {i} }}"
        if k == "reference":
            return f"lm::ReturnsReference<{i}, {R}>{{}}"
        if k == "mutable":
            return f"lm::MutableOnly<{i}, {R}>{{}}"
        if k == "pointer":
            return "&lm::pointed_to<" + ", ".join([str(i), R] + argtypes) + ">"
        if k == "function":
            return f"std::function<{R}({', '.join(argtypes)})>{{ lm::Capturing<{R}>{{ {i} }} }}"
        nullary = self.nodes[i].get("kind") == "SRC"  # a plain dependency must not be callable with just anything
        if k == "lambda" and nullary:
            return f"[]() {{ return lm::body<{R}>({i}, 0); }}"
        if k == "lambdacap" and nullary:
            return f"[k = std::string(\"{'x' * 20}{i}\")]() {{ return lm::body<{R}>(std::stoi(k.substr(20)), 0); }}"
        if k == "lambda":
            return f"[](const auto &...a) {{ return lm::body<{R}>({i}, 0, a...); }}"
        if k == "lambdacap":
            return f"[k = std::string(\"{'x' * 20}{i}\")](auto... a) {{ return lm::body<{R}>(std::stoi(k.substr(20)), 0, a...); }}"
        raise KeyError(k)

    def fn(self, depth, arity=None):
        r, p = self.rng, self.prof
        me = self.node()  # parents come first: the root is 0
        void = r.random() < p.get("void", 0)
        if arity is None:
            arity = r.choice(p.get("arity", [0, 1, 1, 2, 2, 2, 3, 3]))
            if me == 0 and "root_arity" in p:
                arity = r.choice(p["root_arity"])
        kids, exprs, texts, argt = [], [], [], []
        forced = list(p.get("root_kids", [])) if me == 0 else []
        if forced:
            arity = len(forced)
        for j in range(arity):
            if forced:
                what = forced[j]
            elif depth > 1 and j == 0 and me < p.get("spine", 0):
                what = "fn"
            else:
                what = r.choices(["const", "src", "fn"], [p.get("w_const", 1), p.get("w_src", 3), p.get("w_fn", 3) if depth > 1 and len(self.nodes) < p.get("maxnodes", 10) else 0])[0]
            i, e, x = self.const() if what == "const" else self.src() if what == "src" else self.fn(depth - 1)
            kids.append(i); exprs.append(e); texts.append(x)
            t = self.nodes[i]["type"]
            argt.append(t[0] if t else "pigro::regular_void")
        t = None if void else self.pick_type("fn")
        stateful = not void and r.random() < p.get("stateful", 0)
        throws = r.random() < p.get("throws", 0)
        op = r.choice([0, 0, 1, 1, 3, 3, 2] if arity else [2])
        par = r.choice([2, 2, 3, 12]) if op == 0 else r.randrange(t[1] if op == 2 and t else 12)
        self.nodes[me] = dict(kind="FN", type=t, par=par, kids=kids, void=void, op=op, stateful=stateful, throws=throws)
        c = self.callable(me, t, argt, stateful)
        return me, "pigro::lazy(" + ", ".join([c] + exprs) + ")", f"{t[0] if t else 'void'}<-[" + ", ".join(texts) + "]"

    def emit(self):
        _, expr, text = self.fn(self.prof.get("depth", 2))
        rows = []
        for n in self.nodes:
            t = n["type"]
            dom = t[1] if t else 1
            nan = 9 if t and "n" in t[2] else -1
            rows.append("{ lm::%s, %s, %d, %d, %s, %d, %d, %s, %s, { %s } }" % (
                n["kind"], str(n["void"]).lower(), dom, nan, str(bool(t and "s" in t[2])).lower(), n["op"], n["par"],
                str(n["stateful"]).lower(), str(n["throws"]).lower(), ", ".join(map(str, n["kids"]))))
        root = self.nodes[0]["type"]
        R = root[0] if root else "void"
        text = text.replace("lm::", "").replace("std::", "").replace('"', "")
        if self.prof.get("threads"):
            return f"""
static void tree_{self.gid}(std::uint64_t seed, const lm::Mode &mode) {{
    static const lm::Shape shape{{ {self.gid}, "{text}", {self.nsrc}, {{
        {(','+chr(10)+'        ').join(rows)} }} }};
    static const auto make = [] {{ return {expr}; }};
    using L = decltype(make());
    const L shared = make(); // one constant original
    mon::in_threads({self.prof["threads"]}, [&](int t) {{
        const auto s = seed * 64 + static_cast<std::uint64_t>(t);
        if (t % 4 == 3)
            lm::drive<{R}>(shape, make, s, mode);
        else
            lm::drive<{R}>(shape, [&] {{ return L(shared); }}, s, mode);
    }});
    // nobody called the original: it still behaves like a new one
    lm::drive<{R}>(shape, [&] {{ return L(shared); }}, seed, mode);
}}
"""
        return f"""
static void tree_{self.gid}(std::uint64_t seed, const lm::Mode &mode) {{
    static const lm::Shape shape{{ {self.gid}, "{text}", {self.nsrc}, {{
        {(','+chr(10)+'        ').join(rows)} }} }};
    lm::drive<{R}>(shape, [] {{ return {expr}; }}, seed, mode);
}}
"""


MAIN = """#include "lazy_mon.h"
#include "threads.h"
%(trees)s
int main(int argc, char **argv) {
    mon::begin(argc, argv);
    auto mode = lm::mode_for(mon::state().prop);
    mode.histories *= mon::state().scale;
    const auto seed = mon::state().seed;
%(calls)s
    return mon::end();
}
"""

def program(trees):
    body = "".join(t.emit() for t in trees)
    return MAIN % dict(trees=body, calls="\n".join(f"    tree_{t.gid}(seed, mode);" for t in trees))


# ---------------------------------------------------------------- profiles

def profiles(prop, rng, n):
    """n profiles (one tree each) for a property"""
    out = []
    every = [t[0] for t in TYPES]
    rng.shuffle(every)
    cyc = lambda i, k: [every[(i * k + j) % len(every)] for j in range(k)]
    for i in range(n):
        p = dict()
        if prop == "C01":
            p = dict(depth=rng.choice([1, 2, 2, 3]), must=cyc(i, 3), root_arity=[1, 2, 3], w_const=1, maxnodes=9)
            if i == 0: p.update(depth=1, root_kids=["src"] * 6, must=[])
            if i == 1: p.update(depth=4, root_arity=[1], arity=[1, 2], spine=10, must=[])
        elif prop == "C02":
            kinds = ["const", "src", "fn"]
            ar = [0, 1, 2, 3, 4, 5, 6, 8][i % 8]
            p = dict(depth=2, arity=[0, 1, 1], root_kids=[rng.choices(kinds, [1, 4, 1])[0] for _ in range(ar)], root_arity=[0], must=cyc(i, max(1, ar)))
        elif prop == "C03":
            p = dict(depth=rng.choice([3, 3, 4]), root_arity=[1, 2, 3], arity=[1, 1, 2, 2], w_const=.4, w_src=2, w_fn=5, spine=4, maxnodes=10, must=cyc(i, 2))
        elif prop == "C04":
            p = dict(depth=rng.choice([2, 3]), root_arity=[2, 3, 4], arity=[1, 2, 3], w_const=1, maxnodes=11, must=cyc(i, 2))
        elif prop == "C05":
            p = dict(depth=rng.choice([1, 2, 3]), types=[BY["lm::Spy"]], root_arity=[1, 2, 3, 4], arity=[0, 1, 2], w_const=1.5, maxnodes=9,
                     kinds=["stateless", "capturing", "pointer", "lambda", "byvalue", "reference"])
        elif prop == "C06":
            p = dict(depth=rng.choice([1, 2, 3]), void=.6, voidsrc=.2, root_arity=[0, 1, 2, 3], arity=[0, 1, 2], maxnodes=8, must=cyc(i, 1))
            if i == 0: p.update(depth=1, void=1)
            if i == 1: p.update(depth=2, void=1, root_kids=["src", "fn", "fn"])
        elif prop == "C07":
            ty = [BY[x] for x in ("lm::Heap", "lm::Heap", "lm::Costly", "std::string", "std::vector<std::string>", "std::shared_ptr<int>", "lm::tuple_is", "std::optional<std::string>", "lm::map_is", "int", "lm::Big", "lm::Aligned", "std::string_view")]
            p = dict(depth=rng.choice([1, 2, 3]), types=ty, must=["lm::Heap"], root_arity=[1, 2, 3], arity=[0, 1, 2], maxnodes=8, throws=.15, void=.1, w_const=2,
                     kinds=["stateless", "capturing", "owning", "owning", "function", "lambdacap", "byvalue", "reference", "pointer"])
            if i % 4 == 3: p["must"] = ["lm::Costly", "lm::Costly"]
        elif prop == "C08":
            p = dict(depth=rng.choice([1, 2, 3]), stateful=.25, root_arity=[0, 1, 2, 3], arity=[0, 1, 2], maxnodes=8, void=.1, must=cyc(i, 2),
                     kinds=["stateless", "capturing", "owning", "function", "byvalue", "reference", "pointer", "mutable"] if i % 3 else ["lambda", "lambdacap", "stateless"])
        elif prop == "C09":
            p = dict(depth=rng.choice([1, 2, 3]), root_arity=[1, 2, 3], arity=[0, 1, 2], maxnodes=8, throws=.35 if i % 2 else 0, void=.1,
                     types=PLAIN + [BY["lm::Spy"], BY["lm::Heap"], BY["lm::Costly"]] * 5)
        elif prop == "C10":
            p = dict(depth=rng.choice([1, 2, 3]), stateful=.2, root_arity=[1, 2], arity=[0, 1, 2], maxnodes=7, void=.1, types=[t for t in TYPES if t[2] not in ("h",)],
                     kinds=["stateless", "capturing", "function", "lambda", "lambdacap", "byvalue", "pointer"], must=cyc(i, 2))
        elif prop == "C11":
            p = dict(depth=rng.choice([1, 2, 3]), stateful=.7, root_arity=[0, 1, 2, 3], arity=[0, 1, 2], maxnodes=8, must=cyc(i, 1))
        out.append(p)
    return out


def generate(prop, seed, programs, per_program):
    rng = random.Random(f"{prop}/{seed}")
    ps = profiles(prop, rng, programs * per_program)
    rng.shuffle(ps)
    res = []
    for k in range(programs):
        trees = []
        for j in range(per_program):
            gid = k * per_program + j
            prof = ps[gid]
            if prop == "C10":
                prof["must"] = [m for m in prof.get("must", []) if m not in ("lm::Heap", "lm::Costly")]
                prof["threads"] = 6
            trees.append(Tree(gid, rng, prof))
        res.append((f"{prop.lower()}_trees_{k}", program(trees)))
    return res


if __name__ == "__main__":
    import sys
    for name, code in generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])):
        open(f"{sys.argv[5]}/{name}.cpp", "w").write(code)
