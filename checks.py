"""Which monitor programs decide which property."""
import os
from dataclasses import dataclass, field

import gen_blocks
import gen_lazy
import gen_units

HERE = os.path.dirname(os.path.abspath(__file__))


@dataclass
class Program:
    name: str
    code: str
    san: str = "asan"
    seed: int = 1
    scale: int = 1
    flags: list = field(default_factory=list)
    wrapper: list = field(default_factory=list)
    slow: int = 1
    units: list = field(default_factory=list)  # more translation units: (name, code, flags)
    optional: bool = False  # of a width at which compiling may take too long


ASSUMPTIONS = ["g++ 13 with -std=gnu++20, at -O0 (thorough: also -O2); a verdict covers the executions produced by this run only",
               "the workload's own functions are side-effect free apart from reporting to the monitor, and respect =="]
# counts without which a run has shown nothing
REQUIRED = {
    "C01": ["cache_hits", "cutoffs", "source_changes"], "C02": ["cache_hits", "source_changes"], "C03": ["cutoffs", "source_changes"], "C04": ["evaluation_events"],
    "C05": ["comparison_events", "cache_hits"], "C06": ["evaluation_events"], "C07": ["exceptions", "tracked_objects", "copy_move_assign_ops"], "C08": ["copy_move_assign_ops", "cache_hits"],
    "C09": ["exceptions"], "C10": ["threads", "shared_copies", "evaluation_events"], "C11": ["evaluation_events"], "C12": ["sizes"], "C13": ["element_reads"], "C14": ["calls"], "C15": ["calls"],
    "C16": ["calls", "views"], "C17": ["projections", "predicate_events", "short_circuits"], "C18": ["items"], "C19": ["calls", "rejections"], "C20": ["both_groups", "types_compared"],
    "C21": ["calls"], "C22": ["casts", "captures"], "C23": ["calls", "modifications"], "C24": ["void_calls", "optional_steps"],
    "C25": ["exceptions"], "C26": ["copies", "lazy_evaluations", "cache_hits"],
    "C27": ["calls", "copies", "moves", "assignments", "types_compared"],
}
TREES = "random trees of lazy functions (%s; 53 value types and 5 constant-only ones, 13 kinds of callables) driven by random histories of source changes and calls, every evaluation, argument, comparison and result reported by the functions themselves; "
CASES = "; distinct by tree, set of evaluations, values and results"
RULES = {
    "C01": TREES % "arity 0-8, depth 1-4" + "each call's result and arguments are compared with evaluating everything afresh; also std::ref sharing, all kinds of dependencies, long histories; non-trivial: a call after the first with something changed" + CASES,
    "C02": TREES % "arity 0-12" + "which functions were evaluated, how often, is compared with the model; every subset of changed dependencies up to arity 10; every value of 59 lists of nearly equal values (one bit, one middle element, the next floating point number) after every other; non-trivial: something changed since the previous call" + CASES,
    "C03": TREES % "depth 3-6" + "which functions were evaluated is compared with the model, in which equal results stop the propagation; every value of 59 lists of nearly equal values (one bit, one middle element, the next floating point number) after every other; non-trivial: something changed since the previous call" + CASES,
    "C04": TREES % "depth 2-3" + "order and number of consultations and the arguments received are compared with the model; non-trivial: something changed" + CASES,
    "C05": TREES % "all results of a type that reports its comparisons" + "the multiset of comparisons, by the node both operands came from, is compared with the model" + CASES,
    "C06": TREES % "most functions return void" + "all events and the type of the call are compared with the model" + CASES,
    "C07": TREES % "owning, throwing and tracked types" + "under AddressSanitizer and UndefinedBehaviorSanitizer with injected faults, copies, moves, assignments; every tracked object is registered by address from construction to destruction; over-aligned empty types in every block, each of their copies failing in turn" + CASES,
    "C08": TREES % "up to 4 live copies" + "random copy/move/assign/swap/destroy between calls, each copy with a model state of its own; embedding of evaluated functions, containers, std::function" + CASES,
    "C09": TREES % "throwing functions" + "faults injected into the n-th evaluation, comparison or copy; 34 kinds of exception in every role, the exception object itself followed; the exception and all later results are compared with evaluating afresh" + CASES,
    "C10": "6 threads at a time under ThreadSanitizer, each driving its own copies of one shared constant original (or its own functions and other function objects) against the sequential model" + CASES,
    "C11": TREES % "function objects that count their own evaluations" + "the count each instance reports is compared with the model; bound functions; copies" + CASES,
    "C12": "sizes of generated types (compressed tuples, overloads, bound and lazy functions) measured and compared with the sum of their stateful parts; distinct by type",
    "C13": "random element types, random histories of create/copy/move/assign/write/drop; each element read in four value categories and compared with a model; distinct by type, history position and values",
    "C14": "random tuples, callables and call arguments; the one call recorded is compared, argument by argument, in value, category and identity; distinct by case and values",
    "C15": "random bound and call arguments; the one call recorded is compared, argument by argument, in value, category and identity; distinct by case and values",
    "C16": "random tuples applied and viewed in four value categories; arguments compared in value, category and identity; distinct by case and values",
    "C17": "random tuples and projections or predicates (every pattern up to 6 elements, random to 30, faults); every visit recorded; distinct by case, pattern and values",
    "C18": "random argument packs up to 17; every item recorded; distinct by case and values",
    "C19": "generated overload sets of up to 10 callables with random parameter lists, called with 36 kinds of argument lists; selected callable, its state and acceptance are compared with a class declaring all operators itself; distinct by set, expression and selection",
    "C20": "random type lists up to 34 types and 14 traits; the resulting sequence of types is compared with a loop; non-trivial: both groups non-empty; distinct by list and operation",
    "C21": "random arguments in four value categories, and recursions compared with direct recursion; distinct by case, category and values",
    "C22": "20+ types with every From of 4 cv-qualifications and 3 reference kinds; type and identity of the result compared; distinct by type, From and category",
    "C23": "random lists of up to 10 values, chained or not, with random arguments; histories of calls of the callable and its copies; distinct by case and values",
    "C24": "random functions and arguments regularized, unregularized and both; random histories of optional unit values against std::optional; distinct by case and values",
    "C25": "random compositions of up to 3 blocks over a callable that throws, and tuples of values that throw when copied; faults of 9 exception types in the n-th call or copy; every block with 34 kinds of exception, the exception object itself followed; every block with empty types, each of their copies failing in turn; histories of making, copying, moving, calling; exception, calls, state, lifetimes and later behaviour compared with a model; non-trivial: an exception was thrown; distinct by case, values and position in the history",
    "C26": "every block directly around every other, random compositions of 2 to 4 blocks (binding in front and behind, bind_back, uncaptured, regularized, self-passing, overloaded, enumerated, applied, viewed), also as the function of a lazy function; histories of calls, copies, moves; the one call received at the bottom compared with the arguments expected; distinct by case, values and position in the history",
    "C27": "programs of several translation units, each including the headers in an order of its own and built with other options; histories in which one unit makes an object and others call, copy, move, assign and destroy it, compared with a model; every header as the first and only one of a unit; distinct by unit, kind of object and result",
}
LAZY = {  # property: (programs, trees per program) quick, thorough
    "C01": ((8, 4), (40, 5)), "C02": ((8, 3), (32, 4)), "C03": ((8, 3), (32, 4)), "C04": ((8, 3), (32, 4)), "C05": ((8, 3), (32, 4)),
    "C06": ((8, 3), (32, 4)), "C07": ((8, 2), (32, 3)), "C08": ((8, 2), (32, 3)), "C09": ((8, 3), (32, 4)), "C10": ((5, 3), (24, 3)), "C11": ((8, 3), (24, 4)),
}
BLOCKS = {  # property: (programs, cases per program) quick, thorough
    "C10": ((2, 3), (10, 4)), "C12": ((6, 6), (24, 8)), "C13": ((8, 9), (40, 10)), "C14": ((8, 8), (40, 10)), "C15": ((8, 8), (40, 10)), "C16": ((8, 8), (32, 10)),
    "C17": ((8, 6), (32, 10)), "C18": ((8, 8), (32, 10)), "C19": ((8, 6), (40, 8)), "C20": ((8, 20), (24, 40)), "C21": ((8, 8), (32, 10)), "C22": ((8, 6), (16, 12)),
    "C23": ((8, 8), (40, 10)), "C24": ((8, 8), (32, 10)), "C25": ((8, 6), (40, 8)), "C26": ((8, 6), (40, 8)),
}
KINDS = "constant_kinds<lm::NoEq, lm::Functor, lm::EmptyFunctor, std::nullptr_t, std::monostate, lm::EmptyVal, lm::Coarse, float, const int *, std::string_view, lm::tuple_i, std::optional<int>, std::shared_ptr<int>>();"
FLAT = ["flat<%d>(rng);" % n for n in (1, 2, 3, 4, 5, 6, 7, 8)]
TYPED = [("special3", ["all_typed<" + ", ".join(t[0] for t in gen_lazy.TYPES[k::4]) + ">(rng);"]) for k in range(4)]
WIDE = [("special3", [f"wide_middle<{n}, {n % 3}>(rng);" for n in ns]) for ns in ((1, 2, 3, 12), (4, 5, 6), (7, 8, 10))]
SPECIAL = {  # property: programs of (header, statements)
    "C01": [("reentrant", ["reentrant(rng);"]), ("special2", ["dependency_kinds(rng);"]), ("special2", ["shared_by_ref(rng);", "constants();"]), ("special2", ["reference_kinds(rng);"]), ("special2", [KINDS]), ("special", ["long_history(rng);", "flat<12>(rng);"]), ("special", ["flat_lazy<6>(rng);", "diamond(rng);"])] + TYPED,
    "C02": [("reentrant", ["reentrant(rng);"]), ("special", FLAT), ("special", ["flat<10>(rng);", "flat<12>(rng);", "flat_mixed(rng);"]), ("special", ["flat_lazy<1>(rng);", "flat_lazy<3>(rng);", "flat_lazy<6>(rng);"]), ("special2", ["dependency_kinds(rng);", "constants();"]), ("special2", ["reference_kinds(rng);"]), ("special2", [KINDS]), ("special", ["long_history(rng);"])],
    "C03": [("special_chain", ["chain(rng);"]), ("special", ["diamond(rng);", "long_history(rng);"])] + TYPED + WIDE,
    "C04": [("special2", ["reference_kinds(rng);"]), ("special", FLAT), ("special", ["flat_lazy<6>(rng);", "flat_mixed(rng);"])],
    "C07": [("reentrant", ["reentrant(rng);"]), ("special2", ["results_outlive();", "storing(rng);"]), ("special2", ["embedding(rng);", "shared_by_ref(rng);"])],
    "C06": [("special2", ["embedding_void(rng);"])],
    "C08": [("special2", ["embedding(rng);", "embedding_void(rng);"]), ("special2", ["storing(rng);"])],
    "C11": [("special2", ["own_state();"])],
}

MANY = {  # property: statements over N elements, N quick, N thorough
    "C13": (["elements<N>();"], [70], [130, 260]),
    "C14": (["binding<N, true, true>();", "binding<N, false, false>();", "binding<N, false, true>();", "binding<N, true, false>();", "calling<N, true>();", "calling<N, false>();"], [35, 70], [130, 260]),
    "C15": (["back<N>();"], [70], [130, 260]),
    "C16": (["applying<N, true>();", "applying<N, false>();"], [35, 70], [130, 260]),
    "C17": (["algorithms<N>();"], [35, 70, 130], [260]),
    "C18": (["enumerating<N>();"], [70, 260], [130, 300]),
    "C19": (["overloads<N>();"], [70, 260], [130, 300]),
    "C20": (["partitions<N>();"], [70, 260], [130, 300]),
    "C21": (["self_passing<N>();"], [70], [130, 260]),
    "C23": (["uncapturing<N>();"], [35, 70], [100]),
    "C24": (["regular<N>();"], [70], [130, 260]),
}
VERY_WIDE = {"C01": ([35, 70], [130, 260]), "C02": ([70], [130, 260]), "C03": ([70], [130, 260]), "C04": ([35, 70], [130, 260])}

ODD = {"C13": "elements", "C14": "binding", "C15": "back", "C16": "applying", "C17": "algorithms", "C18": "items", "C19": "overloads", "C21": "self_passing", "C22": "captures", "C23": "uncapturing", "C24": "regular"}

NAMESAKES = {**{p: w for p, w in ODD.items() if w not in ("overloads", "self_passing")}, "C01": "lazy", "C20": "partitions"}
NESTING = {**{p: w for p, w in ODD.items() if w not in ("elements", "captures")}, "C08": "lazy"}
SINGLE = {**{p: w for p, w in ODD.items() if w not in ("overloads", "captures")}, "C01": "lazy"}
EMPTIES = {"C07": ["blocks", "lazy"], "C09": ["lazy"], "C25": ["blocks"]}

FAULTS = {"C09": ["lazy_functions();"], "C25": ['blocks<void, Throws>("void");', 'blocks<int, Keeps>("int");', 'blocks<int &, Throws>("int &");', 'blocks<lm::MoveOnly, Throws>("a move-only type");', "algorithms();"]}


def many(prop, tier):
    res = []
    thorough = tier != "quick"
    if prop in VERY_WIDE:
        for n in VERY_WIDE[prop][0] + (VERY_WIDE[prop][1] if thorough else []):
            res.append((f"{prop.lower()}_wide_{n}", special("special_wide", [f"very_wide<{n}>(rng);"]), n > 100))
    if prop in MANY:
        what, quick, deep = MANY[prop]
        for n in quick + (deep if thorough else []):
            for k, w in enumerate(what):
                if thorough or n != 35 or k % 2 == 0:
                    body = special("wide_blocks", [w.replace("N", str(n))]).replace("using namespace sp;", "using namespace bm::wide;")
                    res.append((f"{prop.lower()}_many_{n}_{k}", body, n > 100))
    return res


def sanitizer(prop, k):
    if prop == "C10":
        return "tsan"
    if prop in ("C07", "C13", "C25"):
        return "asan+ubsan"
    return "asan"


def special(header, body):
    return f'#include "{header}.h"\nusing namespace sp;\nint main(int argc, char **argv) {{\n    mon::begin(argc, argv);\n    mon::Rng rng{{ mon::state().seed }};\n' + \
        "".join(f"    {b}\n" for b in body) + "    return mon::end();\n}\n"


def programs(prop, seed, tier):
    quick = tier == "quick"
    scale = 1 if quick else 8
    codes = []
    for k, (h, body) in enumerate(SPECIAL.get(prop, [])):
        codes.append((f"{prop.lower()}_special_{k}", special(h, body)))
    if prop in LAZY:
        codes += gen_lazy.generate(prop, seed, *LAZY[prop][0 if quick else 1])
    if prop in BLOCKS:
        codes += gen_blocks.generate(prop, seed, *BLOCKS[prop][0 if quick else 1])
    res = [Program(name, code, sanitizer(prop, k), seed, scale) for k, (name, code) in enumerate(codes)]
    if prop == "C27":
        for name, code, units in gen_units.generate(seed, *((2, 5) if quick else (10, 7))):
            res.append(Program(name, code, "asan+ubsan", seed, scale, units=units))
    if prop in NAMESAKES:
        res.append(Program(f"{prop.lower()}_namesakes", f"#define ODD_{NAMESAKES[prop]}\n" + special("namesakes", ["namesakes();"]).replace("using namespace sp;", "using namespace bm::odd;"), "asan", seed, 1))
    if prop in NESTING:
        res.append(Program(f"{prop.lower()}_nesting", f"#define ODD_{NESTING[prop]}\n" + special("nesting", ["nesting();", "endurance();"]).replace("using namespace sp;", "using namespace bm::odd;"), "asan+ubsan", seed, 1))
    if prop in SINGLE:
        parts = 5 if prop == "C01" else 1
        for k in range(parts):
            res.append(Program(f"{prop.lower()}_single_{k}", f"#define ODD_{SINGLE[prop]}\n#define SINGLE_PARTS {parts}\n#define SINGLE_PART {k}\n" + special("single", ["single_values();"]).replace("using namespace sp;", "using namespace bm::odd;"), "asan", seed, 1))
    for what in EMPTIES.get(prop, []):
        res.append(Program(f"{prop.lower()}_empties_{what}", f"#define ODD_{what}\n" + special("empties", ["empties();"]).replace("using namespace sp;", "using namespace bm::odd;"), "asan+ubsan", seed, 1))
    if prop in ("C01", "C02", "C03"):
        for k in range(3):
            res.insert(0, Program(f"{prop.lower()}_near_{k}", f"#define NEAR {k}\n" + special("near", ["nearly(rng);"]), "asan", seed, 1))
    for k, b in enumerate(FAULTS.get(prop, [])):
        res.append(Program(f"{prop.lower()}_faults_{k}", special("faults", [b]).replace("using namespace sp;", "using namespace bm::faults;"), "asan+ubsan", seed, 1))
    if prop in ODD:
        res.append(Program(f"{prop.lower()}_odd", f"#define ODD_{ODD[prop]}\n" + special("odd", [f"{ODD[prop]}();"]).replace("using namespace sp;", "using namespace bm::odd;"), "asan+ubsan", seed, 1))
    res = [Program(name, code, "asan", seed, 1, optional=opt) for name, code, opt in many(prop, tier)][::-1] + res
    if not quick:
        more = []
        for k, p in enumerate(p for p in res if not p.optional):
            if k % 4 == 1 and prop not in ("C12", "C27"):  # optimised: other layouts and lifetimes of temporaries
                more.append(Program(p.name + "_O2", p.code, p.san, seed + 1, scale, ["-O2"]))
            if k % 4 == 2 and p.san == "asan":
                more.append(Program(p.name + "_ub", p.code, "asan+ubsan", seed + 2, scale))
            if k % 8 == 3 and prop in ("C07", "C08", "C09"):  # uninitialised reads
                more.append(Program(p.name + "_vg", p.code, "plain", seed + 3, 1, ["-g1"], ["valgrind", "--leak-check=full", "--error-exitcode=0", "-q"], 4))
        res += more
    return res
