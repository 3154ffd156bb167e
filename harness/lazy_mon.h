// Monitor for lazy functions: the functions and dependencies of a tree report every
// evaluation; an executable model predicts the events and the result of each call.
#pragma once
#include "types.h"

#include <pigro/lazy.h>

#include <algorithm>
#include <optional>

namespace lm {

// ---------------------------------------------------------------- shapes

enum Kind { CONST,
            SRC,
            FN };

struct NodeDef {
    Kind kind;
    bool is_void;
    int dom;          // number of values of the result type
    tok_t nan;        // the value that compares unequal to itself, or BAD
    bool spy;         // the result type reports comparisons
    int op;           // see compute()
    int par;          // parameter of op (modulus, constant, source index)
    bool stateful;    // function object that counts its own evaluations
    bool throws;      // throws for some inputs
    std::vector<int> kids;
};
struct Shape {
    int id;
    std::string text;
    int sources;
    std::vector<NodeDef> nodes; // 0 is the root
};

// throws for some inputs: a property of the inputs, not of the history
struct PureThrow {
    int node;
    tok_t key;
};

// what function `d` computes: the meaning shared by the real functions and the model
inline tok_t compute(const NodeDef &d, int id, const tok_t *args, int n, const std::vector<int> &src, long evals) {
    std::uint64_t h = mon::mix(17, static_cast<std::uint64_t>(id));
    if (d.kind == SRC) {
        const tok_t v = src[d.par];
        if (d.throws && v % 6 == 5) throw_as(static_cast<unsigned>(v / 6 + id), PureThrow{ id, v });
        if (d.is_void) return VOID_TOK;
        return (v + (d.stateful ? evals : 0)) % d.dom;
    }
    for (int i = 0; i < n; ++i) h = mon::mix(h, static_cast<std::uint64_t>(args[i]));
    if (d.throws && (h >> 20) % 5 == 0) throw_as(static_cast<unsigned>(h >> 44), PureThrow{ id, static_cast<tok_t>(h >> 40) });
    if (d.is_void) return VOID_TOK;
    tok_t r = 0;
    switch (d.op) {
    case 0: r = static_cast<tok_t>((h >> 7) % static_cast<std::uint64_t>(d.par)); break; // hash into par values
    case 1: r = n ? args[d.par % n] : 0; break;                                          // one of the arguments
    case 2: r = d.par; break;                                                            // a constant
    case 3: for (int i = 0; i < n; ++i) r += args[i] * (i + 1); break;                   // a weighted sum
    }
    if (r < 0) r = -r;
    return (r + (d.stateful ? evals : 0)) % d.dom;
}

// ---------------------------------------------------------------- events

struct Event {
    int node;
    int n;
    tok_t args[14];
    tok_t result;
    long evals;
    bool operator==(const Event &o) const {
        return node == o.node && n == o.n && result == o.result && evals == o.evals && std::equal(args, args + n, o.args);
    }
};
struct Ctx {
    const Shape *shape = nullptr;
    std::vector<int> src;
    std::vector<Event> log;
    bool in_call = false;
    long outside = 0; // evaluations outside of any call
};
inline Ctx *&ctx() {
    static thread_local Ctx *c = nullptr;
    return c;
}

// called by every function and dependency of a tree
inline tok_t report(int id, long evals, const tok_t *args, int n) {
    Ctx &c = *ctx();
    if (!c.in_call) ++c.outside;
    faultable(0);
    Event e{ id, std::min(n, 14), {}, BAD, evals };
    std::copy(args, args + e.n, e.args);
    const NodeDef &d = c.shape->nodes.at(static_cast<std::size_t>(id));
    try {
        e.result = compute(d, id, args, n, c.src, evals);
    } catch (...) {
        e.result = -99;
        c.log.push_back(e);
        throw;
    }
    c.log.push_back(e);
    return e.result;
}

template<class A>
tok_t arg_token(const A &a) {
    if constexpr (std::is_same_v<A, pigro::regular_void>)
        return VOID_TOK;
    else
        return dec(a);
}

template<class R, class... A>
R body(int id, long evals, const A &...a) {
    const tok_t t[sizeof...(A) + 1] = { arg_token(a)... };
    const tok_t r = report(id, evals, t, sizeof...(A));
    if constexpr (!std::is_void_v<R>) return make<R>(r, id);
}

// ---------------------------------------------------------------- the callables given to the library

template<int ID, class R>
struct Stateless {
    template<class... A>
    R operator()(const A &...a) const { return body<R>(ID, 0, a...); }
};
template<int ID, class R>
struct StatelessByValue {
    R operator()(auto... a) const { return body<R>(ID, 0, a...); }
};
template<class R>
struct Capturing {
    int id;
    template<class... A>
    R operator()(const A &...a) const { return body<R>(id, 0, a...); }
};
template<class R>
struct Counting { // state of its own
    int id;
    long n = 0;
    template<class... A>
    R operator()(const A &...a) {
        struct Undo { // a call that throws does not count
            long &n;
            int x = std::uncaught_exceptions();
            ~Undo() { if (std::uncaught_exceptions() > x) --n; }
        } undo{ n };
        ++n;
        return body<R>(id, n - 1, a...);
    }
};
template<class R>
struct Owning { // captures an object that owns memory
    Heap h;
    explicit Owning(int id) : h{ id } {}
    template<class... A>
    R operator()(const A &...a) const { return body<R>(h.get(), 0, a...); }
};
inline std::set<void (*)()> &at_end_of_history() {
    static thread_local std::set<void (*)()> s;
    return s;
}
template<int ID, class R>
struct ReturnsReference {
    template<class... A>
    const R &operator()(const A &...a) const {
        static thread_local std::optional<R> slot;
        slot.reset();
        at_end_of_history().insert(+[] { slot.reset(); });
        slot.emplace(body<R>(ID, 0, a...));
        return *slot;
    }
};
template<int ID, class R>
struct MutableOnly { // empty, but callable only if not const
    template<class... A>
    R operator()(const A &...a) { return body<R>(ID, 0, a...); }
};
template<int ID, class R, class... A>
R pointed_to(A... a) { return body<R>(ID, 0, a...); }

// ---------------------------------------------------------------- the model

struct NS {
    bool cached = false;
    tok_t value = BAD;
    long evals = 0;
};
using MState = std::vector<NS>;

struct Model {
    const Shape &sh;
    const std::vector<int> &src;
    std::vector<Event> log;
    std::vector<int> cmps; // nodes whose result is compared
    unsigned long changed_mask = 0;

    bool equal(const NodeDef &d, tok_t a, tok_t b) const { return d.is_void || (a == b && a != d.nan); }

    std::pair<tok_t, bool> call(MState &st, int id) {
        const NodeDef &d = sh.nodes[static_cast<std::size_t>(id)];
        if (d.kind == CONST) return { d.par, false };
        NS &s = st[static_cast<std::size_t>(id)];
        Event e{ id, 0, {}, BAD, 0 };
        bool changed = !s.cached || d.kind == SRC;
        for (int k : d.kids) {
            auto [v, c] = call(st, k);
            e.args[e.n++] = v;
            changed = changed || c;
        }
        if (changed) {
            e.evals = d.stateful ? s.evals++ : 0;
            e.result = compute(d, id, e.args, e.n, src, e.evals);
            log.push_back(e);
            changed = !s.cached || !equal(d, s.value, e.result);
            if (s.cached && d.spy) cmps.push_back(id);
            s.cached = true;
            s.value = e.result;
        }
        if (changed) changed_mask |= 1ul << (id % 64);
        return { s.value, changed };
    }
    // everything evaluated afresh; throws what evaluating afresh throws
    tok_t fresh(int id) const {
        const NodeDef &d = sh.nodes[static_cast<std::size_t>(id)];
        if (d.kind == CONST) return d.par;
        tok_t args[14];
        int n = 0;
        for (int k : d.kids) args[n++] = fresh(k);
        return compute(d, id, args, n, src, 0);
    }
    void settle(MState &st, int id) const { // state after a successful call of stateless functions
        const NodeDef &d = sh.nodes[static_cast<std::size_t>(id)];
        if (d.kind == CONST) return;
        for (int k : d.kids) settle(st, k);
        st[static_cast<std::size_t>(id)].cached = true;
        st[static_cast<std::size_t>(id)].value = fresh(id);
    }
};

// ---------------------------------------------------------------- the driver

enum Mismatch {
    M_RET = 1,
    M_ARGS = 2,
    M_FN = 4,     // set of functions evaluated
    M_VOID = 8,   // set of void functions evaluated
    M_SRC = 16,   // set of plain dependencies evaluated
    M_ORDER = 32,
    M_CMP = 64,
    M_STATE = 128,
    M_EARLY = 256, // evaluated outside of a call
    M_THROW = 512, // threw, or did not
    M_TYPE = 1024,
};
inline const char *mismatch_name(int m) {
    static thread_local std::string s;
    s.clear();
    const char *n[] = { "returned value", "arguments", "functions evaluated", "void functions evaluated", "plain dependencies evaluated", "order of evaluation", "comparisons", "state of function objects", "evaluation outside of a call", "exception", "result type" };
    for (int i = 0; i < 11; ++i)
        if (m & (1 << i)) s += (s.empty() ? "" : ", ") + std::string(n[i]);
    return s.c_str();
}

struct Mode {
    int mask;           // mismatches that violate the property
    int copies = 0;     // percentage of steps that copy, move, assign, ...
    int faults = 0;     // percentage of calls with an injected fault
    bool copy_faults = false;
    int histories = 60;
    int steps = 40;
};

inline Mode mode_for(const std::string &p) {
    const int all = M_RET | M_ARGS | M_FN | M_VOID | M_SRC | M_ORDER | M_STATE | M_EARLY | M_THROW | M_TYPE;
    if (p == "C01") return { M_RET | M_ARGS | M_THROW | M_TYPE };
    if (p == "C02") return { M_FN | M_VOID | M_EARLY };
    if (p == "C03") return { M_FN | M_VOID };
    if (p == "C04") return { M_SRC | M_ORDER | M_ARGS | M_EARLY };
    if (p == "C05") return { M_CMP };
    if (p == "C06") return { all };
    if (p == "C07") return { 0, 30, 20, true };
    if (p == "C08") return { all, 35 };
    if (p == "C09") return { M_RET | M_THROW | M_ARGS, 5, 30, true };
    if (p == "C10") return { all, 25 };
    if (p == "C11") return { M_STATE | M_RET, 20 };
    return { all };
}

inline std::string show(const Shape &sh, const std::vector<Event> &log) {
    std::string s;
    for (auto &e : log) {
        s += " n" + std::to_string(e.node) + (sh.nodes[static_cast<std::size_t>(e.node)].kind == SRC ? "src" : "") + "(";
        for (int i = 0; i < e.n; ++i) s += (i ? "," : "") + std::to_string(e.args[i]);
        s += ")=" + std::to_string(e.result);
        if (e.evals) s += "#" + std::to_string(e.evals);
        if (s.size() > 400) return s + "...";
    }
    return s;
}

inline int compare(const Shape &sh, const std::vector<Event> &real, const std::vector<Event> &want) {
    int m = 0;
    std::map<int, std::vector<const Event *>> r, w;
    for (auto &e : real) r[e.node].push_back(&e);
    for (auto &e : want) w[e.node].push_back(&e);
    for (std::size_t id = 0; id < sh.nodes.size(); ++id) {
        auto &a = r[static_cast<int>(id)];
        auto &b = w[static_cast<int>(id)];
        const NodeDef &d = sh.nodes[id];
        if (a.size() != b.size()) m |= d.kind == SRC ? M_SRC : d.is_void ? M_VOID | M_FN : M_FN;
        for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
            if (a[i]->n != b[i]->n || !std::equal(a[i]->args, a[i]->args + a[i]->n, b[i]->args)) m |= M_ARGS;
            if (a[i]->evals != b[i]->evals) m |= M_STATE;
        }
    }
    if (!m && !std::equal(real.begin(), real.end(), want.begin(), want.end(), [](auto &x, auto &y) { return x.node == y.node; })) m |= M_ORDER;
    return m;
}

template<class L>
struct Slot {
    std::optional<L> f;
    MState st;
    bool fuzzy = false; // threw in its last call: which evaluations are still needed is open
};

template<class L>
tok_t invoke_token(L &f, bool as_rvalue) {
    using R = decltype(f());
    if constexpr (std::is_void_v<R>) {
        if (as_rvalue)
            std::move(f)();
        else
            f();
        return VOID_TOK;
    } else {
        if (as_rvalue) return dec(R(std::move(f)()));
        return dec(R(f()));
    }
}

// Result is the type the call must have
template<class Result, class Make>
void drive(const Shape &sh, Make make_lazy, std::uint64_t seed, const Mode &mode) {
    using L = decltype(make_lazy());
    mon::Rng rng{ mon::mix(seed, static_cast<std::uint64_t>(sh.id)) };
    Ctx c;
    c.shape = &sh;
    c.src.assign(static_cast<std::size_t>(std::max(1, sh.sources)), 0);
    ctx() = &c;
    auto &H = hooks();
    const std::string prop = mon::state().prop;
    bool stateful = false, can_throw = false;
    for (auto &d : sh.nodes) stateful = stateful || d.stateful, can_throw = can_throw || d.throws;

    std::unordered_set<std::uint64_t> cases;
    long n_evaluated = 0;
    std::string sample;
    auto evaluated = [&](std::uint64_t h, bool nontrivial) {
        ++n_evaluated;
        if (nontrivial) cases.insert(h);
    };
    long n_calls = 0, n_evals = 0, n_cutoff = 0, n_hits = 0, n_throws = 0, n_copies = 0, n_cmps = 0, n_foreign = 0, n_changes = 0;

    if constexpr (!std::is_same_v<decltype(std::declval<L &>()()), Result>)
        if (mode.mask & M_TYPE) mon::violation(mon::format("%s: the call does not have the type of the function's result", sh.text.c_str()));

    const long base_live = static_cast<long>(registry().live.size());
    for (int hist = 0; hist < mode.histories; ++hist) {
        std::string trace;
        std::vector<std::unique_ptr<Slot<L>>> slots;
        const std::size_t max_slots = mode.copies ? 4 : 1;
        slots.reserve(max_slots);
        for (auto &s : c.src) s = static_cast<int>(rng.below(6));
        c.log.clear();
        c.outside = 0;
        H.quiet = true;
        H.fault_in = -1;
        auto add = [&](auto &&from, const MState &st, bool fuzzy) {
            slots.push_back(std::make_unique<Slot<L>>());
            slots.back()->f.emplace(std::forward<decltype(from)>(from));
            slots.back()->st = st;
            slots.back()->fuzzy = fuzzy;
        };
        add(make_lazy(), MState(sh.nodes.size()), false);
        auto complain = [&](int m, const std::string &detail) {
            mon::violation(mon::format("tree %d %s: wrong %s; history %d:%s ; %s", sh.id, sh.text.c_str(), mismatch_name(m & mode.mask), hist, trace.size() > 300 ? trace.substr(trace.size() - 300).c_str() : trace.c_str(), detail.c_str()));
        };
        if (c.outside && (mode.mask & M_EARLY)) {
            complain(M_EARLY, "creating it evaluated" + show(sh, c.log));
            break;
        }
        const int width = rng.chance(30) ? 2 : rng.chance(50) ? 4 : 12;
        bool stop = false, synced = true;
        for (int step = 0; step < mode.steps && !stop; ++step) {
            // --- change sources
            if (rng.chance(65))
                for (std::size_t i = 0; i < c.src.size(); ++i)
                    if (rng.chance(c.src.size() > 3 ? 25 : 45)) {
                        const int v = static_cast<int>(rng.below(static_cast<std::uint64_t>(width)));
                        n_changes += v != c.src[i];
                        c.src[i] = v;
                        trace += mon::format(" s%zu:=%d", i, v);
                    }
            // --- copy, move, assign, destroy
            if (mode.copies && rng.chance(mode.copies)) {
                const std::size_t a = rng.below(slots.size());
                const bool grow = slots.size() < max_slots;
                const std::size_t b = rng.below(slots.size());
                ++n_copies;
                switch (rng.below(6)) {
                case 0: // copy
                    if (grow) {
                        add(*slots[a]->f, slots[a]->st, slots[a]->fuzzy);
                        trace += mon::format(" new%zu=copy%zu", slots.size() - 1, a);
                    }
                    break;
                case 1: // copy of a const original
                    if (grow) {
                        const L &k = *slots[a]->f;
                        add(k, slots[a]->st, slots[a]->fuzzy);
                        trace += mon::format(" new%zu=constcopy%zu", slots.size() - 1, a);
                    }
                    break;
                case 2: // move into a new one; the old one is destroyed
                    if (a != b) {
                        slots[a]->f.reset();
                        slots[a]->f.emplace(std::move(*slots[b]->f));
                        slots[a]->st = slots[b]->st;
                        slots[a]->fuzzy = slots[b]->fuzzy;
                        trace += mon::format(" move%zu<-%zu", a, b);
                        slots.erase(slots.begin() + static_cast<long>(b));
                    }
                    break;
                case 3: // assign
                    if constexpr (std::is_copy_assignable_v<L>) {
                        L &to = *slots[a]->f;
                        to = *slots[b]->f;
                        slots[a]->st = MState(slots[b]->st);
                        slots[a]->fuzzy = slots[b]->fuzzy;
                        trace += mon::format(" %zu:=%zu", a, b);
                    }
                    break;
                case 4: // swap
                    if constexpr (std::is_copy_assignable_v<L>) {
                        if (a != b) {
                            using std::swap;
                            swap(*slots[a]->f, *slots[b]->f);
                            std::swap(slots[a]->st, slots[b]->st);
                            std::swap(slots[a]->fuzzy, slots[b]->fuzzy);
                            trace += mon::format(" swap%zu,%zu", a, b);
                        }
                    }
                    break;
                case 5: // destroy
                    if (slots.size() > 1) {
                        slots.erase(slots.begin() + static_cast<long>(a));
                        trace += mon::format(" drop%zu", a);
                    }
                    break;
                }
            }
            // --- call
            const std::size_t a = rng.below(slots.size());
            // a call of an rvalue is made on a copy, of which nothing is expected afterwards
            const bool as_rvalue = rng.chance(10);
            Slot<L> tmp;
            if (as_rvalue) {
                tmp.f.emplace(*slots[a]->f);
                tmp.st = slots[a]->st;
                tmp.fuzzy = slots[a]->fuzzy;
            }
            Slot<L> &s = as_rvalue ? tmp : *slots[a];
            c.log.clear();
            H.cmps.clear();
            H.copies_throw = mode.copy_faults;
            H.fired = 0;
            if (mode.faults && rng.chance(mode.faults)) H.fault_in = static_cast<long>(rng.below(rng.chance(50) ? 4 : 3 * sh.nodes.size()));
            trace += mon::format(as_rvalue ? " rvaluecall%zu" : " call%zu", a);
            if (H.fault_in >= 0) trace += mon::format("!%ld", H.fault_in);

            tok_t got = BAD;
            int thrown = 0; // 1 fault, 2 pure, 3 something else
            PureThrow pt{ -1, -1 };
            Fault ft{ -1, -1 };
            c.in_call = true;
            H.quiet = false;
            try {
                got = as_rvalue ? invoke_token(*tmp.f, true) : invoke_token(*s.f, false);
            } catch (const Fault &f) {
                thrown = 1, ft = f;
            } catch (const PureThrow &p) {
                thrown = 2, pt = p;
            } catch (...) {
                thrown = 3;
            }
            H.quiet = true;
            H.fault_in = -1;
            c.in_call = false;
            ++n_calls;
            n_evals += static_cast<long>(c.log.size());
            n_cmps += static_cast<long>(H.cmps.size());
            trace += thrown ? mon::format("=>throw%d", thrown) : mon::format("=>%lld", got);

            if (H.fired) { // the injected fault must arrive, unchanged
                ++n_throws;
                if (thrown != 1 || ft.serial != H.serial) {
                    if (mode.mask & M_THROW) complain(M_THROW, "an exception thrown during the call did not reach the caller unchanged");
                    stop = true;
                }
                s.fuzzy = true;
                evaluated(mon::mix(mon::mix(static_cast<std::uint64_t>(sh.id), 77), c.log.size() * 8 + static_cast<std::uint64_t>(ft.where)), true);
                continue;
            }

            Model model{ sh, c.src, {}, {} };
            int m = 0;
            std::string detail;
            if (s.fuzzy || can_throw || !synced) { // only the outcome is determined
                int want_thrown = 0;
                tok_t want = BAD;
                PureThrow wp{ -1, -1 };
                try {
                    want = model.fresh(0);
                } catch (const PureThrow &p) {
                    want_thrown = 2, wp = p;
                }
                n_throws += want_thrown != 0;
                if (stateful) { // the outcome depends on how often it was evaluated: nothing to say
                    stop = true;
                    if (thrown == 3) m |= M_THROW;
                } else {
                    if (thrown != want_thrown || (thrown == 2 && (pt.node != wp.node || pt.key != wp.key))) m |= M_THROW;
                    else if (!thrown && got != want) m |= M_RET;
                    for (std::size_t i = 0; i < c.log.size(); ++i)
                        for (std::size_t j = i + 1; j < c.log.size(); ++j)
                            if (c.log[i].node == c.log[j].node) m |= M_FN; // evaluated twice in one call
                }
                detail = mon::format("evaluating afresh gives %s%lld, the call gave %s%lld; evaluated:%s", want_thrown ? "an exception of node " : "", want_thrown ? wp.node : want, thrown ? "an exception of node " : "", thrown ? pt.node : got, show(sh, c.log).c_str());
                evaluated(mon::mix(mon::mix(static_cast<std::uint64_t>(sh.id), c.log.size()), static_cast<std::uint64_t>(want_thrown ? -wp.node : want)), true);
                if (!m && !stop) {
                    if (thrown)
                        s.fuzzy = true;
                    else if (synced) {
                        model.settle(s.st, 0);
                        s.fuzzy = false;
                    }
                }
            } else {
                const MState before = s.st;
                auto [want, ch] = model.call(s.st, 0);
                if (thrown) m |= M_THROW;
                else if (got != want) m |= M_RET;
                if (!thrown) m |= compare(sh, c.log, model.log);
                if (!stateful) { // the model itself agrees with evaluating afresh
                    const tok_t f = model.fresh(0);
                    if (f != want) std::printf("MODEL-ERROR tree %d\n", sh.id), std::abort();
                }
                std::vector<int> cm;
                bool mixed = false;
                for (auto &[x, y] : H.cmps) {
                    cm.push_back(x);
                    mixed = mixed || x != y;
                }
                std::sort(cm.begin(), cm.end());
                std::sort(model.cmps.begin(), model.cmps.end());
                if (mixed || cm != model.cmps) m |= M_CMP;
                int fns = 0;
                for (auto &e : model.log) {
                    fns += sh.nodes[static_cast<std::size_t>(e.node)].kind == FN;
                }
                const bool hit = before[0].cached && !fns;
                n_hits += hit;
                bool cutoff = false; // something was evaluated again and its dependents were not
                for (auto &e : model.log)
                    if (e.node != 0 && before[static_cast<std::size_t>(e.node)].cached && !(model.changed_mask >> (e.node % 64) & 1)) cutoff = true;
                n_cutoff += cutoff;
                std::uint64_t h = mon::mix(static_cast<std::uint64_t>(sh.id), model.changed_mask * 2 + before[0].cached);
                for (auto &e : model.log) {
                    h = mon::mix(h, static_cast<std::uint64_t>(e.node));
                    h = mon::mix(h, static_cast<std::uint64_t>(e.result));
                }
                evaluated(h, before[0].cached && model.changed_mask != 0);
                detail = mon::format("want %lld, got %lld; evaluated:%s ; expected:%s", want, got, show(sh, c.log).c_str(), show(sh, model.log).c_str());
                if (m & M_CMP) detail += mon::format(" ; %zu comparisons, expected %zu", cm.size(), model.cmps.size());
                if (hist == 1 && step == 7) sample = (mon::format("tree %d %s:%s ; evaluated:%s", sh.id, sh.text.c_str(), trace.c_str(), show(sh, c.log).c_str()));
            }
            if (m & mode.mask) {
                complain(m, detail);
                stop = true;
            } else if (m) {
                ++n_foreign;
                if (stateful || mode.copies) stop = true;
                synced = false;
            }
        }
        slots.clear();
        for (auto f : at_end_of_history()) f();
        if (static_cast<long>(registry().live.size()) != base_live && prop == "C07") {
            mon::violation(mon::format("tree %d %s: %ld tracked objects still alive after the history; %s", sh.id, sh.text.c_str(), static_cast<long>(registry().live.size()) - base_live, trace.substr(0, 300).c_str()));
            break;
        }
        if (stop && mon::state().violations > 5) break;
    }
    if (!sample.empty()) mon::sample(sample);
    mon::merge(n_evaluated, cases);
    mon::stat("calls", n_calls);
    mon::stat("evaluation_events", n_evals);
    mon::stat("cutoffs", n_cutoff);
    mon::stat("cache_hits", n_hits);
    mon::stat("exceptions", n_throws);
    mon::stat("copy_move_assign_ops", n_copies);
    mon::stat("comparison_events", n_cmps);
    mon::stat("foreign_mismatches", n_foreign);
    mon::stat("source_changes", n_changes);
    mon::stat("tracked_objects", registry().constructed);
    registry().constructed = 0;
    mon::stat("trees", 1);
    ctx() = nullptr;
}

} // namespace lm
