// Drives objects through histories whose steps are made by different translation units (see units.h).
#pragma once
#include "mon.h"
#include "units.h"

namespace units {

long cells[64];
long live;

struct Model {
    int kind, slot;
    long base, calls = 0, last = 0;
    bool valid = false;
    void *object;
};

inline void run(mon::Rng &rng, const std::vector<Table> &tables) {
    const Table &t0 = tables[0];
    for (std::size_t u = 0; u < tables.size(); ++u)
        for (int k = 0; k < t0.n; ++k) {
            const Ops &a = t0.first[k], &b = tables[u].first[k];
            CHECK(*a.type == *b.type && std::string{ a.type->name() } == b.type->name(), "%s: unit %zu has another type (%.80s)", a.kind, u, b.type->name());
            CHECK(a.size == b.size, "%s: size %lu in unit 0, %lu in unit %zu", a.kind, a.size, b.size, u);
            mon::stat("types_compared");
        }
    for (int round = 0; round < 60 * mon::state().scale; ++round) {
        std::vector<Model> objects;
        auto unit = [&] { return static_cast<std::size_t>(rng.below(tables.size())); };
        std::size_t made_by = 0;
        for (int step = 0; step < 120; ++step) {
            const int what = static_cast<int>(rng.below(12));
            const std::size_t u = unit();
            const Ops *o = tables[u].first;
            if (objects.empty() || (what == 0 && objects.size() < 8)) {
                Model m{ static_cast<int>(rng.below(static_cast<unsigned>(t0.n))), static_cast<int>(rng.below(64)), static_cast<long>(rng.below(900)), 0, 0, false, nullptr };
                m.object = o[m.kind].make(m.base, m.slot);
                objects.push_back(m);
                made_by = u;
                continue;
            }
            const std::size_t i = rng.below(objects.size());
            Model &m = objects[i];
            const char *kind = o[m.kind].kind;
            if (what == 1 && objects.size() < 8) {
                Model c = m;
                c.object = o[m.kind].copy(m.object);
                objects.push_back(c);
                mon::stat("copies");
            } else if (what == 2) {
                void *p = o[m.kind].move(m.object);
                tables[unit()].first[m.kind].destroy(m.object);
                m.object = p;
                mon::stat("moves");
            } else if (what == 3) {
                for (Model &other : objects)
                    if (&other != &m && other.kind == m.kind && o[m.kind].assign(m.object, other.object)) {
                        void *keep = m.object;
                        m = other;
                        m.object = keep;
                        mon::stat("assignments");
                        break;
                    }
            } else if (what == 4) {
                o[m.kind].destroy(m.object);
                objects.erase(objects.begin() + static_cast<long>(i));
                mon::stat("destructions");
            } else {
                const long x = static_cast<long>(rng.below(what < 8 ? 3 : 100));
                const bool fresh = !o[m.kind].cached || !m.valid || m.last != x;
                if (fresh) ++m.calls;
                m.valid = true;
                m.last = x;
                const bool is_void = std::strcmp(kind, "lazy void") == 0;
                const long expected = is_void ? -1 : m.base * 1000000 + x * 10000 + 700 + m.calls;
                const long result = o[m.kind].call(m.object, x, m.slot);
                CHECK(result == expected, "%s: called in unit %zu with %ld: result %ld instead of %ld", kind, u, x, result, expected);
                mon::stat("calls");
                mon::evaluated(mon::mix(mon::mix(mon::mix(u, made_by), static_cast<std::uint64_t>(m.kind)), static_cast<std::uint64_t>(expected)), tables.size() > 1);
                if (step == 100) mon::sample(mon::format("%s called in unit %zu: %ld", kind, u, result));
                if (result != expected) return;
            }
        }
        for (Model &m : objects) tables[unit()].first[m.kind].destroy(m.object);
        if (!CHECK(live == 0, "%ld objects live after everything was destroyed", live)) return;
    }
}

} // namespace units
