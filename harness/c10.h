// Function objects used by several threads at the same time, each its own.
#pragma once
#define BIND_FACTS
#include "c13.h"
#include "c14.h"
#include "c15.h"
#include "c17.h"
#include "c18.h"
#include "c19.h"
#include "c21.h"
#include "c23.h"
#include "c24.h"
#include "threads.h"

namespace bm {

constexpr int THREADS = 6;

// the same cases in all threads at the same time, each on its own objects
template<class Fn>
void everywhere(Fn fn) {
    mon::in_threads(THREADS, [&](int t) {
        (void) t;
        for (int i = 0; i < 3; ++i) fn();
    });
}

inline void own_objects() {
    everywhere([] {
        uncapture_facts();
        bind_facts();
        back_facts();
        pack_facts();
        overload_facts();
        algorithm_facts();
        mon::Rng rng{ mon::mix(mon::state().seed, 10) };
        recursion_facts(rng);
        optional_histories(rng);
    });
}

} // namespace bm
