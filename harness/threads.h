// Runs the same work in several threads at the same time.
#pragma once
#include "mon.h"

#include <atomic>
#include <thread>

namespace mon {

template<class Fn>
void in_threads(int n, Fn fn) {
    std::atomic<int> ready{ 0 };
    std::atomic<bool> go{ false };
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
            ready.fetch_add(1);
            while (!go.load()) std::this_thread::yield();
            fn(t);
            stat("threads");
        });
    while (ready.load() < n) std::this_thread::yield();
    go.store(true);
    for (auto &t : ts) t.join();
}

} // namespace mon
