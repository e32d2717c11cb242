// Runs several threads from a common start and hands on the first failure.
#pragma once
#include "pbt.h"
#include <atomic>
#include <exception>
#include <mutex>
#include <thread>

namespace threads {
// Lets another thread run, now and then; no synchronization as far as the sanitizer is concerned.
inline void pause(unsigned n) {
    if (n >= 60) std::this_thread::yield();
    else for (volatile unsigned i = 0; i < n; i = i + 1) {}
}
template <class F> void run(unsigned n, F&& body) {
    std::atomic<unsigned> ready{0};
    std::vector<std::string> errors(n);
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < n; ++i) ts.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        for (unsigned spin = 0; ready.load(std::memory_order_relaxed) < n; ++spin) if (spin > 100) std::this_thread::yield();
        try { body(i); }
        catch (const pbt::Failure& f) { errors[i] = f.msg; }
        catch (const std::exception& e) { errors[i] = std::string("unexpected exception in a thread: ") + e.what(); }
    });
    for (auto& t : ts) t.join();
    for (unsigned i = 0; i < n; ++i) if (!errors[i].empty()) pbt::fail("thread " + std::to_string(i) + ": " + errors[i]);
}
} // namespace threads
