// Simulator seam: replaces <tbb/parallel_for.h> for the code under test. Work is split and executed by simulated
// worker threads, in an order decided by the seeded scheduler (sim::parallel_run).
#pragma once
#include <cstddef>
#include <functional>
#include <tbb/blocked_range.h>
#include <tbb/partitioner.h>

namespace sim {
void parallel_run(size_t n, const std::function<void(size_t, size_t)>& body, const char* site);
}

namespace tbb {
template<typename Index, typename Function> void parallel_for(Index first, Index last, Index step, const Function& f)
{
    if (not(first < last))
        return;
    const size_t n = (static_cast<size_t>(last - first) + static_cast<size_t>(step) - 1) / static_cast<size_t>(step);
    ::sim::parallel_run(
            n,
            [&](size_t b, size_t e) {
                for (size_t i = b; i < e; ++i)
                    f(static_cast<Index>(first + static_cast<Index>(i) * step));
            },
            "tbb::parallel_for");
}
template<typename Index, typename Function> void parallel_for(Index first, Index last, const Function& f)
{
    if (not(first < last))
        return;
    ::sim::parallel_run(
            static_cast<size_t>(last - first),
            [&](size_t b, size_t e) {
                for (size_t i = b; i < e; ++i)
                    f(static_cast<Index>(first + static_cast<Index>(i)));
            },
            "tbb::parallel_for");
}
template<typename V, typename Body> void parallel_for(const blocked_range<V>& r, const Body& body)
{
    if (r.empty())
        return;
    ::sim::parallel_run(
            static_cast<size_t>(r.end() - r.begin()),
            [&](size_t b, size_t e) {
                body(blocked_range<V>(static_cast<V>(r.begin() + b), static_cast<V>(r.begin() + e)));
            },
            "tbb::parallel_for");
}
template<typename V, typename Body, typename P> void parallel_for(const blocked_range<V>& r, const Body& body, P&&)
{
    parallel_for(r, body);
}
} // namespace tbb
