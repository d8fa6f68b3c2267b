#pragma once
#include "parallel_for.h"
#include <iterator>
namespace tbb {
template<typename It, typename F> void parallel_for_each(It first, It last, const F& f)
{
    ::sim::parallel_run(
            static_cast<size_t>(std::distance(first, last)),
            [&](size_t b, size_t e) {
                It it = std::next(first, b);
                for (size_t i = b; i < e; ++i, ++it)
                    f(*it);
            },
            "tbb::parallel_for_each");
}
template<typename C, typename F> void parallel_for_each(C&& c, const F& f)
{
    parallel_for_each(std::begin(c), std::end(c), f);
}
} // namespace tbb
