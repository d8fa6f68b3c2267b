// Helpers shared by the scenarios.
#pragma once
#include "sim.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char* f, ...)
{
    char b[1200];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

// scheduler aggressiveness differs between runs: a small share without any preemption, most with some, a few with a lot
inline void swarm_schedule(sim::Rng& r)
{
    static const double p[] = {0.0, 0.002, 0.01, 0.03, 0.1, 0.3, 0.6};
    auto& k = sim::knobs();
    k.preempt_p = p[r.below(7)];
    k.stall_p = r.chance(0.5) ? 0.3 : 0;
    k.max_helpers = static_cast<int>(r.below(5));
    k.split_loops = r.chance(0.85);
    k.random_next = r.chance(0.85);
}
