#pragma once
#include "sim.hpp"
#include <atomic>
#include <pthread.h>

namespace sim {

constexpr int MAX_THREADS = 32;

struct StatSlot
{
    char name[56];
    uint64_t value;
    uint8_t isMax;
};

// What a run consists of. Lives in the shared block: nothing of it is on the heap of the run, so that a run drawn from
// the PRNG and its explicit replay see the very same heap addresses.
struct Request
{
    char scenario[64];
    uint64_t seed;
    long time0;
    int32_t verbose;
    int32_t cpu;
    int32_t races;
    uint32_t explicitDecisions;
    uint32_t nIn[8];    // per stream
    uint32_t start[8];  // first index in `in`
    Decision in[200000]; // sorted by stream, then index
    uint8_t dropped[1 << 16];
    char scratch[512];
    uint32_t nKnown;
    char known[16][96];
    char only[32]; // only violations whose class starts with this count (empty: all)
};
// Result block, shared between the run (child) and the driver (parent): survives any kind of death of the child.
struct Shared
{
    Request req;
    uint32_t finished; // scenario returned normally
    uint32_t failed;
    char cls[96];
    char msg[1536];
    uint64_t hash;
    uint64_t schedHash;
    uint64_t yields;
    uint64_t switches;
    double simTime;
    uint32_t nontrivial;
    char sample[768];
    uint32_t nStats;
    StatSlot stats[160];
    uint32_t nStates;
    uint64_t states[2048];
    uint32_t nDecisions;
    uint32_t decisionsOverflow;
    Decision decisions[200000];
    uint32_t nKnown; // known findings hit in this run
    char known[8][96];
};
extern Shared* shared;

struct Thread
{
    int id = 0;
    std::atomic<int> go {0};
    enum St { RUNNABLE, BLOCKED, FINISHED } st = RUNNABLE;
    const void* waitAddr = nullptr;
    pthread_t handle {};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    bool helper = false;
    int endRounds = 0;
    uint64_t stallUntil = 0;
};

extern bool g_active;
extern bool g_memoryYields; // set by the runtime of the instrumented build
extern bool g_multi; // more than one live simulated thread (fast path flag for instrumented accesses)
extern uint64_t g_yields, g_nextPreempt;
extern thread_local Thread* t_self;
void slow_yield(const char* site);
void run_child(); // runs the scenario in the current process, never returns

// race detector hooks (no-ops in the plain build)
extern void (*hb_release)(const void*);
extern void (*hb_acquire)(const void*);
extern void (*hb_thread_start)(int parent, int child);
extern void (*hb_thread_join)(int joiner, int child);
extern void (*hb_forget)(void* p, size_t n); // this memory begins a new life

inline void yield_fast(const char* site)
{
    if (__builtin_expect(g_active && t_self != nullptr, 0))
    {
        if (__builtin_expect(++g_yields >= g_nextPreempt, 0))
            slow_yield(site);
    }
}

} // namespace sim
