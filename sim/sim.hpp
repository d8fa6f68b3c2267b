// Deterministic simulator core: one baton, one PRNG, explicit decision streams.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace sim {

// Independent decision streams. Every choice of the simulator is (stream, index in stream) -> value, 0 = "nothing
// special happens". A run is a pure function of (scenario, seed, dropped operations, decisions).
enum Stream { S_PREEMPT = 0, S_NEXT, S_PAR, S_IO, S_ENV, S_CLOCK, S_COUNT };
extern const char* const stream_names[S_COUNT];

struct Decision
{
    int stream;
    uint64_t idx;
    uint64_t value;
};

struct Replay
{
    std::string scenario;
    uint64_t seed = 1;
    long time0 = 1700000000;
    bool explicit_decisions = false; // decisions come from the list below, never from the PRNG
    std::vector<Decision> decisions; // non-zero ones only
    std::set<uint64_t> dropped_ops;
    std::string cls; // expected violation class
    uint64_t hash = 0;
};

// ---- PRNG ----
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double range(double a, double b) { return a + (b - a) * uniform(); }
    bool chance(double p) { return uniform() < p; }
    double normal();
};
Rng rng_for(uint64_t seed, uint64_t a, uint64_t b = 0);

// ---- API for scenarios (child side) ----
struct Knobs // per-run swarm knobs of the scheduler
{
    double preempt_p = 0; // probability of a preemption at a yield point
    double stall_p = 0;   // probability that a preempted thread is stalled for a while
    int max_helpers = 3;  // helper threads joining a parallel loop
    bool split_loops = true;
    bool random_next = true; // who runs after a block: random or lowest id
    double io_p = 0;         // base probability for an I/O fault at an I/O call
};
Knobs& knobs();

uint64_t seed();
Rng& work();                 // workload PRNG (derived from the seed only)
bool op_enabled(uint64_t i); // false if the minimiser dropped operation i
// draws a value in [0,n): 0 with probability 1-p. Recorded when not zero.
uint64_t choose(Stream s, uint64_t n, double p);

[[noreturn]] void fail_now(const std::string& cls, const std::string& msg);
void fail(const std::string& cls, const std::string& msg); // returns only if the class is a listed known finding
[[noreturn]] void end_run(); // the run ends here without a violation (after a simulated crash)
void count(const char* name, uint64_t n = 1);
void note_max(const char* name, uint64_t v);
void state(uint64_t h);   // a distinct state reached
void mix(uint64_t v);     // fold into the event hash of the run
void mix_bytes(const void* p, size_t n);
void nontrivial();        // mark this run as non trivial
void sample(const std::string& text); // text of this run for the evidence samples
void trace_line(const std::string& l); // debugging aid
void advance_clock(double seconds);
double sim_clock();

// runs body in a process of its own, forked from this one before start(), with no preemption, no fault and nothing recorded
std::string reference(const std::function<std::string()>& body);

void start();       // begin simulating (calling thread = thread 0)
void stop();        // end; joins helper threads
bool active();
bool in_sim_thread();
int tid();
size_t live_threads();
void yield(const char* site);
void block_on(const void* addr, const char* site); // waits until wake(addr)
void wake(const void* addr);

// runs body(begin,end) over [0,n) with simulated workers
void parallel_run(size_t n, const std::function<void(size_t, size_t)>& body, const char* site);

// expected process endings: when set, exit()/terminate are reported with this class instead
void set_crash_class(const std::string& cls);
void allow_exit(std::function<void(int)> onExit); // exit() handler instead of a violation
uint64_t switches();

// race detection (instrumented build only)
void races_enable(bool on);
extern "C" {
void sim_hb_release(const void* a);
void sim_hb_acquire(const void* a);
}

// ---- I/O seam ----
struct IoPolicy
{
    bool enabled = false;
    // fault kinds enabled (probabilities per call)
    double p_short = 0, p_eintr = 0, p_enospc = 0, p_eio = 0, p_crash = 0, p_open_fail = 0, p_read_eof = 0,
           p_close_fail = 0;
    bool sticky_full = true; // once the disk is full it stays full
    std::function<void()> on_crash; // called at a crash point (must not return)
};
IoPolicy& io();
bool io_error_injected();
void io_track(const std::string& pathPrefix); // only files below this prefix see faults
uint64_t io_calls();
// data passed to write() on the tracked files that the simulated disk accepted
const std::string& io_written();
void io_reset();
// output capture of fd 1 / fd 2
void capture_output(bool on);
struct OutChunk
{
    int fd;
    int tid;
    std::string data;
};
std::vector<OutChunk>& captured();

// ---- scenario registry ----
struct Scenario
{
    std::string name;
    std::function<void()> run;
};
void register_scenario(const std::string& name, std::function<void()> f);
struct Reg
{
    Reg(const char* n, std::function<void()> f) { register_scenario(n, std::move(f)); }
};
#define SCENARIO(name) \
    static void scn_##name(); \
    static ::sim::Reg reg_##name(#name, scn_##name); \
    static void scn_##name()

std::string scratch_dir(); // private scratch directory of this run (created, removed by the driver)

inline uint64_t hash_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
uint64_t hash_bytes(uint64_t h, const void* p, size_t n);
inline uint64_t hash_double(uint64_t h, double d)
{
    return hash_bytes(h, &d, sizeof d);
}
template<class M> uint64_t hash_matrix(uint64_t h, const M& m)
{
    for (long c = 0; c < m.cols(); ++c)
        for (long r = 0; r < m.rows(); ++r)
            h = hash_double(h, double(m(r, c)));
    return h;
}

} // namespace sim
