#include "sim_internal.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace sim {

const char* const stream_names[S_COUNT] = {"preempt", "next", "par", "io", "env", "clock"};

Shared* shared = nullptr;
bool g_active = false;
bool g_multi = false;
uint64_t g_yields = 0, g_nextPreempt = ~0ull;
thread_local Thread* t_self = nullptr;
void (*hb_release)(const void*) = nullptr;
void (*hb_acquire)(const void*) = nullptr;
void (*hb_thread_start)(int, int) = nullptr;
void (*hb_thread_join)(int, int) = nullptr;
void (*hb_forget)(void*, size_t) = nullptr;

static std::vector<Thread*> g_threads;
static size_t g_live = 0;
static Knobs g_knobs;
static Rng g_rng[S_COUNT];
static Rng g_work;
static uint64_t g_streamIdx[S_COUNT];
static bool g_isExplicit = false;
// position of the first explicit decision of the stream with index >= idx
static const Decision* explicit_from(int s, uint64_t idx)
{
    const Decision* b = shared->req.in + shared->req.start[s];
    const Decision* e = b + shared->req.nIn[s];
    const Decision* it = std::lower_bound(b, e, idx, [](const Decision& d, uint64_t v) { return d.idx < v; });
    return it == e ? nullptr : it;
}
static uint64_t explicit_value(int s, uint64_t idx)
{
    const Decision* d = explicit_from(s, idx);
    return d && d->idx == idx ? d->value : 0;
}
static uint64_t g_hash = 0x1234, g_sched = 0x77;
static double g_clock = 0;
static std::string g_crashClass;
static std::function<void(int)> g_onExit;
static uint64_t g_switches = 0;
static bool g_ending = false;

double Rng::normal()
{
    double u = uniform(), v = uniform();
    if (u < 1e-300)
        u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}
Rng rng_for(uint64_t seed, uint64_t a, uint64_t b)
{
    uint64_t h = hash_mix(hash_mix(hash_mix(0xABCDEF, seed), a), b);
    return Rng(h);
}
uint64_t hash_bytes(uint64_t h, const void* p, size_t n)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
    {
        h ^= c[i];
        h *= 0x100000001b3ull;
    }
    return h ^ (h >> 29);
}

Knobs& knobs() { return g_knobs; }
uint64_t seed() { return shared->req.seed; }
Rng& work() { return g_work; }
bool op_enabled(uint64_t i) { return i >= sizeof(shared->req.dropped) || shared->req.dropped[i] == 0; }
bool active() { return g_active; }
bool in_sim_thread() { return g_active && t_self != nullptr; }
int tid() { return t_self ? t_self->id : -1; }
size_t live_threads() { return g_live; }
uint64_t switches() { return g_switches; }
double sim_clock() { return g_clock; }

static FILE* g_trace = nullptr; // debugging aid only: SIM_TRACE=path
static void trace(const char* what, uint64_t a, uint64_t b)
{
    if (g_trace)
    {
        fprintf(g_trace, "%d %s %lu %lu y=%lu\n", tid(), what, a, b, g_yields);
        fflush(g_trace);
    }
}
void trace_line(const std::string& l) { trace(l.c_str(), 0, 0); }

static void record(int s, uint64_t idx, uint64_t v)
{
    trace(stream_names[s], idx, v);
    if (v == 0)
        return;
    if (shared->nDecisions < sizeof(shared->decisions) / sizeof(shared->decisions[0]))
        shared->decisions[shared->nDecisions++] = {s, idx, v};
    else
        shared->decisionsOverflow = 1;
    mix(hash_mix(s * 1315423911u, hash_mix(idx, v)));
}

static bool g_quiet = false; // in the reference execution: nothing special happens, nothing is recorded
uint64_t choose(Stream s, uint64_t n, double p)
{
    if (g_quiet)
        return 0;
    const uint64_t idx = g_streamIdx[s]++;
    uint64_t v = 0;
    if (n > 1)
    {
        if (g_isExplicit)
            v = explicit_value(s, idx) % n;
        else if (p > 0 && g_rng[s].chance(p))
            v = g_rng[s].below(n);
    }
    record(s, idx, v);
    return v;
}

void mix(uint64_t v) { g_hash = hash_mix(g_hash, v); }
void mix_bytes(const void* p, size_t n) { g_hash = hash_bytes(g_hash, p, n); }

static StatSlot* slot(const char* name)
{
    for (uint32_t i = 0; i < shared->nStats; ++i)
        if (!strncmp(shared->stats[i].name, name, sizeof(shared->stats[i].name) - 1))
            return &shared->stats[i];
    if (shared->nStats >= sizeof(shared->stats) / sizeof(shared->stats[0]))
        return nullptr;
    StatSlot* s = &shared->stats[shared->nStats++];
    strncpy(s->name, name, sizeof(s->name) - 1);
    return s;
}
void count(const char* name, uint64_t n)
{
    if (!shared)
        return;
    if (StatSlot* s = slot(name))
        s->value += n;
}
void note_max(const char* name, uint64_t v)
{
    if (StatSlot* s = slot(name))
    {
        s->isMax = 1;
        s->value = std::max(s->value, v);
    }
}
void state(uint64_t h)
{
    for (uint32_t i = shared->nStates; i-- > 0 && i + 64 > shared->nStates;)
        if (shared->states[i] == h)
            return;
    if (shared->nStates < 2048)
        shared->states[shared->nStates++] = h;
}
void nontrivial() { shared->nontrivial = 1; }
void sample(const std::string& t) { snprintf(shared->sample, sizeof shared->sample, "%s", t.c_str()); }
std::string scratch_dir() { return "."; }

static void publish()
{
    shared->hash = g_hash;
    shared->schedHash = g_sched;
    shared->yields = g_yields;
    shared->switches = g_switches;
    shared->simTime = g_clock;
}

static bool is_known(const std::string& cls)
{
    for (uint32_t i = 0; i < shared->req.nKnown; ++i)
        if (cls == shared->req.known[i])
            return true;
    return false;
}

static bool out_of_scope(const std::string& cls)
{
    return shared->req.only[0] && cls.compare(0, strlen(shared->req.only), shared->req.only) != 0;
}
void fail_now(const std::string& cls, const std::string& msg)
{
    if (out_of_scope(cls))
    {
        count("out_of_scope");
        end_run();
    }
    if (!shared->failed)
    {
        shared->failed = 1;
        snprintf(shared->cls, sizeof shared->cls, "%s", cls.c_str());
        snprintf(shared->msg, sizeof shared->msg, "%s", msg.c_str());
    }
    mix(hash_bytes(1, cls.data(), cls.size()));
    publish();
    g_ending = true;
    _exit(0);
}
void end_run()
{
    shared->finished = 1;
    g_ending = true;
    publish();
    _exit(0);
}
void fail(const std::string& cls, const std::string& msg)
{
    if (out_of_scope(cls))
        return;
    if (is_known(cls))
    {
        for (uint32_t i = 0; i < shared->nKnown; ++i)
            if (cls == shared->known[i])
                return;
        if (shared->nKnown < 8)
            snprintf(shared->known[shared->nKnown++], 96, "%s", cls.c_str());
        return;
    }
    fail_now(cls, msg);
}

// ------------------------------------------------------------------------------------------------
// real functions
// ------------------------------------------------------------------------------------------------
template<class F> static F real_fn(F& cache, const char* name)
{
    if (!cache)
        cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return cache;
}
#define REAL(name) real_fn(real_##name, #name)
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_mutex_lock)(pthread_mutex_t*);
static int (*real_pthread_mutex_trylock)(pthread_mutex_t*);
static int (*real_pthread_mutex_unlock)(pthread_mutex_t*);
static int (*real_pthread_rwlock_rdlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_wrlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_tryrdlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_trywrlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_unlock)(pthread_rwlock_t*);
static int (*real_pthread_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_pthread_cond_signal)(pthread_cond_t*);
static int (*real_pthread_cond_broadcast)(pthread_cond_t*);
static int (*real_pthread_once)(pthread_once_t*, void (*)());
static int (*real___cxa_guard_acquire)(long long*);
static void (*real___cxa_guard_release)(long long*);
static void (*real___cxa_guard_abort)(long long*);
static int (*real_clock_gettime)(clockid_t, timespec*);
static int (*real_gettimeofday)(timeval*, void*);
static void (*real_exit)(int);
static FILE* (*real_fopen)(const char*, const char*);
static ssize_t (*real_write)(int, const void*, size_t);
static ssize_t (*real_writev)(int, const iovec*, int);
static int (*real_fclose)(FILE*);
static char* (*real_fgets)(char*, int, FILE*);
static size_t (*real_fwrite)(const void*, size_t, size_t, FILE*);
static int (*real_fputs)(const char*, FILE*);
static int (*real_fputc)(int, FILE*);

static long raw_futex(std::atomic<int>* a, int op, int v)
{
    long ret;
    register long r10 asm("r10") = 0;
    asm volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------------------------------------
// scheduler
// ------------------------------------------------------------------------------------------------
bool g_memoryYields = false;
double g_preemptScale = 1; // memory accesses are scheduling points too: far more of them
static void draw_next_preempt()
{
    // geometric skip; index in the stream is the yield counter itself
    if (g_isExplicit && !g_quiet)
    {
        const Decision* d = explicit_from(S_PREEMPT, g_yields + 1);
        g_nextPreempt = d ? d->idx : ~0ull;
        return;
    }
    if (g_knobs.preempt_p <= 0 || g_quiet)
    {
        g_nextPreempt = ~0ull;
        return;
    }
    double u = g_rng[S_PREEMPT].uniform();
    double k = std::floor(std::log(1 - u) / std::log1p(-std::min(g_knobs.preempt_p * g_preemptScale, 0.999)));
    g_nextPreempt = g_yields + 1 + static_cast<uint64_t>(std::min(k, 1e15));
}

// the thread that handed over the baton while it ended: it still gives its stack and cached memory back, which others must not overlap
static std::atomic<long> g_dyingTid {0};
static void await_dying()
{
    const long t = g_dyingTid.exchange(0);
    if (t == 0)
        return;
    while (syscall(SYS_tgkill, getpid(), t, 0) == 0)
        syscall(SYS_sched_yield);
}

static void switch_to(Thread* next, const char* site)
{
    Thread* self = t_self;
    if (next == self)
        return;
    ++g_switches;
    trace(site, static_cast<uint64_t>(next->id), 0);
    g_sched = hash_mix(g_sched, hash_mix(next->id, site ? hash_bytes(7, site, strlen(site)) : 0));
    next->go.store(1);
    raw_futex(&next->go, FUTEX_WAKE_PRIVATE, 1);
    if (self->st == Thread::FINISHED)
        return; // this thread goes on to die
    while (self->go.exchange(0) == 0)
        raw_futex(&self->go, FUTEX_WAIT_PRIVATE, 0);
    await_dying();
}

static Thread* pick(const std::vector<Thread*>& cands)
{
    if (cands.size() == 1)
        return cands[0];
    return cands[choose(S_NEXT, cands.size(), g_knobs.random_next ? 1.0 : 0.0)];
}

// A stalled thread is runnable but gets no processor until the others made some progress, or nobody else can run.
static std::vector<Thread*> runnable(bool exceptSelf)
{
    std::vector<Thread*> r, stalled;
    for (Thread* t: g_threads)
        if (t && t->st == Thread::RUNNABLE && !(exceptSelf && t == t_self))
            (t->stallUntil > g_yields ? stalled : r).push_back(t);
    return r.empty() ? stalled : r;
}

void slow_yield(const char* site)
{
    const uint64_t at = g_yields;
    if (g_live > 1)
    {
        auto cands = runnable(true);
        if (!cands.empty())
        {
            uint64_t v;
            if (g_isExplicit)
                v = explicit_value(S_PREEMPT, at);
            else
            {
                v = 1 + g_rng[S_PREEMPT].below(cands.size());
                if (g_knobs.stall_p > 0 && g_rng[S_PREEMPT].chance(g_knobs.stall_p))
                    v |= (1 + g_rng[S_PREEMPT].below(12)) << 8;
            }
            record(S_PREEMPT, at, v);
            draw_next_preempt();
            if (v)
            {
                count("sched.preemptions");
                if (v >> 8)
                {
                    count("fault.stalled_thread");
                    t_self->stallUntil = g_yields + ((g_memoryYields ? 16ull : 1ull) << (v >> 8));
                }
                const uint64_t c = v & 255;
                switch_to(cands[(c ? c - 1 : 0) % cands.size()], site);
            }
            return;
        }
    }
    draw_next_preempt();
}

void yield(const char* site) { yield_fast(site); }

static void must_switch(const char* site)
{
    auto cands = runnable(true);
    if (cands.empty())
        fail_now(g_crashClass.empty() ? "deadlock" : g_crashClass + ":deadlock",
                 std::string("every simulated thread is blocked, at ") + site);
    switch_to(pick(cands), site);
}

void block_on(const void* addr, const char* site)
{
    t_self->st = Thread::BLOCKED;
    t_self->waitAddr = addr;
    must_switch(site);
    // woken: our state was set runnable by wake()
}
void wake(const void* addr)
{
    for (Thread* t: g_threads)
        if (t && t->st == Thread::BLOCKED && t->waitAddr == addr)
        {
            t->st = Thread::RUNNABLE;
            t->waitAddr = nullptr;
        }
}
static bool wake_one(const void* addr)
{
    std::vector<Thread*> c;
    for (Thread* t: g_threads)
        if (t && t->st == Thread::BLOCKED && t->waitAddr == addr)
            c.push_back(t);
    if (c.empty())
        return false;
    Thread* t = pick(c);
    t->st = Thread::RUNNABLE;
    t->waitAddr = nullptr;
    return true;
}

// A simulated thread ends after the destructors of its thread local data ran: they lock mutexes too. Destructors of keys
// run in PTHREAD_DESTRUCTOR_ITERATIONS (4) rounds, ours leaves in the last one.
static pthread_key_t g_endKey;
static pthread_once_t g_endKeyOnce = PTHREAD_ONCE_INIT;
static void thread_ended(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    if (++t->endRounds < 4)
    {
        pthread_setspecific(g_endKey, t);
        return;
    }
    t->st = Thread::FINISHED;
    --g_live;
    g_multi = g_live > 1;
    if (hb_release)
        hb_release(t);
    wake(t);
    g_dyingTid = syscall(SYS_gettid);
    must_switch("thread_end");
    t_self = nullptr;
}
static void make_end_key() { pthread_key_create(&g_endKey, thread_ended); }

static void* trampoline(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    t_self = t;
    while (t->go.exchange(0) == 0)
        raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
    await_dying();
    pthread_setspecific(g_endKey, t);
    if (hb_forget)
    {
        // the stack (and the thread locals above it) may be one of an ended thread: those accesses say nothing
        char here;
        constexpr size_t below = (8u << 20) - (128u << 10), above = 32u << 10;
        hb_forget(&here - below, below + above);
    }
    return t->fn(t->arg);
}

static Thread* spawn_thread(const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    // ids of joined threads are reused so vector clocks stay small
    size_t id = 0;
    while (id < g_threads.size() && g_threads[id] != nullptr)
        ++id;
    if (id >= MAX_THREADS)
        return nullptr;
    Thread* t = new Thread;
    t->id = static_cast<int>(id);
    if (id == g_threads.size())
        g_threads.push_back(t);
    else
        g_threads[id] = t;
    t->fn = fn;
    t->arg = arg;
    ++g_live;
    g_multi = g_live > 1;
    if (hb_thread_start)
        hb_thread_start(t_self->id, t->id);
    if (REAL(pthread_create)(&t->handle, attr, trampoline, t))
        abort();
    count("sched.threads_created");
    return t;
}

// ------------------------------------------------------------------------------------------------
// simulated worker pool
// ------------------------------------------------------------------------------------------------
struct Job
{
    const std::function<void(size_t, size_t)>* body;
    std::vector<std::pair<size_t, size_t>> chunks; // remaining
    int wanted = 0;                                // helpers still allowed to join
    int running = 0;
    std::exception_ptr error;
};
static std::vector<Job*> g_jobs;
static std::vector<Thread*> g_helpers;
static bool g_stopHelpers = false;

static void work_on(Job* j)
{
    while (!j->chunks.empty() && !j->error)
    {
        const size_t k = choose(S_PAR, j->chunks.size(), g_knobs.split_loops ? 0.7 : 0.0);
        auto c = j->chunks[k];
        j->chunks.erase(j->chunks.begin() + static_cast<long>(k));
        yield("chunk");
        try
        {
            (*j->body)(c.first, c.second);
        }
        catch (...)
        {
            if (!j->error)
                j->error = std::current_exception();
        }
        yield("chunk_end");
    }
}

static void* helper_main(void*)
{
    for (;;)
    {
        Job* j = nullptr;
        for (Job* c: g_jobs)
            if (c->wanted > 0 && !c->chunks.empty())
            {
                j = c;
                break;
            }
        if (j)
        {
            --j->wanted;
            ++j->running;
            if (hb_acquire)
                hb_acquire(j);
            work_on(j);
            if (hb_release)
                hb_release(reinterpret_cast<char*>(j) + 1);
            if (--j->running == 0)
                wake(j);
            yield("helper_done");
            continue;
        }
        if (g_stopHelpers)
            return nullptr;
        block_on(&g_jobs, "helper_idle");
    }
}

void parallel_run(size_t n, const std::function<void(size_t, size_t)>& body, const char* site)
{
    if (n == 0)
        return;
    if (!in_sim_thread())
    {
        body(0, n);
        return;
    }
    count("sched.parallel_loops");
    Job job;
    job.body = &body;
    const uint64_t helpers =
            n > 1 ? choose(S_PAR, static_cast<uint64_t>(g_knobs.max_helpers) + 1, g_knobs.max_helpers > 0 ? 0.9 : 0.0) : 0;
    // chunk boundaries
    size_t parts = 1;
    if (helpers > 0)
    {
        // a quarter of the loops is handed out in single iterations
        const uint64_t k = choose(S_PAR, 16, 0.9);
        parts = std::min<size_t>(n, k >= 12 ? 128 : 2 + k);
    }
    else
        parts = std::min<size_t>(n, 1 + choose(S_PAR, 6, g_knobs.split_loops ? 0.5 : 0.0));
    for (size_t i = 0; i < parts; ++i)
    {
        const size_t b = n * i / parts, e = n * (i + 1) / parts;
        if (b < e)
            job.chunks.emplace_back(b, e);
    }
    job.wanted = static_cast<int>(helpers);
    if (helpers > 0)
        count("sched.parallel_loops_multi");
    g_jobs.push_back(&job);
    if (hb_release)
        hb_release(&job);
    size_t desired = 0;
    for (Job* j: g_jobs)
        desired += static_cast<size_t>(j->wanted + j->running);
    while (g_helpers.size() < std::min<size_t>(desired, 6))
        g_helpers.push_back(spawn_thread(nullptr, helper_main, nullptr));
    wake(&g_jobs);
    yield(site);
    work_on(&job);
    job.wanted = 0;
    g_jobs.erase(std::find(g_jobs.begin(), g_jobs.end(), &job));
    while (job.running > 0)
        block_on(&job, "parallel_join");
    if (hb_acquire)
        hb_acquire(reinterpret_cast<char*>(&job) + 1);
    if (job.error)
        std::rethrow_exception(job.error);
}

// ------------------------------------------------------------------------------------------------
void start()
{
    REAL(pthread_create);
    if (REAL(pthread_once)(&g_endKeyOnce, make_end_key))
        abort();
    Thread* t = new Thread;
    t->id = 0;
    t->handle = pthread_self();
    g_threads = {t};
    g_live = 1;
    t_self = t;
    draw_next_preempt();
    g_active = true;
}

void stop()
{
    g_stopHelpers = true;
    wake(&g_jobs);
    for (Thread* h: g_helpers)
        while (h->st != Thread::FINISHED)
            block_on(h, "stop");
    g_active = false;
    for (Thread* h: g_helpers)
        REAL(pthread_join)(h->handle, nullptr);
    g_helpers.clear();
}

std::string reference(const std::function<std::string()>& body)
{
    constexpr size_t cap = 1 << 16;
    char* m = static_cast<char*>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED)
        fail_now("harness", "no memory for the reference execution");
    const pid_t pid = fork();
    if (pid == 0)
    {
        g_quiet = true;
        const std::string r = body();
        const uint32_t n = static_cast<uint32_t>(std::min(r.size(), cap - 8));
        memcpy(m + 8, r.data(), n);
        memcpy(m + 4, &n, 4);
        memcpy(m, "done", 4);
        g_ending = true;
        _exit(0);
    }
    int st = 0;
    while (pid > 0 && waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (memcmp(m, "done", 4) != 0)
    {
        if (!shared->failed)
            fail_now("reference-died", "the execution without preemption ended with status " + std::to_string(st));
        publish();
        g_ending = true;
        _exit(0);
    }
    uint32_t n = 0;
    memcpy(&n, m + 4, 4);
    const std::string r(m + 8, n);
    munmap(m, cap);
    return r;
}

__attribute__((weak)) void races_enable(bool) {}
__attribute__((weak)) uint64_t memory_accesses() { return 0; }
void set_crash_class(const std::string& c) { g_crashClass = c; }
void allow_exit(std::function<void(int)> f) { g_onExit = std::move(f); }
void advance_clock(double s) { g_clock += s; }

// ------------------------------------------------------------------------------------------------
// I/O
// ------------------------------------------------------------------------------------------------
static IoPolicy g_io;
static std::string g_ioPrefix;
static std::set<int> g_ioFds;
static uint64_t g_ioCalls = 0;
static std::string g_ioWritten;
static int g_diskDead = 0; // errno every later write gets
static bool g_ioError = false;
static bool g_capture = false;
static std::vector<OutChunk> g_captured;

IoPolicy& io() { return g_io; }
bool io_error_injected() { return g_ioError; }
void io_track(const std::string& p) { g_ioPrefix = p; }
uint64_t io_calls() { return g_ioCalls; }
const std::string& io_written() { return g_ioWritten; }
void io_reset()
{
    g_ioFds.clear();
    g_ioWritten.clear();
    g_diskDead = 0;
    g_ioError = false;
    g_ioCalls = 0;
}
void capture_output(bool on) { g_capture = on; }
std::vector<OutChunk>& captured() { return g_captured; }

enum IoFault { F_NONE = 0, F_SHORT, F_EINTR, F_ENOSPC, F_EIO, F_CRASH, F_OPEN, F_EOF, F_CLOSE };

// one decision per tracked I/O call: 0 = no fault, else kind + 16 * parameter
static uint64_t io_choice(std::initializer_list<std::pair<IoFault, double>> kinds)
{
    const uint64_t idx = g_streamIdx[S_IO]++;
    uint64_t v = 0;
    if (g_isExplicit)
    {
        v = explicit_value(S_IO, idx);
        bool ok = false;
        for (auto& k: kinds)
            ok |= (v & 15) == static_cast<uint64_t>(k.first);
        if (!ok)
            v = 0;
    }
    else
    {
        double u = g_rng[S_IO].uniform();
        for (auto& k: kinds)
        {
            if (u < k.second)
            {
                v = static_cast<uint64_t>(k.first) + 16 * (g_rng[S_IO].next() & 0xffff);
                break;
            }
            u -= k.second;
        }
    }
    record(S_IO, idx, v);
    return v;
}

static ssize_t faulty_write(const char* data, size_t n, const std::function<ssize_t(size_t)>& doWrite)
{
    ++g_ioCalls;
    yield_fast("write");
    if (!g_io.enabled)
    {
        ssize_t r = doWrite(n);
        if (r > 0)
            g_ioWritten.append(data, static_cast<size_t>(r));
        return r;
    }
    if (g_diskDead && g_io.sticky_full)
    {
        count("fault.disk_still_failing");
        errno = g_diskDead;
        return -1;
    }
    const uint64_t v = io_choice({{F_SHORT, g_io.p_short},
                                  {F_EINTR, g_io.p_eintr},
                                  {F_ENOSPC, g_io.p_enospc},
                                  {F_EIO, g_io.p_eio},
                                  {F_CRASH, g_io.p_crash}});
    const size_t part = n ? (v >> 4) % n : 0;
    switch (v & 15)
    {
        case F_SHORT:
            {
                if (part == 0)
                    break;
                count("fault.short_write");
                ssize_t r = doWrite(part);
                if (r > 0)
                    g_ioWritten.append(data, static_cast<size_t>(r));
                return r;
            }
        case F_EINTR:
            count("fault.eintr");
            errno = EINTR;
            return -1;
        case F_ENOSPC:
            {
                count("fault.enospc");
                g_diskDead = ENOSPC;
                g_ioError = true;
                ssize_t r = part ? doWrite(part) : 0;
                if (r > 0)
                {
                    g_ioWritten.append(data, static_cast<size_t>(r));
                    return r; // torn: the rest is refused at the next call
                }
                errno = ENOSPC;
                return -1;
            }
        case F_EIO:
            count("fault.eio");
            g_ioError = true;
            g_diskDead = EIO;
            errno = EIO;
            return -1;
        case F_CRASH:
            {
                count("fault.crash");
                g_ioError = true;
                ssize_t r = part ? doWrite(part) : 0;
                if (r > 0)
                    g_ioWritten.append(data, static_cast<size_t>(r));
                if (g_io.on_crash)
                    g_io.on_crash();
                break;
            }
        default: break;
    }
    ssize_t r = doWrite(n);
    if (r > 0)
        g_ioWritten.append(data, static_cast<size_t>(r));
    return r;
}

static bool tracked_path(const char* p) { return g_active && !g_ioPrefix.empty() && p && strstr(p, g_ioPrefix.c_str()) == p; }

// ------------------------------------------------------------------------------------------------
// run
// ------------------------------------------------------------------------------------------------
static std::vector<Scenario>& registry()
{
    static std::vector<Scenario> r;
    return r;
}
void register_scenario(const std::string& n, std::function<void()> f) { registry().push_back({n, std::move(f)}); }

static void on_signal(int sig)
{
    if (!shared->failed)
    {
        shared->failed = 1;
        const char* n = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGXCPU ? "hang" : "signal";
        snprintf(shared->cls, sizeof shared->cls, "%s%s%s", g_crashClass.c_str(), g_crashClass.empty() ? "" : ":", n);
        if (!shared->msg[0])
            snprintf(shared->msg, sizeof shared->msg, "process died: %s", n);
        g_hash = hash_mix(g_hash, sig);
    }
    publish();
    _exit(0);
}

static void on_terminate()
{
    std::string what = "std::terminate called";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& ex)
        {
            what += std::string(" with exception: ") + ex.what();
        }
        catch (...)
        {
            what += " with an unknown exception";
        }
    }
    snprintf(shared->msg, sizeof shared->msg, "%s", what.c_str());
    abort();
}

void run_child()
{
    const Request& r = shared->req;
    g_isExplicit = r.explicitDecisions;
    for (int s = 0; s < S_COUNT; ++s)
    {
        g_rng[s] = rng_for(r.seed, 1000 + static_cast<uint64_t>(s));
        g_streamIdx[s] = 0;
    }
    g_work = rng_for(r.seed, 1);
    if (g_memoryYields)
    {
        const double u = rng_for(r.seed, 2000).uniform();
        g_preemptScale = u < 0.1 ? 0.2 : u < 0.7 ? 0.02 : 0.002;
    }
    if (const char* tp = getenv("SIM_TRACE"))
        g_trace = fopen(tp, "w");
    static char altstack[1 << 16];
    stack_t ss {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s: {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    for (auto& s: registry())
        if (s.name == r.scenario)
        {
            if (r.races)
                races_enable(true);
            s.run();
            shared->finished = 1;
            publish();
            _exit(0);
        }
    fail_now("no-such-scenario", r.scenario);
}

std::vector<std::string> scenario_names()
{
    std::vector<std::string> v;
    for (auto& s: registry())
        v.push_back(s.name);
    return v;
}

// mutex ownership is kept by the real mutex; contention is resolved by the scheduler
static int sim_lock(const void* addr, const std::function<int()>& tryLock, const char* site)
{
    yield_fast(site);
    for (;;)
    {
        int r = tryLock();
        if (r != EBUSY)
        {
            if (hb_acquire)
                hb_acquire(addr);
            return r;
        }
        count("sched.lock_contention");
        block_on(addr, site);
    }
}
static std::unordered_map<void*, int>* g_guards = nullptr; // no function static here: it would need a guard itself
static std::unordered_map<void*, int>& guards()
{
    if (!g_guards)
        g_guards = new std::unordered_map<void*, int>;
    return *g_guards;
}

} // namespace sim

using namespace sim;

extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!in_sim_thread())
        return REAL(pthread_create)(t, a, fn, arg);
    Thread* th = spawn_thread(a, fn, arg);
    if (!th)
        return EAGAIN;
    *t = th->handle;
    yield_fast("pthread_create");
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    if (!in_sim_thread())
        return REAL(pthread_join)(t, ret);
    for (size_t i = 0; i < g_threads.size(); ++i)
    {
        Thread* x = g_threads[i];
        if (x && x->id != 0 && pthread_equal(x->handle, t))
        {
            yield_fast("pthread_join");
            while (x->st != Thread::FINISHED)
                block_on(x, "pthread_join");
            if (hb_acquire)
                hb_acquire(x);
            if (hb_thread_join)
                hb_thread_join(t_self->id, x->id);
            int r = REAL(pthread_join)(t, ret);
            for (size_t k = 0; k < g_threads.size(); ++k)
                if (g_threads[k] == x)
                    g_threads[k] = nullptr;
            delete x;
            return r;
        }
    }
    return REAL(pthread_join)(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_mutex_lock)(m);
    return sim_lock(m, [m] { return REAL(pthread_mutex_trylock)(m); }, "mutex_lock");
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (in_sim_thread())
        yield_fast("mutex_trylock");
    int r = REAL(pthread_mutex_trylock)(m);
    if (r == 0 && in_sim_thread() && hb_acquire)
        hb_acquire(m);
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_mutex_unlock)(m);
    if (hb_release)
        hb_release(m);
    int r = REAL(pthread_mutex_unlock)(m);
    wake(m);
    yield_fast("mutex_unlock");
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_rwlock_rdlock)(m);
    return sim_lock(m, [m] { return REAL(pthread_rwlock_tryrdlock)(m); }, "rdlock");
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_rwlock_wrlock)(m);
    return sim_lock(m, [m] { return REAL(pthread_rwlock_trywrlock)(m); }, "wrlock");
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_rwlock_unlock)(m);
    if (hb_release)
        hb_release(m);
    int r = REAL(pthread_rwlock_unlock)(m);
    wake(m);
    yield_fast("rw_unlock");
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!in_sim_thread())
        return REAL(pthread_cond_wait)(c, m);
    if (hb_release)
        hb_release(m);
    REAL(pthread_mutex_unlock)(m);
    wake(m);
    block_on(c, "cond_wait");
    return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!in_sim_thread())
        return REAL(pthread_cond_signal)(c);
    wake_one(c);
    yield_fast("cond_signal");
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!in_sim_thread())
        return REAL(pthread_cond_broadcast)(c);
    wake(c);
    yield_fast("cond_broadcast");
    return 0;
}
int sched_yield()
{
    if (in_sim_thread())
    {
        auto c = runnable(true);
        if (!c.empty())
            switch_to(pick(c), "sched_yield");
    }
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!in_sim_thread())
        return REAL(pthread_once)(o, fn);
    auto* g = reinterpret_cast<long long*>(o);
    yield_fast("once");
    for (;;)
    {
        if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) // the value the C library leaves when it is done
        {
            if (hb_acquire)
                hb_acquire(g);
            return 0;
        }
        if (guards().find(g) == guards().end())
            break;
        count("sched.static_init_contention");
        block_on(g, "once");
    }
    guards()[g] = t_self->id;
    try
    {
        fn();
    }
    catch (...)
    {
        guards().erase(g);
        wake(g);
        throw;
    }
    guards().erase(g);
    if (hb_release)
        hb_release(g);
    __atomic_store_n(o, 2, __ATOMIC_RELEASE);
    wake(g);
    return 0;
}

int __cxa_guard_acquire(long long* g)
{
    if (!in_sim_thread())
        return REAL(__cxa_guard_acquire)(g);
    for (;;)
    {
        if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE))
        {
            if (hb_acquire)
                hb_acquire(g);
            return 0;
        }
        auto it = guards().find(g);
        if (it == guards().end())
        {
            guards()[g] = t_self->id;
            return 1;
        }
        count("sched.static_init_contention");
        block_on(g, "static_init");
    }
}
void __cxa_guard_release(long long* g)
{
    if (in_sim_thread() && guards().erase(g))
    {
        if (hb_release)
            hb_release(g);
        __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
        wake(g);
        return;
    }
    REAL(__cxa_guard_release)(g);
}
void __cxa_guard_abort(long long* g)
{
    if (in_sim_thread() && guards().erase(g))
    {
        wake(g);
        return;
    }
    REAL(__cxa_guard_abort)(g);
}

// ---- clock ----
static double tick(double base)
{
    // each reading advances the simulated clock; the scheduler may stall or jump it
    const uint64_t v = choose(S_CLOCK, 4, 0.05);
    double d = base;
    if (v == 1)
        d = 0; // frozen
    else if (v == 2)
    {
        d = 5.0; // stall of the process
        count("fault.clock_stall");
    }
    else if (v == 3)
    {
        d = 0.25;
        count("fault.clock_jump");
    }
    g_clock += d;
    return g_clock;
}
int clock_gettime(clockid_t id, timespec* ts)
{
    if (!in_sim_thread())
        return REAL(clock_gettime)(id, ts);
    const double t = tick(1e-5) + (id == CLOCK_REALTIME ? static_cast<double>(shared->req.time0) : 1000.0);
    ts->tv_sec = static_cast<time_t>(t);
    ts->tv_nsec = static_cast<long>((t - std::floor(t)) * 1e9);
    return 0;
}
int gettimeofday(timeval* tv, void* tz)
{
    if (!in_sim_thread())
        return REAL(gettimeofday)(tv, tz);
    const double t = tick(1e-5) + static_cast<double>(shared->req.time0);
    tv->tv_sec = static_cast<time_t>(t);
    tv->tv_usec = static_cast<long>((t - std::floor(t)) * 1e6);
    return 0;
}
time_t time(time_t* out)
{
    // also used by static initialisers (random seed): the value comes from the replay file through the environment
    static long t0 = 0;
    if (!t0)
    {
        const char* e = getenv("SIM_TIME0");
        t0 = e ? atol(e) : 1700000000L;
    }
    time_t t = t0 + static_cast<long>(g_clock);
    if (out)
        *out = t;
    return t;
}

// ---- process end ----
void exit(int code)
{
    if (g_active && !g_ending)
    {
        if (g_onExit)
        {
            auto f = g_onExit;
            f(code);
            fail_now("exit", "exit handler returned");
        }
        fail_now((g_crashClass.empty() ? std::string() : g_crashClass + ":") + "exit",
                 "the code under test called exit(" + std::to_string(code) + ")");
    }
    REAL(exit)(code);
    __builtin_unreachable();
}
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    if (shared)
    {
        const char* b = strrchr(file, '/');
        snprintf(shared->msg, sizeof shared->msg, "assertion failed: %s (%s:%u, %s)", expr, b ? b + 1 : file, line, fn);
    }
    else
        fprintf(stderr, "assertion failed: %s (%s:%u)\n", expr, file, line);
    abort();
}

// ---- files ----
FILE* fopen(const char* path, const char* mode)
{
    if (!in_sim_thread() || !tracked_path(path))
        return REAL(fopen)(path, mode);
    ++g_ioCalls;
    yield_fast("fopen");
    if (g_io.enabled && g_io.p_open_fail > 0 && (io_choice({{F_OPEN, g_io.p_open_fail}}) & 15) == F_OPEN)
    {
        count("fault.open_fail");
        g_ioError = true;
        errno = EACCES;
        return nullptr;
    }
    FILE* f = REAL(fopen)(path, mode);
    if (f)
        g_ioFds.insert(fileno(f));
    return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fclose(FILE* f)
{
    if (in_sim_thread() && g_ioFds.count(fileno(f)))
    {
        g_ioFds.erase(fileno(f));
        ++g_ioCalls;
        if (g_io.enabled && g_io.p_close_fail > 0 && (io_choice({{F_CLOSE, g_io.p_close_fail}}) & 15) == F_CLOSE)
        {
            count("fault.close_fail");
            g_ioError = true;
            REAL(fclose)(f);
            errno = EIO;
            return EOF;
        }
    }
    return REAL(fclose)(f);
}
char* fgets(char* s, int n, FILE* f)
{
    if (in_sim_thread() && g_ioFds.count(fileno(f)))
    {
        ++g_ioCalls;
        if (g_io.enabled && g_io.p_read_eof > 0 && (io_choice({{F_EOF, g_io.p_read_eof}}) & 15) == F_EOF)
        {
            count("fault.read_eio");
            g_ioError = true;
            errno = EIO;
            return nullptr;
        }
    }
    return REAL(fgets)(s, n, f);
}
static bool capture_fd(int fd, const void* p, size_t n)
{
    if (g_active && g_capture && (fd == 1 || fd == 2))
    {
        g_captured.push_back({fd, tid(), std::string(static_cast<const char*>(p), n)});
        return true;
    }
    return false;
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (in_sim_thread())
    {
        if (capture_fd(fd, p, n))
        {
            yield_fast("console");
            return static_cast<ssize_t>(n);
        }
        if (g_ioFds.count(fd))
            return faulty_write(static_cast<const char*>(p), n, [&](size_t k) { return REAL(write)(fd, p, k); });
    }
    return REAL(write)(fd, p, n);
}
ssize_t writev(int fd, const iovec* v, int c)
{
    if (in_sim_thread() && (g_ioFds.count(fd) || (g_capture && (fd == 1 || fd == 2))))
    {
        std::string all;
        for (int i = 0; i < c; ++i)
            all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        return ::write(fd, all.data(), all.size());
    }
    return REAL(writev)(fd, v, c);
}
// console output goes through stdio (libstdc++ sync_with_stdio): one visible piece per call
size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
{
    if (in_sim_thread() && (f == stdout || f == stderr) && capture_fd(f == stdout ? 1 : 2, p, s * n))
    {
        yield_fast("console");
        return n;
    }
    return REAL(fwrite)(p, s, n, f);
}
int fputs(const char* s, FILE* f)
{
    if (in_sim_thread() && (f == stdout || f == stderr) && capture_fd(f == stdout ? 1 : 2, s, strlen(s)))
    {
        yield_fast("console");
        return 1;
    }
    return REAL(fputs)(s, f);
}
int fputc(int ch, FILE* f)
{
    char c = static_cast<char>(ch);
    if (in_sim_thread() && (f == stdout || f == stderr) && capture_fd(f == stdout ? 1 : 2, &c, 1))
    {
        yield_fast("console");
        return ch;
    }
    return REAL(fputc)(ch, f);
}
int putc(int ch, FILE* f) { return fputc(ch, f); }

// ---- futex waits of libstdc++ (std::future without a thread to join, std::atomic::wait) ----
long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x: a)
        x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && in_sim_thread())
    {
        int op = static_cast<int>(a[1]) & 127;
        int* addr = reinterpret_cast<int*>(a[0]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            yield_fast("futex_wait");
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == static_cast<int>(a[2]))
                block_on(addr, "futex_wait");
            if (hb_acquire)
                hb_acquire(addr);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            if (hb_release)
                hb_release(addr);
            wake(addr);
            yield_fast("futex_wake");
            return 0;
        }
    }
    long ret;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall"
                 : "=a"(ret)
                 : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096)
    {
        errno = static_cast<int>(-ret);
        return -1;
    }
    return ret;
}

} // extern "C"
