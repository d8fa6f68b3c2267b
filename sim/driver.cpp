// Driver: forks one process per simulated run, collects the shared result block, minimises violations, replays files.
#include "sim_internal.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <opencv2/core.hpp>
#include <opencv2/core/parallel/parallel_backend.hpp>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <filesystem>
#include <fcntl.h>
#include <malloc.h>

namespace sim {
std::vector<std::string> scenario_names();

class SimBackend : public cv::parallel::ParallelForAPI
{
  public:
    void parallel_for(int tasks, FN_parallel_for_body_cb_t cb, void* data) override
    {
        parallel_run(
                static_cast<size_t>(tasks),
                [&](size_t b, size_t e) { cb(static_cast<int>(b), static_cast<int>(e), data); },
                "cv::parallel_for");
    }
    int getThreadNum() const override { return 0; }
    int getNumThreads() const override { return _n; }
    int setNumThreads(int n) override
    {
        int o = _n;
        _n = n > 0 ? n : 4;
        return o;
    }
    const char* getName() const override { return "sim"; }
    int _n = 4;
};
} // namespace sim
using namespace sim;

static int g_cpuLimit = 40;
static bool g_verbose = false;
static bool g_races = false; // report data races (instrumented build)
static std::string g_scratchRoot;
static std::vector<std::string> g_known;
static std::string g_only;
static int g_toZygote = -1, g_fromZygote = -1;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static void clear_results()
{
    memset(reinterpret_cast<char*>(shared) + offsetof(Shared, finished), 0, offsetof(Shared, decisions) - offsetof(Shared, finished));
    shared->nKnown = 0;
    memset(shared->known, 0, sizeof shared->known);
}

// The process every run is forked from. It is forked at the very start of main and allocates nothing itself: each run
// starts from the same heap, whatever the driver did before.
[[noreturn]] static void zygote(int in, int out)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c;
    for (;;)
    {
        const ssize_t k = read(in, &c, 1);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            _exit(0);
        int st = -1;
        const pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(in);
            close(out);
            const auto cpu = static_cast<rlim_t>(shared->req.cpu);
            rlimit rl {cpu, cpu + 5};
            setrlimit(RLIMIT_CPU, &rl);
            rlimit rc {0, 0};
            setrlimit(RLIMIT_CORE, &rc);
            if (!shared->req.verbose)
            {
                int n = open("/dev/null", O_WRONLY);
                dup2(n, 1);
                dup2(n, 2);
                close(n);
            }
            if (chdir(shared->req.scratch) != 0)
                _exit(3);
            cv::parallel::setParallelForBackend(std::make_shared<SimBackend>(), false);
            run_child();
            _exit(0);
        }
        if (pid > 0)
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (write(out, &st, sizeof st) != sizeof st)
            _exit(0);
    }
}

// returns false when the child could not be run at all
static bool run_once(const Replay& r)
{
    clear_results();
    Request& q = shared->req;
    snprintf(q.scenario, sizeof q.scenario, "%s", r.scenario.c_str());
    q.seed = r.seed;
    q.time0 = r.time0;
    q.verbose = g_verbose;
    q.cpu = g_cpuLimit;
    q.races = g_races;
    q.explicitDecisions = r.explicit_decisions;
    std::vector<Decision> d = r.decisions;
    std::stable_sort(d.begin(), d.end(), [](const Decision& a, const Decision& b) {
        return a.stream != b.stream ? a.stream < b.stream : a.idx < b.idx;
    });
    memset(q.nIn, 0, sizeof q.nIn);
    memset(q.start, 0, sizeof q.start);
    uint32_t n = 0;
    for (auto& x: d)
    {
        if (q.nIn[x.stream]++ == 0)
            q.start[x.stream] = n;
        q.in[n++] = x;
    }
    memset(q.dropped, 0, sizeof q.dropped);
    for (auto o: r.dropped_ops)
        if (o < sizeof q.dropped)
            q.dropped[o] = 1;
    snprintf(q.only, sizeof q.only, "%s", g_only.c_str());
    q.nKnown = 0;
    for (auto& k: g_known)
        if (q.nKnown < 16)
            snprintf(q.known[q.nKnown++], sizeof q.known[0], "%s", k.c_str());
    const std::string scratch = g_scratchRoot + "/run";
    std::filesystem::remove_all(scratch);
    std::filesystem::create_directories(scratch);
    snprintf(q.scratch, sizeof q.scratch, "%s", scratch.c_str());
    fflush(stdout);
    fflush(stderr);
    char c = 'r';
    int st = -1;
    if (write(g_toZygote, &c, 1) != 1)
        return false;
    ssize_t k;
    while ((k = read(g_fromZygote, &st, sizeof st)) < 0 && errno == EINTR) {}
    if (k != sizeof st || st == -1)
        return false;
    if (!shared->failed && !shared->finished)
    {
        shared->failed = 1;
        if (WIFSIGNALED(st))
        {
            snprintf(shared->cls, sizeof shared->cls, "killed-signal-%d", WTERMSIG(st));
            snprintf(shared->msg, sizeof shared->msg, "the process was killed by signal %d", WTERMSIG(st));
        }
        else
        {
            snprintf(shared->cls, sizeof shared->cls, "ended-early");
            snprintf(shared->msg, sizeof shared->msg, "the process ended with status %d", WEXITSTATUS(st));
        }
    }
    return true;
}

static Replay explicit_of(const Replay& r)
{
    Replay e = r;
    e.explicit_decisions = true;
    e.decisions.assign(shared->decisions, shared->decisions + shared->nDecisions);
    e.cls = shared->cls;
    e.hash = shared->hash;
    return e;
}

static void save(const Replay& r, const std::string& path, const std::string& msg)
{
    std::ofstream f(path);
    f << "# deterministic simulation replay file\n";
    f << "scenario " << r.scenario << "\nseed " << r.seed << "\ntime0 " << r.time0 << "\nexplicit " << r.explicit_decisions
      << "\nclass " << r.cls << "\nhash " << r.hash << "\n";
    std::string m = msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    f << "message " << m << "\n";
    if (!r.dropped_ops.empty())
    {
        f << "drop";
        for (auto d: r.dropped_ops)
            f << " " << d;
        f << "\n";
    }
    for (auto& d: r.decisions)
        f << "d " << stream_names[d.stream] << " " << d.idx << " " << d.value << "\n";
}

static bool load(Replay& r, const std::string& path)
{
    std::ifstream f(path);
    if (!f)
        return false;
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "scenario")
            s >> r.scenario;
        else if (k == "seed")
            s >> r.seed;
        else if (k == "time0")
            s >> r.time0;
        else if (k == "explicit")
            s >> r.explicit_decisions;
        else if (k == "class")
            s >> r.cls;
        else if (k == "hash")
            s >> r.hash;
        else if (k == "drop")
        {
            uint64_t v;
            while (s >> v)
                r.dropped_ops.insert(v);
        }
        else if (k == "d")
        {
            std::string st;
            Decision d {};
            s >> st >> d.idx >> d.value;
            for (int i = 0; i < S_COUNT; ++i)
                if (st == stream_names[i])
                    d.stream = i;
            r.decisions.push_back(d);
        }
    }
    return !r.scenario.empty();
}

static bool still_fails(const Replay& r, const std::string& cls) { return run_once(r) && shared->failed && cls == shared->cls; }

// delta debugging over operations, then over the decision list
static Replay minimise(Replay r, double budget_s)
{
    const double end = now() + budget_s;
    const std::string cls = r.cls;
    // 1. operations: the run reports how many it generated
    if (!still_fails(r, cls))
        return r; // the caller notices
    uint64_t nOps = 0;
    for (uint32_t i = 0; i < shared->nStats; ++i)
        if (!strcmp(shared->stats[i].name, "ops.generated"))
            nOps = shared->stats[i].value;
    for (uint64_t block = std::max<uint64_t>(nOps / 2, 1); nOps > 0 && now() < end; block /= 2)
    {
        for (uint64_t b = nOps; now() < end;)
        {
            const uint64_t lo = b > block ? b - block : 0;
            Replay t = r;
            bool any = false;
            for (uint64_t i = lo; i < b; ++i)
                any |= t.dropped_ops.insert(i).second;
            if (any && still_fails(t, cls))
                r = t;
            if (lo == 0)
                break;
            b = lo;
        }
        if (block <= 1)
            break;
    }
    // 2. decisions, ddmin
    size_t chunk = std::max<size_t>(r.decisions.size(), 1);
    // first try: none at all
    while (chunk >= 1 && now() < end && !r.decisions.empty())
    {
        bool removed = false;
        for (size_t pos = 0; pos < r.decisions.size() && now() < end;)
        {
            Replay t = r;
            const size_t e = std::min(pos + chunk, t.decisions.size());
            t.decisions.erase(t.decisions.begin() + static_cast<long>(pos), t.decisions.begin() + static_cast<long>(e));
            if (still_fails(t, cls))
            {
                r = t;
                removed = true;
            }
            else
                pos = e;
        }
        if (chunk == 1 && !removed)
            break;
        if (!removed || chunk > r.decisions.size())
            chunk = std::max<size_t>(1, std::min(chunk, r.decisions.size()) / 2);
    }
    // final hash
    run_once(r);
    r.hash = shared->hash;
    return r;
}

static std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else if (c < 127)
            o += static_cast<char>(c);
        else
            o += '?';
    }
    return o;
}

int main(int argc, char** argv)
{
    // before anything is allocated: the process all runs are forked from
    mallopt(M_ARENA_MAX, 1);
    shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shared == MAP_FAILED)
        return 2;
    for (int i = 1; i + 1 < argc; i += 2)
        if (!strcmp(argv[i], "--core")) // single core: switches between parked threads are cheap
        {
            cpu_set_t set;
            CPU_ZERO(&set);
            CPU_SET(static_cast<size_t>(atoi(argv[i + 1])), &set);
            sched_setaffinity(0, sizeof set, &set);
        }
    int to[2], from[2];
    if (pipe(to) || pipe(from))
        return 2;
    const pid_t zy = fork();
    if (zy < 0)
        return 2;
    if (zy == 0)
    {
        close(to[1]);
        close(from[0]);
        zygote(to[0], from[1]);
    }
    close(to[0]);
    close(from[1]);
    fcntl(to[1], F_SETFD, FD_CLOEXEC);
    fcntl(from[0], F_SETFD, FD_CLOEXEC);
    g_toZygote = to[1];
    g_fromZygote = from[0];
    signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2)
        a[argv[i]] = argv[i + 1];
    if (a.count("--list"))
    {
        for (auto& n: scenario_names())
            printf("%s\n", n.c_str());
        return 0;
    }
    g_verbose = a.count("--verbose") && a["--verbose"] == "1";
    if (a.count("--cpu"))
        g_cpuLimit = atoi(a["--cpu"].c_str());
    g_races = a.count("--races") && a["--races"] == "1";
    const char* e = getenv("SIM_TIME0");
    const long time0 = e ? atol(e) : 1700000000L;
    if (a.count("--only"))
        g_only = a["--only"];
    if (a.count("--known"))
    {
        std::istringstream s(a["--known"]);
        std::string k;
        while (std::getline(s, k, ','))
            if (!k.empty())
                g_known.push_back(k);
    }
    g_scratchRoot = a.count("--scratch") ? a["--scratch"] : std::string("/tmp/simrun.") + std::to_string(getpid());
    std::filesystem::create_directories(g_scratchRoot);
    g_scratchRoot = std::filesystem::canonical(g_scratchRoot).string();

    int rc = 0;
    if (a.count("--replay"))
    {
        Replay r;
        if (!load(r, a["--replay"]))
        {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        if (r.time0 != time0)
        {
            // the random seed of the code under test is read by static initialisers: start again with the right clock
            setenv("SIM_TIME0", std::to_string(r.time0).c_str(), 1);
            execv("/proc/self/exe", argv);
            return 2;
        }
        run_once(r);
        printf("{\"failed\": %u, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%lu\", \"expected_class\": \"%s\", "
               "\"expected_hash\": \"%lu\"}\n",
               shared->failed,
               esc(shared->cls).c_str(),
               esc(shared->msg).c_str(),
               shared->hash,
               esc(r.cls).c_str(),
               r.hash);
        rc = shared->failed ? 1 : 0;
    }
    else
    {
        std::vector<std::string> scns;
        {
            std::istringstream s(a["--scenario"]);
            std::string k;
            while (std::getline(s, k, ','))
                scns.push_back(k);
        }
        const uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
        const uint64_t stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
        const uint64_t runs = a.count("--runs") ? strtoull(a["--runs"].c_str(), nullptr, 10) : 100;
        const double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 1e9;
        const double minBudget = a.count("--min-budget") ? atof(a["--min-budget"].c_str()) : 45;
        const uint64_t verifyEvery = a.count("--verify-every") ? strtoull(a["--verify-every"].c_str(), nullptr, 10) : 16;
        const double t0 = now();
        uint64_t done = 0, nontriv = 0, yields = 0, sw = 0, verified = 0, mismatches = 0, ctrlFailed = 0;
        double simTime = 0;
        std::set<uint64_t> scheds, states, hashes, nontrivHashes;
        std::map<std::string, uint64_t> stats;
        std::map<std::string, uint64_t> known;
        std::map<std::string, uint64_t> perScn;
        std::vector<std::string> samples;
        std::string violation;
        for (uint64_t i = 0; i < runs && now() - t0 < budget; ++i)
        {
            Replay r;
            r.scenario = scns[i % scns.size()];
            r.seed = base + stride * i;
            r.time0 = time0;
            const double rt0 = now();
            if (!run_once(r))
            {
                ++ctrlFailed;
                continue;
            }
            if (g_verbose)
                fprintf(stderr, "[seed %lu] %.3fs failed=%u %s %s\n", r.seed, now() - rt0, shared->failed, shared->cls, shared->msg);
            ++done;
            ++perScn[r.scenario];
            yields += shared->yields;
            sw += shared->switches;
            simTime += shared->simTime;
            scheds.insert(hash_mix(shared->schedHash, shared->switches));
            hashes.insert(shared->hash);
            if (shared->nontrivial)
            {
                ++nontriv;
                nontrivHashes.insert(shared->hash);
            }
            for (uint32_t k = 0; k < shared->nStates; ++k)
                states.insert(shared->states[k]);
            for (uint32_t k = 0; k < shared->nStats; ++k)
            {
                auto& v = stats[shared->stats[k].name];
                v = shared->stats[k].isMax ? std::max(v, shared->stats[k].value) : v + shared->stats[k].value;
            }
            for (uint32_t k = 0; k < shared->nKnown; ++k)
                ++known[shared->known[k]];
            if (samples.size() < (getenv("SIM_SAMPLES") ? 100000u : 3u) && shared->sample[0])
                samples.push_back("seed " + std::to_string(r.seed) + " " + r.scenario + ": " + shared->sample);
            if (shared->failed)
            {
                const bool overflow = shared->decisionsOverflow;
                Replay orig = r;
                orig.cls = shared->cls;
                orig.hash = shared->hash;
                std::string msg = shared->msg;
                const size_t before = shared->nDecisions;
                Replay m = explicit_of(r);
                // gate: the same seed twice gives the same hash
                bool same = still_fails(orig, orig.cls) && shared->hash == orig.hash;
                if (!overflow && same)
                    m = minimise(m, minBudget);
                else
                    m = orig;
                // the minimised file has to reproduce the class, otherwise fall back to the plain seed
                if (!still_fails(m, m.cls))
                    m = orig;
                else
                    msg = shared->msg;
                const std::string out = a.count("--replay-out") ? a["--replay-out"] : "replay.txt";
                std::filesystem::create_directories(std::filesystem::path(out).parent_path());
                save(m, out, msg);
                std::ostringstream v;
                v << "{\"class\": \"" << esc(m.cls) << "\", \"message\": \"" << esc(msg) << "\", \"seed\": " << r.seed
                  << ", \"scenario\": \"" << esc(r.scenario) << "\", \"replay\": \"" << esc(out)
                  << "\", \"same_seed_same_hash\": " << (same ? "true" : "false") << ", \"decisions_before\": " << before
                  << ", \"decisions_after\": " << m.decisions.size() << ", \"ops_dropped\": " << m.dropped_ops.size() << "}";
                violation = v.str();
                break;
            }
            if (verifyEvery && i % verifyEvery == verifyEvery - 1)
            {
                const uint64_t h = shared->hash;
                run_once(r);
                ++verified;
                if (shared->hash != h)
                {
                    ++mismatches;
                    fprintf(stderr, "determinism mismatch: scenario %s seed %lu\n", r.scenario.c_str(), r.seed);
                }
            }
        }
        std::ostringstream o;
        o << "{\"runs\": " << done << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << nontrivHashes.size()
          << ", \"distinct_histories\": " << hashes.size() << ", \"yields\": " << yields << ", \"switches\": " << sw
          << ", \"sim_time_s\": " << simTime << ", \"determinism_verified\": " << verified
          << ", \"determinism_mismatches\": " << mismatches << ", \"wall_s\": " << now() - t0 << ", \"sched_hashes\": [";
        bool first = true;
        auto list = [&](auto& c) {
            first = true;
            for (auto h: c)
            {
                o << (first ? "" : ",") << '"' << std::hex << h << std::dec << '"';
                first = false;
            }
        };
        list(scheds);
        o << "], \"state_hashes\": [";
        list(states);
        o << "], \"nontrivial_hashes\": [";
        list(nontrivHashes);
        o << "], \"stats\": {";
        first = true;
        for (auto& [k, v]: stats)
        {
            o << (first ? "" : ", ") << '"' << esc(k) << "\": " << v;
            first = false;
        }
        o << "}, \"per_scenario\": {";
        first = true;
        for (auto& [k, v]: perScn)
        {
            o << (first ? "" : ", ") << '"' << esc(k) << "\": " << v;
            first = false;
        }
        o << "}, \"known\": {";
        first = true;
        for (auto& [k, v]: known)
        {
            o << (first ? "" : ", ") << '"' << esc(k) << "\": " << v;
            first = false;
        }
        o << "}, \"samples\": [";
        first = true;
        for (auto& s: samples)
        {
            o << (first ? "" : ", ") << '"' << esc(s) << '"';
            first = false;
        }
        o << "], \"violation\": " << (violation.empty() ? "null" : violation) << "}\n";
        if (a.count("--out"))
        {
            std::ofstream f(a["--out"]);
            f << o.str();
        }
        else
            fputs(o.str().c_str(), stdout);
        rc = violation.empty() ? 0 : 1;
    }
    std::filesystem::remove_all(g_scratchRoot);
    return rc;
}
