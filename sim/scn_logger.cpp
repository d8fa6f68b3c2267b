// C18: console lines of the logger are whole, on the right stream, exactly once, whatever threads log at the same time.
#include "scn.hpp"
#include "outputs/logger.hpp"
#include <future>
#include <map>
#include <thread>
using namespace rgbd_slam;

namespace {
struct Msg
{
    int sev; // 0 info 1 warning 2 error
    std::string text;
};
std::string random_text(sim::Rng& r, int thread, int k)
{
    static const char* bits[] = {"pose lost", "%s%d%n", "{}{:.3f}", "\t", "éà", "\x1B[0m", "(a:b)", "[ERR]", " ", "point 12", "\\n"};
    std::string t = "<" + std::to_string(thread) + "." + std::to_string(k) + ">";
    const uint64_t n = r.below(4) == 0 ? r.below(120) : r.below(5);
    for (uint64_t i = 0; i < n; ++i)
        t += bits[r.below(sizeof bits / sizeof *bits)];
    return t + "</" + std::to_string(thread) + "." + std::to_string(k) + ">";
}
void emit(const Msg& m)
{
    if (m.sev == 0)
        outputs::log(m.text);
    else if (m.sev == 1)
        outputs::log_warning(m.text);
    else
        outputs::log_error(m.text);
}
} // namespace

SCENARIO(logger)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::knobs().preempt_p = std::max(sim::knobs().preempt_p, 0.03);
    const int nThreads = 2 + static_cast<int>(r.below(5));
    std::vector<std::vector<Msg>> plan(static_cast<size_t>(nThreads));
    uint64_t op = 0;
    const bool oneSeverity = r.chance(0.2);
    const int theOne = static_cast<int>(r.below(3));
    for (int t = 0; t < nThreads; ++t)
    {
        const uint64_t n = 1 + r.below(6);
        for (uint64_t k = 0; k < n; ++k)
        {
            Msg m {oneSeverity ? theOne : static_cast<int>(r.below(3)), random_text(r, t, static_cast<int>(k))};
            if (sim::op_enabled(op++))
                plan[static_cast<size_t>(t)].push_back(m);
        }
    }
    sim::count("ops.generated", op);
    sim::capture_output(true);
    sim::start();
    {
        std::vector<std::thread> th;
        std::vector<std::future<void>> fu;
        for (int t = 1; t < nThreads; ++t)
        {
            auto body = [&plan, t] {
                for (auto& m: plan[static_cast<size_t>(t)])
                    emit(m);
            };
            if (t & 1)
                th.emplace_back(body);
            else
                fu.push_back(std::async(std::launch::async, body));
        }
        for (auto& m: plan[0])
            emit(m);
        for (auto& t: th)
            t.join();
        for (auto& f: fu)
            f.get();
    }
    fflush(nullptr);
    sim::stop();
    sim::capture_output(false);

    std::string stream[3];
    std::set<int> writers;
    for (auto& c: sim::captured())
    {
        stream[c.fd] += c.data;
        writers.insert(c.tid);
    }
    sim::mix(sim::hash_bytes(3, stream[1].data(), stream[1].size()));
    sim::mix(sim::hash_bytes(3, stream[2].data(), stream[2].size()));
    if (writers.size() > 1)
        sim::nontrivial();
    static const char* tags[] = {"[INF]", "[WARN]", "[ERR]"};
    for (int fd = 1; fd <= 2; ++fd)
    {
        std::vector<std::string> lines;
        std::string cur;
        for (char ch: stream[fd])
        {
            if (ch == '\n')
            {
                lines.push_back(cur);
                cur.clear();
            }
            else
                cur += ch;
        }
        if (!cur.empty())
            sim::fail("log-line-unterminated", "the stream ends in the middle of a line: " + cur);
        std::map<std::string, size_t> expected; // text -> severity
        std::vector<size_t> pos(plan.size(), 0);
        std::vector<std::vector<const Msg*>> per(plan.size());
        for (size_t t = 0; t < plan.size(); ++t)
            for (auto& m: plan[t])
                if ((m.sev == 0) == (fd == 1))
                    per[t].push_back(&m);
        size_t total = 0;
        for (auto& p: per)
            total += p.size();
        for (auto& l: lines)
        {
            // a line is exactly the next line of one of the threads
            bool ok = false;
            for (size_t t = 0; t < per.size() && !ok; ++t)
                if (pos[t] < per[t].size())
                {
                    const Msg& m = *per[t][pos[t]];
                    const size_t at = l.find(m.text);
                    const size_t tg = l.find(tags[m.sev]);
                    if (at == std::string::npos || tg == std::string::npos || tg > at)
                        continue;
                    // nothing of any other message, and a single tag before the text
                    std::string head = l.substr(0, at), tail = l.substr(at + m.text.size());
                    if (head.find('<') != std::string::npos || tail.find('<') != std::string::npos || tail.find('[') != tail.rfind('[') ||
                        head.find("[INF]") != head.rfind("[INF]") || tail.find("INF]") != std::string::npos ||
                        tail.find("WARN]") != std::string::npos || tail.find("ERR]") != std::string::npos)
                        continue;
                    size_t nTags = 0;
                    for (auto tag: tags)
                        for (size_t p = head.find(tag); p != std::string::npos; p = head.find(tag, p + 1))
                            ++nTags;
                    if (nTags != 1)
                        continue;
                    ++pos[t];
                    ok = true;
                }
            if (!ok)
                sim::fail("log-line-torn",
                          "stream " + std::to_string(fd) + ": this line is no thread's next log line: " + l.substr(0, 600));
        }
        if (lines.size() != total)
            sim::fail("log-line-count", fmt("stream %d: %zu lines for %zu messages", fd, lines.size(), total));
        sim::count("log.lines", lines.size());
    }
    sim::sample(fmt("%d threads, %zu captured pieces from %zu threads", nThreads, sim::captured().size(), writers.size()));
}
