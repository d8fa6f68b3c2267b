// C15: map files are well formed and complete. C16: what a disk fault or a crash leaves behind.
#include "scn.hpp"
#include "outputs/map_writer.hpp"
#include <map>
#include <memory>
#include <unistd.h>
using namespace rgbd_slam;

namespace {
struct Op
{
    int kind; // 0 point 1 line 2 polygon
    std::vector<vector3> pts;
};
double coord(sim::Rng& r)
{
    switch (r.below(8))
    {
        case 0: return 0.0;
        case 1: return r.range(-1, 1) * 1e-5;
        case 2: return r.range(-1, 1) * 1e7;
        case 3: return std::floor(r.range(-5000, 5000));
        case 4: return r.range(-1, 1) * 1e-2;
        default: return r.range(-6000, 6000);
    }
}
vector3 pt(sim::Rng& r) { return vector3(coord(r), coord(r), coord(r)); }

std::vector<Op> make_ops(sim::Rng& r, uint64_t n, bool big)
{
    std::vector<Op> ops;
    const bool twins = r.chance(0.3);
    for (uint64_t i = 0; i < n; ++i)
    {
        Op o;
        o.kind = static_cast<int>(r.below(3));
        if (o.kind == 0)
            o.pts.push_back(pt(r));
        else
        {
            const uint64_t k = o.kind == 1 ? 2 + r.below(big ? 12 : 4) : 3 + r.below(big ? 60 : 6);
            for (uint64_t j = 0; j < k; ++j)
                o.pts.push_back(j > 0 && twins && r.chance(0.2) ? o.pts.back() : pt(r)); // some shapes repeat a vertex
            if (o.kind == 2)
                o.pts.push_back(o.pts.front()); // boundaries are closed rings
        }
        if (sim::op_enabled(i))
            ops.push_back(o);
    }
    sim::count("ops.generated", n);
    return ops;
}
std::unique_ptr<outputs::IMap_Writer> make_writer(int fmtId, const std::string& name)
{
    if (fmtId == 0)
        return std::make_unique<outputs::OBJ_Map_Writer>(name);
    if (fmtId == 1)
        return std::make_unique<outputs::XYZ_Map_Writer>(name);
    return std::make_unique<outputs::PCD_Map_Writer>(name);
}
const char* ext[] = {".obj", ".xyz", ".pcd"};
void apply(outputs::IMap_Writer& w, const Op& o)
{
    if (o.kind == 0)
        w.add_point(o.pts[0]);
    else if (o.kind == 1)
        w.add_line(o.pts);
    else
        w.add_polygon(o.pts, vector3(0, 0, 1));
}
bool close_to(const vector3& a, const vector3& b)
{
    for (int i = 0; i < 3; ++i)
        if (!(std::abs(a[i] - b[i]) <= 2e-5 * std::abs(b[i]) + 1e-12))
            return false;
    return true;
}
std::vector<std::string> split_lines(const std::string& s)
{
    std::vector<std::string> l;
    std::string cur;
    for (char c: s)
        if (c == '\n')
        {
            l.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    if (!cur.empty())
        sim::fail("mapfile-no-final-newline", "the file ends without a newline: " + cur);
    return l;
}
vector3 parse3(std::istringstream& s, const std::string& line)
{
    vector3 v;
    std::string rest;
    if (!(s >> v[0] >> v[1] >> v[2]) || (s >> rest))
        sim::fail("mapfile-bad-line", "not three coordinates: " + line);
    return v;
}

struct Element
{
    char kind;
    std::vector<vector3> pts;
};

// reads an OBJ file; an element may only name vertices that are already defined
std::vector<Element> parse_obj(const std::vector<std::string>& lines)
{
    std::vector<vector3> v;
    std::vector<bool> used;
    std::vector<Element> out;
    for (auto& l: lines)
    {
        if (l.empty() || l[0] == '#')
            continue;
        std::istringstream s(l);
        std::string k;
        s >> k;
        if (k == "v")
        {
            v.push_back(parse3(s, l));
            used.push_back(false);
        }
        else if (k == "p" || k == "l" || k == "f")
        {
            Element e;
            e.kind = k[0];
            std::string tok;
            while (s >> tok)
            {
                char* end = nullptr;
                const long long i = strtoll(tok.c_str(), &end, 10);
                if ((*end != 0 && *end != '/') || i == 0)
                    sim::fail("obj-bad-index", "not a vertex index: " + l);
                const long long at = i > 0 ? i : static_cast<long long>(v.size()) + 1 + i;
                if (at < 1 || at > static_cast<long long>(v.size()))
                    sim::fail("obj-dangling-index",
                              fmt("element '%s' names vertex %lld, %zu are defined at this point", l.substr(0, 80).c_str(), i, v.size()));
                else
                {
                    e.pts.push_back(v[static_cast<size_t>(at) - 1]);
                    used[static_cast<size_t>(at) - 1] = true;
                }
            }
            if (e.pts.size() < (e.kind == 'p' ? 1u : e.kind == 'l' ? 2u : 3u))
                sim::fail("obj-short-element", "too few vertices: " + l);
            out.push_back(e);
        }
        else if (k != "vn" && k != "o" && k != "g" && k != "s" && k != "vt")
            sim::fail("mapfile-bad-line", "unknown OBJ line: " + l);
    }
    for (size_t i = 0; i < v.size(); ++i)
        if (!used[i])
            sim::fail("obj-orphan-vertex", fmt("vertex %zu belongs to no element", i + 1));
    return out;
}

// same ring in the reversed sense, from any start
bool same_ring(std::vector<vector3> got, std::vector<vector3> want)
{
    want.pop_back(); // closed ring
    if (got.size() == want.size() + 1 && close_to(got.front(), got.back()))
        got.pop_back();
    if (got.size() != want.size())
        return false;
    std::vector<vector3> rev(want.rbegin(), want.rend());
    for (size_t s = 0; s < rev.size(); ++s)
    {
        bool ok = true;
        for (size_t i = 0; i < rev.size() && ok; ++i)
            ok = close_to(got[i], rev[(i + s) % rev.size()]);
        if (ok)
            return true;
    }
    return false;
}

void check_file(int f, const std::string& content, const std::vector<Op>& ops)
{
    auto lines = split_lines(content);
    if (f == 0)
    {
        auto el = parse_obj(lines);
        if (el.size() != ops.size())
            sim::fail("obj-element-count", fmt("%zu elements for %zu map features", el.size(), ops.size()));
        for (size_t i = 0; i < ops.size() && i < el.size(); ++i)
        {
            const char want = "plf"[ops[i].kind];
            bool ok = el[i].kind == want;
            if (ok && ops[i].kind == 2)
                ok = same_ring(el[i].pts, ops[i].pts);
            else if (ok)
            {
                ok = el[i].pts.size() == ops[i].pts.size();
                for (size_t k = 0; ok && k < el[i].pts.size(); ++k)
                    ok = close_to(el[i].pts[k], ops[i].pts[k]);
            }
            if (!ok)
                sim::fail("obj-wrong-element", fmt("element %zu ('%c') is not the feature that was written", i, el[i].kind));
        }
        return;
    }
    size_t at = 0;
    if (f == 2)
    {
        bool data = false;
        long points = -1;
        std::map<std::string, std::string> head;
        for (; at < lines.size() && !data; ++at)
        {
            if (lines[at].empty() || lines[at][0] == '#')
                continue;
            std::istringstream s(lines[at]);
            std::string k, v;
            s >> k;
            std::getline(s >> std::ws, v);
            head[k] = v;
            data = k == "DATA";
        }
        if (!data || head["DATA"] != "ascii" || head["FIELDS"] != "x y z" || head.count("VERSION") == 0 || head["TYPE"] != "F F F")
            sim::fail("pcd-header", "the PCD header is incomplete");
        points = head.count("POINTS") ? atol(head["POINTS"].c_str()) : -1;
        size_t want = 0;
        for (auto& o: ops)
            want += o.kind == 0;
        if (points != static_cast<long>(want))
            sim::fail(points == 0 ? "pcd-point-count" : "pcd-wrong-count", fmt("the header announces %ld points, %zu were written", points, want));
    }
    std::vector<vector3> got;
    for (; at < lines.size(); ++at)
    {
        std::istringstream s(lines[at]);
        got.push_back(parse3(s, lines[at]));
    }
    size_t i = 0;
    for (auto& o: ops)
    {
        if (o.kind != 0)
            continue;
        if (i >= got.size() || !close_to(got[i], o.pts[0]))
            sim::fail("cloud-wrong-point", fmt("row %zu is not the point that was written", i));
        ++i;
    }
    if (i != got.size())
        sim::fail("cloud-row-count", fmt("%zu rows for %zu points", got.size(), i));
}
} // namespace

#include <map>
SCENARIO(mapfile)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    const int f = r.below(5) < 3 ? 0 : 1 + static_cast<int>(r.below(2));
    const bool huge = r.chance(0.004); // more than 2^16 vertices
    auto ops = make_ops(r, huge ? 6500 : r.below(3) == 0 ? r.below(1500) : r.below(40), huge || r.chance(0.3));
    // two writers alive at the same time: they do not share anything
    const bool twin = r.chance(0.3);
    auto ops2 = ops;
    std::reverse(ops2.begin(), ops2.end());
    // the disk takes the data in arbitrary pieces and interrupts calls: nothing may get lost
    sim::io().enabled = r.chance(0.6);
    sim::io().p_short = r.chance(0.7) ? 0.4 : 0.05;
    sim::io().p_eintr = r.chance(0.5) ? 0.3 : 0.0;
    sim::io_track("m");
    sim::start();
    {
        auto w = make_writer(f, "m_map");
        std::unique_ptr<outputs::IMap_Writer> w2;
        if (twin)
            w2 = make_writer(0, "m_other");
        for (size_t i = 0; i < ops.size(); ++i)
        {
            apply(*w, ops[i]);
            if (w2)
                apply(*w2, ops2[i]);
        }
    }
    sim::stop();
    const std::string c = slurp(std::string("m_map") + ext[f]);
    sim::mix(sim::hash_bytes(1, c.data(), c.size()));
    if (ops.size() > 1)
        sim::nontrivial();
    check_file(f, c, ops);
    if (twin)
        check_file(0, slurp("m_other.obj"), ops2);
    sim::count("features.written", ops.size());
    sim::count("bytes.written", c.size());
    sim::state(sim::hash_bytes(5, c.data(), c.size()));
    sim::sample(fmt("%s, %zu features, %zu bytes, %lu I/O calls", ext[f], ops.size(), c.size(), sim::io_calls()));
}

SCENARIO(mapfile_fault)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    const int f = r.below(5) < 3 ? 0 : 1 + static_cast<int>(r.below(2));
    auto ops = make_ops(r, r.below(2) ? 200 + r.below(1500) : r.below(300), r.chance(0.3));
    // reference: the same history without faults
    std::string ref;
    {
        auto w = make_writer(f, "r_ref");
        for (auto& o: ops)
            apply(*w, o);
    }
    ref = slurp(std::string("r_ref") + ext[f]);
    auto& io = sim::io();
    io.enabled = true;
    const uint64_t mode = r.below(5); // 0 full disk 1 device error 2 crash at a write 3 crash between operations 4 open fails
    io.p_short = r.chance(0.5) ? 0.3 : 0;
    io.p_eintr = r.chance(0.5) ? 0.2 : 0;
    const double p = r.chance(0.5) ? 0.25 : 0.05;
    if (mode == 0)
        io.p_enospc = p;
    if (mode == 1)
        io.p_eio = p;
    if (mode == 2)
        io.p_crash = p;
    if (mode == 4)
        io.p_open_fail = 0.7;
    const std::string path = std::string("m_map") + ext[f];
    const size_t crashAt = mode == 3 && !ops.empty() ? r.below(ops.size() + 1) : ~size_t(0);
    size_t applied = 0;
    auto left_behind = [&](bool orderly, bool betweenOps = false) {
        const std::string c = slurp(path);
        if (betweenOps)
        {
            // what the writer was given before the crash is on disk, but for a tail of bounded size
            sim::io().enabled = false;
            {
                auto w = make_writer(f, "r_part");
                for (size_t i = 0; i < applied; ++i)
                    apply(*w, ops[i]);
            }
            const size_t given = slurp(std::string("r_part") + ext[f]).size();
            sim::count("crash.bytes_given", given);
            if (c.size() + 65536 < given)
                sim::fail("mapfile-unbounded-loss", fmt("%zu bytes of features were written before the crash, %zu are on disk", given, c.size()));
        }
        sim::mix(sim::hash_bytes(1, c.data(), c.size()));
        sim::state(sim::hash_bytes(5, c.data(), c.size()));
        if (!ops.empty())
            sim::nontrivial();
        sim::sample(fmt("%s mode %lu: %zu of %zu bytes on disk, %zu of %zu features", ext[f], mode, c.size(), ref.size(), applied, ops.size()));
        if (orderly && !sim::io_error_injected())
        {
            if (c != ref)
                sim::fail("mapfile-data-lost", fmt("no write failed, yet the file differs (%zu bytes instead of %zu)", c.size(), ref.size()));
        }
        else if (c.size() > ref.size() || ref.compare(0, c.size(), c) != 0)
        {
            size_t d = 0;
            while (d < c.size() && d < ref.size() && c[d] == ref[d])
                ++d;
            sim::fail("mapfile-not-a-prefix",
                      fmt("after the fault the file is not a prefix of the undisturbed file: differs at byte %zu (%zu of %zu bytes)", d, c.size(), ref.size()));
        }
    };
    io.on_crash = [&] {
        left_behind(false);
        sim::end_run();
    };
    sim::allow_exit([&](int code) {
        // the only accepted ending: the file could not be opened, and the caller is told with a failure status
        if (mode != 4 || !sim::io_error_injected())
            sim::fail_now("mapfile-exit", fmt("exit(%d) without an open failure", code));
        if (code == 0)
            sim::fail_now("mapfile-open-silent", "the file cannot be opened, the process ends with success");
        std::string err;
        for (auto& c: sim::captured())
            err += c.data;
        if (err.find("[ERR]") == std::string::npos)
            sim::fail_now("mapfile-open-silent", "the file cannot be opened and no error is logged");
        sim::nontrivial();
        sim::end_run();
    });
    sim::io_track("m_");
    sim::capture_output(true);
    sim::start();
    {
        auto w = make_writer(f, "m_map");
        if (mode == 4 && sim::io_error_injected())
            sim::fail_now("mapfile-open-silent", "the file cannot be opened and the writer goes on");
        for (auto& o: ops)
        {
            if (applied == crashAt)
            {
                sim::count("fault.crash");
                left_behind(false, true);
                sim::end_run();
            }
            apply(*w, o);
            ++applied;
        }
    }
    sim::stop();
    left_behind(true);
}
