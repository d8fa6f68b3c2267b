// C17: loading parameters from a file that is missing, unreadable, damaged or incomplete.
#include "scn.hpp"
#include "parameters.hpp"
#include <map>
#include <unistd.h>
using namespace rgbd_slam;

namespace {
struct Cam
{
    int w, h;
    double fx, fy, cx, cy;
};
struct Cfg
{
    Cam c[2];
    double t[3], a[3];
};
double pick_double(sim::Rng& r, double lo, double hi)
{
    return r.chance(0.3) ? std::floor(r.range(lo, hi)) + 0.5 : r.range(lo, hi);
}
Cfg make(sim::Rng& r)
{
    Cfg g;
    for (auto& c: g.c)
    {
        c.w = 1 + static_cast<int>(r.below(2000));
        c.h = 1 + static_cast<int>(r.below(2000));
        c.fx = pick_double(r, 1, 2000);
        c.fy = pick_double(r, 1, 2000);
        c.cx = r.chance(0.1) ? 0 : pick_double(r, 0, 1500);
        c.cy = r.chance(0.1) ? 0 : pick_double(r, 0, 1500);
    }
    for (int i = 0; i < 3; ++i)
    {
        g.t[i] = r.chance(0.3) ? 0 : r.range(-200, 200);
        g.a[i] = r.chance(0.3) ? 0 : r.range(-3, 3);
    }
    return g;
}
using Doc = std::vector<std::pair<std::string, std::string>>;
Doc doc_of(const Cfg& g)
{
    Doc d;
    auto num = [](double v) { return fmt("%.12g", v); };
    for (int k = 0; k < 2; ++k)
    {
        const std::string p = "camera_" + std::to_string(k + 1) + "_";
        d.push_back({p + "size_x", std::to_string(g.c[k].w)});
        d.push_back({p + "size_y", std::to_string(g.c[k].h)});
        d.push_back({p + "focal_x", num(g.c[k].fx)});
        d.push_back({p + "focal_y", num(g.c[k].fy)});
        d.push_back({p + "center_x", num(g.c[k].cx)});
        d.push_back({p + "center_y", num(g.c[k].cy)});
    }
    for (int i = 0; i < 3; ++i)
    {
        d.push_back({std::string("camera_2_translation_offset_") + "xyz"[i], num(g.t[i])});
        d.push_back({std::string("camera_2_rotation_offset_") + "xyz"[i], num(g.a[i])});
    }
    return d;
}
std::string text_of(const Doc& d, sim::Rng& r)
{
    std::string s = "%YAML:1.0\n";
    if (r.chance(0.5))
        s += "---\n";
    for (auto& kv: d)
    {
        if (r.chance(0.05))
            s += "# comment\n";
        s += kv.first + ": " + kv.second + "\n";
    }
    return s;
}
bool near(double a, double b) { return std::abs(a - b) <= 1e-4 * std::abs(b) + 1e-4; }

void expect_cam(int k, const Cam& c, const char* what)
{
    const auto size = k == 0 ? Parameters::get_camera_1_image_size() : Parameters::get_camera_2_image_size();
    const auto f = k == 0 ? Parameters::get_camera_1_focal() : Parameters::get_camera_2_focal();
    const auto ce = k == 0 ? Parameters::get_camera_1_center() : Parameters::get_camera_2_center();
    if (size.x() != static_cast<uint>(c.w) || size.y() != static_cast<uint>(c.h) || !near(f.x(), c.fx) || !near(f.y(), c.fy) ||
        !near(ce.x(), c.cx) || !near(ce.y(), c.cy))
        sim::fail("params-wrong-values",
                  fmt("%s, camera %d: size %u x %u focal %g %g centre %g %g, the file says %d x %d, %g %g, %g %g",
                      what, k + 1, size.x(), size.y(), f.x(), f.y(), ce.x(), ce.y(), c.w, c.h, c.fx, c.fy, c.cx, c.cy));
}
void expect_transform(const Cfg* g)
{
    const matrix44 m = Parameters::get_camera_2_to_camera_1_transformation();
    for (int i = 0; i < 3; ++i)
        if (!near(m(i, 3), g ? g->t[i] : 0.0))
            sim::fail("params-wrong-values", fmt("camera offset translation %d is %g instead of %g", i, m(i, 3), g ? g->t[i] : 0.0));
    const matrix33 rot = m.block<3, 3>(0, 0);
    if (!(rot * rot.transpose()).isApprox(matrix33::Identity(), 1e-6) || !(rot.determinant() > 0))
        sim::fail("params-wrong-values", "the rotation between the cameras is no rotation");
    // the code applies the x angle around Z and the z angle around X; the file format does not say, both readings pass
    auto of = [](double x, double y, double z) {
        return matrix33((Eigen::AngleAxisd(x, vector3::UnitX()) * Eigen::AngleAxisd(y, vector3::UnitY()) *
                         Eigen::AngleAxisd(z, vector3::UnitZ()))
                                .toRotationMatrix());
    };
    const bool same = g ? rot.isApprox(of(g->a[0], g->a[1], g->a[2]), 1e-4) || rot.isApprox(of(g->a[2], g->a[1], g->a[0]), 1e-4) :
                          rot.isApprox(matrix33::Identity(), 1e-6);
    if (!same)
        sim::fail("params-wrong-values", "the rotation between the cameras is not the one of the file");
}
void usable(const char* what)
{
    for (int k = 0; k < 2; ++k)
    {
        const auto size = k == 0 ? Parameters::get_camera_1_image_size() : Parameters::get_camera_2_image_size();
        const auto f = k == 0 ? Parameters::get_camera_1_focal() : Parameters::get_camera_2_focal();
        const auto ce = k == 0 ? Parameters::get_camera_1_center() : Parameters::get_camera_2_center();
        if (size.x() < 1 || size.y() < 1 || size.x() > 0x7fffffffu || size.y() > 0x7fffffffu)
            sim::fail("params-unusable-size", fmt("%s: declared valid with camera %d size %u x %u", what, k + 1, size.x(), size.y()));
        if (!(f.x() > 0) || !(f.y() > 0) || !std::isfinite(f.x()) || !std::isfinite(f.y()))
            sim::fail("params-unusable-focal", fmt("%s: declared valid with camera %d focal length %g %g", what, k + 1, f.x(), f.y()));
        if (!(ce.x() >= 0) || !(ce.y() >= 0))
            sim::fail("params-unusable-centre", fmt("%s: declared valid with camera %d centre %g %g", what, k + 1, ce.x(), ce.y()));
    }
}
Cfg defaults()
{
    Cfg g {};
    for (auto& c: g.c)
        c = {640, 480, 550, 550, 320, 240};
    return g;
}
} // namespace

SCENARIO(params)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    sim::set_crash_class("params");
    const uint64_t n = 1 + r.below(6);
    sim::count("ops.generated", n);
    sim::io_track("p_");
    sim::start();
    std::string hist;
    for (uint64_t i = 0; i < n; ++i)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 50, i);
        if (!sim::op_enabled(i))
            continue;
        const Cfg g = make(o);
        Doc d = doc_of(g);
        const std::string path = "p_" + std::to_string(i) + ".yaml";
        const uint64_t kind = o.below(9);
        sim::io() = sim::IoPolicy();
        sim::io_reset();
        std::string text;
        bool mustBeValid = false, mustBeInvalid = false, missing = false, damaged = false;
        std::string label;
        switch (kind)
        {
            case 0: // a good file
            case 1:
                if (o.chance(0.4)) // keys in any order
                    for (size_t k = d.size(); k > 1; --k)
                        std::swap(d[k - 1], d[o.below(k)]);
                if (o.chance(0.3))
                    d.push_back({"unknown_key", "12"});
                text = text_of(d, o);
                mustBeValid = true;
                label = "good";
                break;
            case 2: // no such file
                missing = true;
                label = "missing";
                break;
            case 3: // the file exists, opening it fails
                text = text_of(d, o);
                sim::io().enabled = true;
                sim::io().p_open_fail = 1.0;
                missing = true;
                label = "open-fails";
                break;
            case 4: // one key that the camera needs is absent
                {
                    const size_t k = o.below(12);
                    label = "without " + d[k].first;
                    const bool centre = d[k].first.find("center") != std::string::npos;
                    d.erase(d.begin() + static_cast<long>(k));
                    text = text_of(d, o);
                    mustBeInvalid = !centre;
                    break;
                }
            case 5: // one value out of range
                {
                    const size_t k = o.below(12);
                    const bool centre = d[k].first.find("center") != std::string::npos;
                    const bool size = d[k].first.find("size") != std::string::npos;
                    d[k].second = centre || o.chance(0.5) ? (size ? std::to_string(-1 - static_cast<int>(o.below(5000))) : fmt("%.6g", -o.range(0.5, 900))) : "0";
                    if (size && o.chance(0.2))
                        d[k].second = "0";
                    label = d[k].first + "=" + d[k].second;
                    text = text_of(d, o);
                    mustBeInvalid = true;
                    break;
                }
            case 6: // torn file
                text = text_of(d, o);
                text.resize(o.below(text.size()));
                damaged = true;
                label = "torn";
                sim::count("fault.torn_file");
                break;
            case 7: // flipped bytes
                {
                    text = text_of(d, o);
                    const uint64_t m = 1 + o.below(4);
                    for (uint64_t k = 0; k < m; ++k)
                        text[o.below(text.size())] = o.chance(0.5) ? static_cast<char>(32 + o.below(95)) : static_cast<char>(o.below(256));
                    damaged = true;
                    label = "corrupted";
                    sim::count("fault.corrupted_file");
                    break;
                }
            default: // read error in the middle
                text = text_of(d, o);
                sim::io().enabled = true;
                sim::io().p_read_eof = 0.15;
                damaged = true;
                label = "read-error";
                break;
        }
        if (kind != 2)
        {
            FILE* f = std::fopen(("q_" + path).c_str(), "wb");
            fwrite(text.data(), 1, text.size(), f);
            fclose(f);
            rename(("q_" + path).c_str(), path.c_str());
        }
        const bool ok = Parameters::parse_file(path);
        sim::io().enabled = false;
        if (kind == 8 && !sim::io_error_injected())
        {
            damaged = false;
            mustBeValid = true;
        }
        hist += label + (ok ? "+ " : "- ");
        sim::count(("params." + label.substr(0, label.find_first_of(" ="))).c_str());
        sim::mix(ok);
        if (missing)
        {
            if (ok)
                sim::fail("params-missing-accepted", "a file that cannot be opened is reported as loaded");
            if (!Parameters::is_valid())
                sim::fail("params-no-default", "the file cannot be opened: the defaults are not in force");
            const Cfg def = defaults();
            expect_cam(0, def.c[0], "defaults after a missing file");
            expect_cam(1, def.c[1], "defaults after a missing file");
            expect_transform(nullptr);
            sim::nontrivial();
        }
        else
        {
            if (!ok && damaged && Parameters::is_valid())
            {
                // a file that cannot be parsed counts as unreadable: the defaults are in force
                const Cfg def = defaults();
                expect_cam(0, def.c[0], "after a damaged file that was refused");
                expect_cam(1, def.c[1], "after a damaged file that was refused");
                expect_transform(nullptr);
                sim::count("params.damaged_to_defaults");
            }
            else if (ok != Parameters::is_valid())
                sim::fail("params-report-mismatch", fmt("%s: loading reports %d, the validity flag says %d", label.c_str(), ok, Parameters::is_valid()));
            if (mustBeValid)
            {
                if (!ok)
                    sim::fail("params-good-refused", "a complete valid file is refused");
                expect_cam(0, g.c[0], label.c_str());
                expect_cam(1, g.c[1], label.c_str());
                expect_transform(&g);
            }
            if (ok)
                usable(label.c_str());
            if (mustBeInvalid && ok)
                sim::fail("params-bad-accepted", label + ": an unusable configuration is declared valid");
            if (damaged || mustBeInvalid)
                sim::nontrivial();
        }
        // whatever happened before, falling back to the defaults works
        if (o.chance(0.4))
        {
            Parameters::load_defaut();
            if (!Parameters::is_valid())
                sim::fail("params-default-invalid", "the default configuration is not valid after: " + hist);
            const Cfg def = defaults();
            expect_cam(0, def.c[0], "defaults");
            expect_cam(1, def.c[1], "defaults");
            expect_transform(nullptr);
        }
    }
    sim::stop();
    sim::state(sim::hash_bytes(9, hist.data(), hist.size()));
    sim::sample(hist);
}
