// Depth image preparation and plane detection: data parallel stages fed by a faulty depth sensor.
#include "scn.hpp"
#include "world.hpp"
#include "depth_map_transformation.hpp"
#include "primitive_detection.hpp"
#include "parameters.hpp"
#include "covariances.hpp"
#include <memory>
#include <map>
#include <thread>

using namespace rgbd_slam;
using features::primitives::Depth_Map_Transformation;
using features::primitives::Primitive_Detection;

#include "sensor.hpp"

// ------------------------------------------------------------------ depth rectification and organised cloud
SCENARIO(depth_ops)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("depth");
    sim::capture_output(true);
    const int cell = 1 + static_cast<int>(r.below(12));
    int w = cell * (1 + static_cast<int>(r.below(80 / cell + 1))), h = cell * (1 + static_cast<int>(r.below(60 / cell + 1)));
    if (r.chance(0.3)) // the image is not a whole number of cells
    {
        w += static_cast<int>(r.below(cell));
        h += static_cast<int>(r.below(cell));
    }
    const Cam c1 {w, h, w * r.range(0.7, 1.4), w * r.range(0.7, 1.4), w * r.range(0.4, 0.6), h * r.range(0.4, 0.6)};
    Cam c2 = c1;
    if (r.chance(0.5)) // another sensor than the color one
    {
        c2.fx *= r.range(0.9, 1.1);
        c2.fy *= r.range(0.9, 1.1);
        c2.cx += r.range(-3, 3);
        c2.cy = std::max(0.0, c2.cy + r.range(-3, 3));
        c2.cx = std::max(0.0, c2.cx);
    }
    vector3 t(0, 0, 0), rot(0, 0, 0);
    if (r.chance(0.7))
    {
        t = vector3(r.range(-60, 60), r.range(-20, 20), r.range(-20, 20));
        rot = vector3(r.range(-0.05, 0.05), r.range(-0.05, 0.05), r.range(-0.05, 0.05));
    }
    load_cameras(c1, c2, t, rot);
    const matrix44 T = Parameters::get_camera_2_to_camera_1_transformation();

    sim::start();
    Depth_Map_Transformation op(w, h, cell);
    const int frames = 1 + static_cast<int>(r.below(4));
    sim::count("ops.generated", frames);
    std::string hist;
    cv::Mat_<float> out;
    matrixf cloud;
    for (int k = 0; k < frames; ++k)
    {
        if (!sim::op_enabled(k))
            continue;
        sim::Rng o = sim::rng_for(sim::seed(), 80, k);
        cv::Mat_<float> d(h, w);
        const double z0 = o.range(200, 4000), sx = o.range(-10, 10), sy = o.range(-10, 10), step = o.range(-600, 600);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                d(y, x) = static_cast<float>(std::max(50.0, z0 + sx * x + sy * y + (x > w / 2 ? step : 0) + o.normal()));
        std::string what = "clean";
        if (o.chance(0.6))
            what = damage(d, o);
        hist += what + " ";
        const cv::Mat_<float> input = d.clone();
        auto is_measure = [](float z) { return std::isfinite(z) && z > 0; };

        // ---- rectification: every pixel holds the depth of one of the measures that fall in it
        if (o.chance(0.3)) // the caller keeps its buffers or not
            out = cv::Mat_<float>();
        if (!op.rectify_depth(d, out))
            sim::fail("depth-refused", "the rectification reports a failure");
        if (out.rows != h || out.cols != w)
            sim::fail_now("depth-size", fmt("the rectified image is %dx%d", out.cols, out.rows));
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                if (std::memcmp(&d(y, x), &input(y, x), 4))
                    sim::fail_now("depth-input-changed", "the rectification changed its input image");
        std::vector<std::vector<std::pair<float, bool>>> cand(static_cast<size_t>(w) * h); // depth, surely this pixel
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
            {
                const float z = input(y, x);
                if (!is_measure(z))
                    continue;
                const vector3 p2((x - c2.cx) / c2.fx * z, (y - c2.cy) / c2.fy * z, z);
                const vector3 p1 = (T * p2.homogeneous()).head<3>();
                if (p1.z() <= 0)
                    continue;
                const double u = p1.x() / p1.z() * c1.fx + c1.cx, v = p1.y() / p1.z() * c1.fy + c1.cy;
                const double e = 2e-3;
                const bool sure = std::floor(u - e) == std::floor(u + e) && std::floor(v - e) == std::floor(v + e) && p1.z() > 1e-3 && z > 1e-3f;
                for (double du: {-e, e})
                    for (double dv: {-e, e})
                    {
                        const double a = std::floor(u + du), b = std::floor(v + dv);
                        if (a >= 0 && b >= 0 && a < w && b < h)
                            cand[static_cast<size_t>(b) * w + static_cast<size_t>(a)].push_back({static_cast<float>(p1.z()), sure});
                    }
            }
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
            {
                const float z = out(y, x);
                const auto& c = cand[static_cast<size_t>(y) * w + x];
                bool ok = false, must = false;
                double nearest = 1e30;
                for (auto& q: c)
                {
                    ok |= std::abs(q.first - z) <= 1e-3 * (1 + std::abs(q.first));
                    must |= q.second;
                    if (q.second)
                        nearest = std::min<double>(nearest, q.first);
                }
                if (z == 0)
                    ok = !must || x == 0 || y == 0; // the first row and column are left out by design
                if (!ok)
                    sim::fail_now(z == 0 ? "depth-lost" : "depth-invented",
                                  fmt("pixel (%d, %d) of the rectified image holds %g, %zu measures fall in it (%s)", x, y, z, c.size(), what.c_str()));
                if (z > nearest + 1e-3 * (1 + nearest))
                    sim::fail_now("depth-not-nearest", fmt("pixel (%d, %d) of the rectified image holds %g, a measure at %g falls in it", x, y, z, nearest));
            }
        sim::count("depth.rectified");

        // ---- organised cloud: each cell's points are contiguous, in row order
        cv::Mat_<float> in2 = o.chance(0.5) ? input : out;
        if (o.chance(0.3))
            cloud = matrixf();
        if (!op.get_organized_cloud_array(in2, cloud))
            sim::fail("cloud-refused", "the cloud computation reports a failure");
        const int cw = w / cell, ch = h / cell;
        if (cloud.rows() < static_cast<long>(cw) * ch * cell * cell || cloud.cols() != 3)
            sim::fail_now("cloud-size", fmt("the cloud has %ld rows", static_cast<long>(cloud.rows())));
        for (int y = 0; y < ch * cell; ++y)
            for (int x = 0; x < cw * cell; ++x)
            {
                const long id = (static_cast<long>(y / cell) * cw + x / cell) * cell * cell + (y % cell) * cell + x % cell;
                const float z = in2(y, x);
                if (!is_measure(z))
                {
                    if (std::isfinite(z) || std::isnan(z))
                        if (!(cloud(id, 2) == 0 || std::isnan(cloud(id, 2))))
                            sim::fail_now("cloud-invented", fmt("the cloud holds depth %g for a pixel without measure", cloud(id, 2)));
                    continue;
                }
                const double X = (x - c1.cx) / c1.fx * z, Y = (y - c1.cy) / c1.fy * z;
                if (z < 1e-3f) // too small to tell from no measure
                    continue;
                if (!(std::abs(cloud(id, 0) - X) <= 1e-3 * (1 + std::abs(X)) && std::abs(cloud(id, 1) - Y) <= 1e-3 * (1 + std::abs(Y)) &&
                      cloud(id, 2) == z))
                    sim::fail_now("cloud-point", fmt("pixel (%d, %d) of depth %g became (%g, %g, %g) instead of (%g, %g, %g)", x, y, z, cloud(id, 0),
                                                 cloud(id, 1), cloud(id, 2), X, Y, z));
            }
        sim::count("depth.clouds");
        uint64_t hh = 3;
        for (float v: out)
            hh = sim::hash_double(hh, v);
        sim::mix(hh);
        sim::state(hh);
    }
    sim::stop();
    sim::nontrivial();
    sim::sample(fmt("%dx%d cells of %d, frames: %s", w, h, cell, hist.c_str()));
}

// ------------------------------------------------------------------ plane detection
namespace {
struct RoomPlane
{
    vector3 n; // towards the camera
    double d;  // n.x + d = 0, d > 0
};
struct Room
{
    std::vector<RoomPlane> planes;
    bool pillar = false;
    vector3 pc, pa; // a point and the direction of the axis of the pillar
    double pr = 0;
    bool steps = false; // each plane fills its rectangle of the image and stands apart in depth from its neighbours
    double splitX = 1, splitY = 1;
    int plane_at(double u, double v) const { return (u >= splitX) + (splitX < 1 ? 2 : 1) * (v >= splitY); }
};
double depth_of(const RoomPlane& p, const Cam& c, double x, double y)
{
    const double den = -p.n.dot(vector3((x - c.cx) / c.fx, (y - c.cy) / c.fy, 1));
    return den > 1e-3 ? p.d / den : -1;
}
Room make_steps(sim::Rng& r, const Cam& c)
{
    for (;;)
    {
        Room room;
        room.steps = true;
        if (r.chance(0.7))
            room.splitX = r.range(0.25, 0.75);
        if (r.chance(0.5))
            room.splitY = r.range(0.25, 0.75);
        const int n = (room.splitX < 1 ? 2 : 1) * (room.splitY < 1 ? 2 : 1);
        for (int i = 0; i < n; ++i)
        {
            const double tilt = r.range(0, 50) * M_PI / 180, az = r.chance(0.3) ? -M_PI / 2 + r.range(-0.5, 0.5) : r.range(-M_PI, M_PI);
            vector3 nn(std::sin(tilt) * std::cos(az), std::sin(tilt) * std::sin(az), -std::cos(tilt));
            if (i > 0 && r.chance(0.3))
                nn = room.planes[r.below(i)].n;
            room.planes.push_back({nn, r.range(500, 2300)});
        }
        bool ok = true;
        for (int i = 0; i < n && ok; ++i)
            for (int j = 0; j < i && ok; ++j)
            {
                const double a = std::acos(std::min(1.0, room.planes[i].n.dot(room.planes[j].n))) * 180 / M_PI;
                ok &= a > 30 || (a < 1e-3 && std::abs(room.planes[i].d - room.planes[j].d) > 250);
            }
        // a step in depth all along the borders
        auto gap = [&](double x, double y, double dx, double dy) {
            const RoomPlane &p = room.planes[room.plane_at((x - dx) / c.w, (y - dy) / c.h)], &q = room.planes[room.plane_at((x + dx) / c.w, (y + dy) / c.h)];
            const double a = depth_of(p, c, x, y), b = depth_of(q, c, x, y);
            ok &= a > 100 && b > 100 && a < 3500 && b < 3500 && std::abs(a - b) > 250;
        };
        for (int k = 0; k < 40 && ok; ++k)
        {
            if (room.splitX < 1)
                gap(room.splitX * c.w, (k + 0.5) / 40 * c.h, 1, 0);
            if (room.splitY < 1)
                gap((k + 0.5) / 40 * c.w, room.splitY * c.h, 0, 1);
        }
        if (ok)
            return room;
    }
}
Room make_room(sim::Rng& r, const Cam& c)
{
    if (r.chance(0.6))
        return make_steps(r, c);
    Room room;
    const int n = 1 + static_cast<int>(r.below(5));
    for (int i = 0; i < n; ++i)
    {
        for (int tries = 0; tries < 50; ++tries)
        {
            // the wall in front, then walls all around
            const double tilt = (i == 0 ? r.range(0, 35) : r.range(20, 78)) * M_PI / 180, az = r.range(-M_PI, M_PI);
            const vector3 nn(std::sin(tilt) * std::cos(az), std::sin(tilt) * std::sin(az), -std::cos(tilt));
            const double d = r.range(500, 3000);
            bool ok = true;
            for (auto& p: room.planes) // two walls make an angle that the detector is meant to see
                ok &= std::acos(std::min(1.0, p.n.dot(nn))) > 35 * M_PI / 180;
            if (ok)
            {
                room.planes.push_back({nn, d});
                break;
            }
        }
    }
    if (r.chance(0.25))
    {
        room.pillar = true;
        room.pr = r.range(80, 300);
        room.pc = vector3(r.range(-300, 300), r.range(-200, 200), r.range(700, 1400));
        room.pa = vector3(r.range(-0.3, 0.3), 1, r.range(-0.3, 0.3)).normalized();
        if (r.chance(0.3))
            room.pa = vector3(1, r.range(-0.3, 0.3), r.range(-0.3, 0.3)).normalized();
    }
    return room;
}
// depth image of the room and, for every pixel, the plane seen (-1: none, -2: the pillar)
void take_depth(const Room& room, const Cam& c, double noise, sim::Rng& r, cv::Mat_<float>& d, cv::Mat_<int>& label)
{
    d = cv::Mat_<float>::zeros(c.h, c.w);
    label = cv::Mat_<int>(c.h, c.w, -1);
    for (int y = 0; y < c.h; ++y)
        for (int x = 0; x < c.w; ++x)
        {
            const vector3 dir((x - c.cx) / c.fx, (y - c.cy) / c.fy, 1);
            double best = 5900;
            int l = -1;
            for (size_t i = 0; i < room.planes.size(); ++i)
            {
                if (room.steps && room.plane_at(static_cast<double>(x) / c.w, static_cast<double>(y) / c.h) != static_cast<int>(i))
                    continue;
                const double den = -room.planes[i].n.dot(dir);
                if (den <= 1e-6)
                    continue;
                const double z = room.planes[i].d / den;
                if (z < best)
                    best = z, l = static_cast<int>(i);
            }
            if (room.pillar)
            {
                const vector3 u = dir - room.pa * room.pa.dot(dir), o = -(room.pc - room.pa * room.pa.dot(room.pc));
                const double A = u.dot(u), B = u.dot(o), C = o.dot(o) - room.pr * room.pr, D = B * B - A * C;
                if (D > 0)
                {
                    const double z = (-B - std::sqrt(D)) / A;
                    if (z > 50 && z < best)
                        best = z, l = -2;
                }
            }
            label(y, x) = l;
            if (l != -1)
                d(y, x) = static_cast<float>(best + noise * std::max(0.5, 1e-3 * best) * (r.uniform() - 0.5));
        }
}
struct Found
{
    std::vector<vector4> params;
    std::vector<double> areas;
    std::vector<size_t> corners;
    std::vector<std::string> bad;
    std::vector<double> radius;
    size_t cylinders = 0;
    uint64_t h = 1;
};
Found examine(const features::primitives::plane_container& planes, const features::primitives::cylinder_container& cylinders)
{
    Found f;
    for (auto& p: planes)
    {
        const vector3 n = p.get_normal();
        const double d = p.get_d();
        vector4 v;
        v << n, d;
        f.params.push_back(v);
        if (!(std::abs(n.norm() - 1) < 1e-6) || !std::isfinite(d))
            f.bad.push_back(fmt("plane-not-unit|normal (%g, %g, %g), d %g", n.x(), n.y(), n.z(), d));
        else if (d < -1e-9)
            f.bad.push_back(fmt("plane-away|normal (%g, %g, %g), d %g: it does not look at the camera", n.x(), n.y(), n.z(), d));
        const CameraPolygon poly = p.get_boundary_polygon();
        const auto pts = poly.get_unprojected_boundary();
        f.corners.push_back(pts.size());
        f.areas.push_back(poly.get_area());
        if (pts.size() < 4 || !(poly.get_area() > 0))
            f.bad.push_back(fmt("plane-no-boundary|%zu corners, area %g", pts.size(), poly.get_area()));
        std::string why;
        if (!poly.is_valid(why))
            f.bad.push_back("plane-bad-boundary|" + why);
        for (auto& q: pts)
        {
            f.h = sim::hash_matrix(f.h, q);
            const double off = n.dot(q) + d;
            if (!(std::abs(off) < 1e-3 * (1 + q.norm()) + 0.5))
            {
                f.bad.push_back(fmt("plane-boundary-off|a corner lies %g mm away from the plane", off));
                break;
            }
        }
        if (!utils::is_covariance_valid(p.get_point_cloud_covariance()))
            f.bad.push_back("plane-covariance|the covariance of its points is not valid");
        f.h = sim::hash_matrix(f.h, v);
    }
    f.cylinders = cylinders.size();
    for (auto& c: cylinders)
    {
        f.radius.push_back(c._radius);
        if (!(std::isfinite(c._radius) && c._radius > 0) || !(std::abs(c._normal.norm() - 1) < 1e-6))
            f.bad.push_back(fmt("cylinder-bad|radius %g, axis of length %g", c._radius, c._normal.norm()));
    }
    return f;
}
} // namespace

SCENARIO(planes_detect)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("detect");
    sim::capture_output(true);
    const int w = 20 * (6 + static_cast<int>(r.below(11))), h = 20 * (5 + static_cast<int>(r.below(8)));
    const Cam c {w, h, w * r.range(0.75, 1.3), w * r.range(0.75, 1.3), w * r.range(0.45, 0.55), h * r.range(0.45, 0.55)};
    load_cameras(c, c, vector3::Zero(), vector3::Zero());
    const sim::Knobs sched = sim::knobs();

    sim::start();
    Depth_Map_Transformation op(w, h, 20);
    const int instances = r.chance(0.3) ? 2 : 1; // two cameras, each with its detector
    std::vector<std::unique_ptr<Primitive_Detection>> dets, fresh;
    const int frames = 1 + static_cast<int>(r.below(5));
    for (int i = 0; i < instances; ++i)
        dets.push_back(std::make_unique<Primitive_Detection>(w, h));
    for (int i = 0; i < instances * frames; ++i)
        fresh.push_back(std::make_unique<Primitive_Detection>(w, h));
    sim::count("ops.generated", frames);
    std::string hist;
    for (int k = 0; k < frames; ++k)
    {
        if (!sim::op_enabled(k))
            continue;
        struct In
        {
            Room room;
            cv::Mat_<float> d;
            cv::Mat_<int> label;
            std::string what = "clean";
            double noise = 0;
            matrixf cloud;
            Found out;
        };
        std::vector<In> in(instances);
        for (int i = 0; i < instances; ++i)
        {
            sim::Rng o = sim::rng_for(sim::seed(), 90, k * 10 + i);
            In& f = in[i];
            f.room = make_room(o, c);
            f.noise = o.chance(0.2) ? 0 : o.chance(0.3) ? o.range(0, 0.3) : o.range(0.3, 1);
            take_depth(f.room, c, f.noise, o, f.d, f.label);
            if (o.chance(0.5))
            {
                f.what = damage(f.d, o);
                if (o.chance(0.3))
                    f.what += "+" + damage(f.d, o);
            }
            hist += f.what + " ";
            if (!op.get_organized_cloud_array(f.d, f.cloud))
                sim::fail_now("detect-cloud", "no cloud");
        }
        auto run = [&](Primitive_Detection& det, In& f, Found& out) {
            features::primitives::plane_container planes;
            features::primitives::cylinder_container cylinders;
            det.find_primitives(f.cloud, f.d, planes, cylinders);
            out = examine(planes, cylinders);
        };
        {
            std::vector<std::thread> th;
            for (int i = 0; i < instances; ++i)
                th.emplace_back([&, i] { run(*dets[i], in[i], in[i].out); });
            for (auto& t: th)
                t.join();
        }
        sim::knobs().preempt_p = 0;
        sim::knobs().max_helpers = 0;
        for (int i = 0; i < instances; ++i)
        {
            In& f = in[i];
            Found ref;
            std::thread([&] { run(*fresh[k * instances + i], f, ref); }).join();
            for (auto& b: f.out.bad)
            {
                const size_t bar = b.find('|');
                sim::fail(b.substr(0, bar), b.substr(bar + 1) + " (" + f.what + ")");
            }
            // the same image gives the same planes, whatever was detected before and whoever runs meanwhile
            if (f.out.params.size() != ref.params.size() || f.out.cylinders != ref.cylinders)
                sim::fail_now("detect-not-repeatable", fmt("%zu planes and %zu cylinders, a new detector alone finds %zu and %zu (%s)", f.out.params.size(),
                                                           f.out.cylinders, ref.params.size(), ref.cylinders, f.what.c_str()));
            for (size_t j = 0; j < ref.params.size(); ++j)
            {
                // (each copy of a plane normalises it again: the last bits depend on the reallocations of its container)
                if (!((f.out.params[j] - ref.params[j]).norm() <= 1e-9 * (1 + std::abs(ref.params[j][3]))))
                    sim::fail_now("detect-not-repeatable", fmt("plane %zu differs by %g from the one of a new detector alone (%s)", j,
                                                               (f.out.params[j] - ref.params[j]).norm(), f.what.c_str()));
                if (!(std::abs(f.out.areas[j] - ref.areas[j]) <= 1e-6 * ref.areas[j] + 1e-2) || f.out.corners[j] != ref.corners[j])
                    sim::fail_now("detect-boundary-not-repeatable",
                                  fmt("plane %zu has %zu corners and area %g, %zu and %g with a new detector alone (%s)", j, f.out.corners[j],
                                      f.out.areas[j], ref.corners[j], ref.areas[j], f.what.c_str()));
            }
            sim::count("detect.planes", ref.params.size());
            sim::count("detect.cylinders", ref.cylinders);
            // ---- against the room
            if (f.what == "clean" && f.room.steps && f.noise > 0.3)
            {
                const int cw = w / 20, ch = h / 20;
                std::vector<int> pure(f.room.planes.size(), 0);
                std::vector<int> x0(pure.size(), 999), x1(pure.size(), -1), y0(pure.size(), 999), y1(pure.size(), -1);
                for (int y = 0; y < ch; ++y)
                    for (int x = 0; x < cw; ++x)
                    {
                        const int l = f.label(y * 20, x * 20);
                        bool same = l >= 0;
                        for (int a = 0; a < 20 && same; ++a)
                            for (int b = 0; b < 20; ++b)
                            {
                                const int yy = y * 20 + a, xx = x * 20 + b;
                                same &= f.label(yy, xx) == l;
                                const double q = 2 * utils::get_depth_quantization(f.d(yy, xx)); // seen well enough
                                same &= !(b > 0 && std::abs(f.d(yy, xx) - f.d(yy, xx - 1)) > q) && !(a > 0 && std::abs(f.d(yy, xx) - f.d(yy - 1, xx)) > q);
                            }
                        if (same)
                        {
                            ++pure[l];
                            x0[l] = std::min(x0[l], x), x1[l] = std::max(x1[l], x), y0[l] = std::min(y0[l], y), y1[l] = std::max(y1[l], y);
                        }
                    }
                // surface seen of each plane, the part of it between the centers of its outermost cells, and what was reported (mm2)
                std::vector<double> surface(pure.size(), 0), inner(pure.size(), 0), reported(pure.size(), 0);
                for (int y = 0; y < ch * 20; ++y)
                    for (int x = 0; x < cw * 20; ++x)
                        if (const int l = f.label(y, x); l >= 0)
                        {
                            const double s =
                                    f.d(y, x) * f.d(y, x) / (c.fx * c.fy) / -f.room.planes[l].n.dot(vector3((x - c.cx) / c.fx, (y - c.cy) / c.fy, 1));
                            surface[l] += s;
                            if (x >= x0[l] * 20 + 10 && x < x1[l] * 20 + 10 && y >= y0[l] * 20 + 10 && y < y1[l] * 20 + 10)
                                inner[l] += s;
                        }
                for (size_t j = 0; j < ref.params.size(); ++j)
                {
                    const vector3 n = ref.params[j].head<3>();
                    int best = -1;
                    double bestA = 0, bestD = 0;
                    for (size_t q = 0; q < f.room.planes.size(); ++q)
                    {
                        const double a = std::acos(std::min(1.0, std::max(-1.0, n.dot(f.room.planes[q].n)))) * 180 / M_PI;
                        const double dd = std::abs(ref.params[j][3] - f.room.planes[q].d);
                        if (best < 0 || a / 10 + dd / 200 < bestA / 10 + bestD / 200)
                            bestA = a, bestD = dd, best = static_cast<int>(q);
                    }
                    if (ref.areas[j] > 10000 && (bestA > 5 || bestD > 150))
                        sim::fail_now("detect-invented", fmt("a plane of %.0f mm2 is %g degrees and %g mm away from any plane of the room", ref.areas[j], bestA, bestD));
                    reported[best] += ref.areas[j];
                }
                for (size_t q = 0; q < f.room.planes.size(); ++q)
                {
                    if (pure[q] < 0.25 * cw * ch)
                        continue;
                    sim::count("detect.large");
                    if (reported[q] == 0)
                        sim::fail_now("detect-missed", fmt("a plane that fills %d of the %d cells is not detected", pure[q], cw * ch));
                    const int bw = x1[q] - x0[q] + 1, bh = y1[q] - y0[q] + 1;
                    if (pure[q] == bw * bh && bw > 1 && bh > 1 && !(reported[q] > 0.1 * inner[q] && reported[q] < 1.25 * surface[q]))
                        sim::fail_now("detect-boundary", fmt("the boundary of a plane covers %.0f mm2, %.0f mm2 of it are seen (%.0f within %dx%d cells)",
                                                             reported[q], surface[q], inner[q], bw, bh));
                }
            }
            sim::mix(f.out.h);
            sim::state(f.out.h);
        }
        sim::knobs() = sched;
    }
    sim::stop();
    sim::nontrivial();
    sim::sample(fmt("%dx%d, %d detector(s), frames: %s", w, h, instances, hist.c_str()));
}
