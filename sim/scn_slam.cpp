// The whole system: RGBD_SLAM fed by a synthetic camera with a faulty sensor, its detectors running on their own threads.
#include "scn.hpp"
#include "sensor.hpp"
#include "world.hpp"
#include "covariances.hpp"
#include "rgbd_slam.hpp"
#include <memory>
#include <opencv2/imgproc.hpp>
#include <thread>

namespace {
struct Step
{
    world::Frame f;
    Eigen::Vector3d p;
    Eigen::Quaterniond q;
};
double deg(const quaternion& a, const Eigen::Quaterniond& b)
{
    return 2 * std::acos(std::min(1.0, std::abs(a.dot(b)))) * 180 / M_PI;
}
uint64_t pose_hash(const utils::Pose& p)
{
    uint64_t h = sim::hash_matrix(1, p.get_position());
    h = sim::hash_matrix(h, p.get_orientation_quaternion().coeffs());
    return sim::hash_matrix(h, p.get_pose_variance());
}

Cam CAM {320, 240, 275, 275, 160, 120};
world::Camera WCAM;
void set_camera(sim::Rng r)
{
    if (r.chance(0.5))
    {
        const int w = 20 * (9 + static_cast<int>(r.below(11))) + (r.chance(0.2) ? static_cast<int>(r.below(20)) : 0);
        const int h = 20 * (8 + static_cast<int>(r.below(8))) + (r.chance(0.2) ? static_cast<int>(r.below(20)) : 0);
        const double f = r.range(0.75, 1.1) * std::max(w, h);
        CAM = {w, h, f, f * r.range(0.97, 1.03), w * r.range(0.47, 0.53), h * r.range(0.47, 0.53)};
        WCAM = {CAM.w, CAM.h, CAM.fx, CAM.fy, CAM.cx, CAM.cy};
    }
    load_cameras(CAM, CAM, vector3::Zero(), vector3::Zero());
}

// a sequence of frames; the k-th one is hit by faults when operation k is enabled
struct Sequence
{
    std::vector<Step> steps;
    std::vector<std::string> what; // "clean", "blackout" or the faults
    std::string text() const
    {
        std::string t;
        for (auto& w: what)
            t += w + " ";
        return t;
    }
};
void noisy(Step& s, sim::Rng& r, double sigma) // depth noise that grows with the square of the distance
{
    if (sigma > 0)
        for (auto& d: s.f.depth)
            if (d > 0)
                d = std::max(1.f, d + static_cast<float>(r.normal() * sigma * d * d / 1e6));
}
void blackout(Step& s)
{
    s.f.rgb.setTo(cv::Scalar(0, 0, 0));
    s.f.depth.setTo(0.f);
    sim::count("fault.blackout");
}

void check_pose(const utils::Pose& p, int k, const std::string& what)
{
    const vector3 x = p.get_position();
    const quaternion q = p.get_orientation_quaternion();
    const matrix66 v = p.get_pose_variance();
    if (!x.allFinite() || !q.coeffs().allFinite())
        sim::fail("slam-pose-undefined", fmt("frame %d (%s): position (%g, %g, %g)", k, what.c_str(), x.x(), x.y(), x.z()));
    else if (!(std::abs(q.norm() - 1) < 1e-6))
        sim::fail("slam-pose-not-rotation", fmt("frame %d (%s): orientation of norm %.12g", k, what.c_str(), q.norm()));
    const double scale = v.cwiseAbs().maxCoeff();
    if (!v.allFinite() || !((v - v.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * scale) ||
        !(Eigen::SelfAdjointEigenSolver<matrix66>(0.5 * (v + v.transpose())).eigenvalues().minCoeff() >= -1e-9 * scale))
        sim::fail("slam-pose-covariance", fmt("frame %d (%s): the covariance of the pose is no covariance (largest %g)", k, what.c_str(), scale));
}
uint64_t file_hash(const std::string& path)
{
    const std::string s = slurp(path);
    return sim::hash_bytes(s.size() + 1, s.data(), s.size());
}
// the debug image is tinted red while the tracking is lost: more than three frames in a row without a pose, until one has a pose again
struct Lost
{
    bool first = true, lost = true;
    int fails = 0;
    void frame(bool found)
    {
        if (found)
            lost = false, fails = 0;
        else if (!first)
            lost = ++fails > 3;
        first = false;
    }
    void check(const cv::Mat& debug, const cv::Mat& input, int k, const std::string& what) const
    {
        if (debug.size() != input.size() || debug.type() != input.type())
        {
            sim::fail("slam-debug-image", "the debug image has another size");
            return;
        }
        int darkest = 255, dark = 0; // features are drawn on it, not everywhere
        for (int y = 0; y < debug.rows; ++y)
            for (int x = 0; x < debug.cols; ++x)
            {
                darkest = std::min<int>(darkest, debug.at<cv::Vec3b>(y, x)[2]);
                dark += input.at<cv::Vec3b>(y, x)[2] < 30;
            }
        if (dark < 500)
            return;
        if ((darkest >= 45) != lost)
            sim::fail("slam-lost-flag", fmt("frame %d (%s): tracking is %s, %d frames failed in a row, the debug image says it is %s", k, what.c_str(), lost ? "lost" : "not lost", fails,
                                            lost ? "not" : "lost"));
        sim::count(lost ? "slam.lost_images" : "slam.tracked_images");
    }
};
bool same_pose(const utils::Pose& a, const utils::Pose& b)
{
    return a.get_position() == b.get_position() && a.get_orientation_quaternion().coeffs() == b.get_orientation_quaternion().coeffs() &&
           a.get_pose_variance() == b.get_pose_variance();
}
} // namespace


namespace {
Sequence faulty_sequence(sim::Rng& r, int n, double faultShare)
{
    Sequence q;
    world::Scene scene = world::Scene::make(sim::rng_for(sim::seed(), 5));
    world::Trajectory traj(sim::rng_for(sim::seed(), 6), r.range(20, 200), r.range(0.5, 8));
    const double sigma = r.chance(0.3) ? 0 : r.range(0.2, 3);
    double t = 0;
    cv::Mat previous;
    int until = 0;
    bool dark = false;
    for (int k = 0; k < n; ++k)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 20, k);
        t += 1;
        Step s;
        const bool on = sim::op_enabled(k);
        std::string w;
        if (on && o.chance(faultShare * 0.1))
        {
            t += o.range(2, 20), w += "+dropped-frames";
            sim::count("fault.dropped_frames");
        }
        if (on && o.chance(faultShare * 0.03)) // the camera is carried elsewhere
        {
            scene = world::Scene::make(sim::rng_for(sim::seed(), 21, k));
            w += "+other-place";
            sim::count("fault.other_place");
        }
        s.p = traj.pos(t) - traj.pos(0);
        s.q = traj.rot(t);
        s.f = world::render(scene, WCAM, s.p, s.q);
        noisy(s, o, sigma);
        const cv::Mat clean = s.f.rgb.clone();
        if (on && k >= until && o.chance(faultShare * 0.15)) // a fault that lasts
        {
            until = k + 1 + static_cast<int>(o.below(8));
            dark = o.chance(0.7);
        }
        const bool lasting = on && k < until;
        if (lasting && dark)
        {
            blackout(s);
            w = "blackout";
        }
        else
        {
            if (on && (lasting || o.chance(faultShare * 0.4)))
                for (uint64_t i = 1 + o.below(2); i > 0; --i)
                    w += "+" + damage(s.f.depth, o);
            if (on && (lasting || o.chance(faultShare * 0.3)))
                w += "+" + damage_colour(s.f.rgb, o, previous);
        }
        previous = clean;
        q.what.push_back(w.empty() ? "clean" : w);
        q.steps.push_back(s);
    }
    sim::count("ops.generated", n);
    return q;
}
} // namespace

// any history of a faulty sensor: every frame gives a usable pose, a frame without information leaves it where it was
SCENARIO(slam_fault)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("slam");
    sim::capture_output(true);
    set_camera(sim::rng_for(sim::seed(), 4));
    const int n = 3 + static_cast<int>(r.below(r.chance(0.2) ? 40 : 16));
    const Sequence q = faulty_sequence(r, n, r.chance(0.2) ? 0 : r.range(0.1, 1));
    sim::start();
    {
        RGBD_SLAM slam(utils::Pose(q.steps[0].p, q.steps[0].q), CAM.w, CAM.h);
        utils::Pose last(q.steps[0].p, q.steps[0].q);
        Lost lost;
        for (int k = 0; k < n; ++k)
        {
            const Step& s = q.steps[k];
            const utils::Pose p = slam.track(s.f.rgb, s.f.depth);
            check_pose(p, k, q.what[k]);
            if (q.what[k] == "blackout")
            {
                sim::count("slam.blackout_frames");
                if (!same_pose(p, last))
                    sim::fail("slam-moved-blind", fmt("frame %d has no information at all, the pose moved by %g mm, %g degrees", k,
                                                      (p.get_position() - last.get_position()).norm(), deg(p.get_orientation_quaternion(), last.get_orientation_quaternion())));
            }
            if (!same_pose(p, last))
                sim::count("slam.poses_found");
            lost.frame(!same_pose(p, last));
            last = p;
            sim::mix(pose_hash(p));
            sim::state(pose_hash(p));
            if (r.chance(0.4))
                lost.check(slam.get_debug_image(p, s.f.rgb, r.range(-0.1, 0.3), r.chance(0.5)), s.f.rgb, k, q.what[k]);
            sim::advance_clock(0.033);
        }
        if (r.chance(0.2))
            slam.show_statistics(0.1);
    }
    sim::mix(file_hash("out.obj"));
    sim::stop();
    sim::nontrivial();
    sim::sample(q.text());
}

// MAKE_DETERMINISTIC: the same images give the same poses and the same map, whatever the schedule, the clock and the addresses
SCENARIO(slam_repeat)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("slam");
    sim::capture_output(true);
    set_camera(sim::rng_for(sim::seed(), 4));
    const int n = 4 + static_cast<int>(r.below(16));
    const Sequence q = faulty_sequence(r, n, r.chance(0.5) ? 0 : r.range(0.05, 0.5));
    auto sequence = [&] {
        std::string out;
        auto put = [&](uint64_t h) { out.append(reinterpret_cast<const char*>(&h), 8); };
        sim::start();
        {
            RGBD_SLAM slam(utils::Pose(q.steps[0].p, q.steps[0].q), CAM.w, CAM.h);
            for (int k = 0; k < n; ++k)
            {
                put(pose_hash(slam.track(q.steps[k].f.rgb, q.steps[k].f.depth)));
                sim::advance_clock(0.033);
            }
        }
        put(file_hash("out.obj"));
        sim::stop();
        return out;
    };
    const std::string ref = sim::reference([&] {
        sim::advance_clock(86400);
        return sequence();
    });
    // another layout of the memory
    std::vector<std::unique_ptr<char[]>> junk;
    for (uint64_t i = r.below(200); i > 0; --i)
    {
        junk.push_back(std::make_unique<char[]>(16 + r.below(400)));
        if (r.chance(0.4))
            junk[r.below(junk.size())].reset();
    }
    const std::string out = sequence();
    for (int k = 0; k <= n; ++k)
        if (ref.compare(k * 8, 8, out, k * 8, 8) != 0)
            sim::fail_now(k < n ? "slam-not-repeatable" : "slam-map-not-repeatable",
                          fmt("%s differs between two executions of the same %d frames (%s)", k < n ? fmt("the pose of frame %d", k).c_str() : "the map file", n,
                              q.text().c_str()));
    sim::mix_bytes(out.data(), out.size());
    for (int k = 0; k < n; ++k)
    {
        uint64_t h;
        memcpy(&h, out.data() + k * 8, 8);
        sim::state(h);
    }
    sim::nontrivial();
    sim::sample(q.text());
}

// few small frames: the memory accesses of the whole system, with one or two of them in the process
SCENARIO(slam_race)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::knobs().preempt_p = std::min(sim::knobs().preempt_p, 0.002);
    sim::set_crash_class("slam");
    sim::capture_output(true);
    const double f = r.range(140, 180);
    CAM = {180, 160, f, f, 90, 80};
    WCAM = {CAM.w, CAM.h, CAM.fx, CAM.fy, CAM.cx, CAM.cy};
    load_cameras(CAM, CAM, vector3::Zero(), vector3::Zero());
    const int n = 2 + static_cast<int>(r.below(3));
    const Sequence q = faulty_sequence(r, n, r.chance(0.6) ? 0 : r.range(0.1, 1));
    const int instances = r.chance(0.35) ? 2 : 1;
    sim::start();
    {
        std::vector<std::unique_ptr<RGBD_SLAM>> slams;
        for (int i = 0; i < instances; ++i)
            slams.push_back(std::make_unique<RGBD_SLAM>(utils::Pose(q.steps[0].p, q.steps[0].q), CAM.w, CAM.h));
        std::vector<std::thread> th;
        for (int i = 0; i < instances; ++i)
            th.emplace_back([&, i] {
                for (int k = 0; k < n; ++k)
                    std::ignore = slams[i]->track(q.steps[k].f.rgb, q.steps[k].f.depth);
            });
        for (auto& t: th)
            t.join();
    }
    sim::stop();
    sim::nontrivial();
    sim::sample(fmt("%d system(s): ", instances) + q.text());
}

namespace {
// one walk of n frames through a room; during a fault window the camera is held still. The worst error before and the error after.
struct Walk
{
    double mm = 0, degrees = 0, path = 0;
    size_t vertices = 0, away = 0; // of the map file, and those far from any surface of the room
    double median = 0;             // distance of the vertices to the room
    std::string text;
};
double to_surface(const world::Scene& s, const Eigen::Vector3d& x)
{
    double best = 1e18;
    for (auto& q: s.quads)
    {
        const Eigen::Vector3d d = x - q.o;
        const double a = std::clamp(d.dot(q.u), 0.0, q.lu), b = std::clamp(d.dot(q.v), 0.0, q.lv);
        best = std::min(best, (d - a * q.u - b * q.v).norm());
    }
    return best;
}
Walk walk(uint64_t number, bool still, bool blackedOut)
{
    sim::Rng r = sim::rng_for(sim::seed(), 30, number);
    const int n = 12 + static_cast<int>(r.below(9));
    const world::Scene scene = world::Scene::make(sim::rng_for(sim::seed(), 31, number));
    const world::Trajectory traj(sim::rng_for(sim::seed(), 32, number), still ? 0 : r.range(400, 900), still ? 0 : r.range(1, 10));
    const double sigma = r.range(0, 1);
    // the window of faults
    const int from = blackedOut ? 4 + static_cast<int>(r.below(5)) : n, length = r.chance(0.3) ? 11 + static_cast<int>(r.below(5)) : 1 + static_cast<int>(r.below(6)); // 11: nothing is left in the map
    Walk w;
    w.text = fmt("%s, %d frames, noise %.2f", still ? "still camera" : "moving camera", n, sigma);
    if (from < n)
        w.text += fmt(", %d frames blacked out from frame %d", length, from);
    double t = 0;
    const Eigen::Vector3d p0 = traj.pos(0);
    auto slam = std::make_unique<RGBD_SLAM>(utils::Pose(vector3::Zero(), traj.rot(0)), CAM.w, CAM.h);
    utils::Pose last;
    for (int k = 0; k < n + (from < n ? length + 4 : 0); ++k)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 33, number * 100 + k);
        const bool blind = k >= from && k < from + length;
        if (k > 0 && !(k >= from && k < from + length + 4))
            t += 1;
        Step s;
        s.p = traj.pos(t) - p0;
        s.q = traj.rot(t);
        s.f = world::render(scene, WCAM, s.p, s.q);
        noisy(s, o, sigma);
        if (blind)
            blackout(s);
        const utils::Pose p = slam->track(s.f.rgb, s.f.depth);
        check_pose(p, k, w.text);
        if (blind && !same_pose(p, last))
            sim::fail("pose-moved-blind", fmt("frame %d has no information at all, the pose moved (%s)", k, w.text.c_str()));
        last = p;
        w.path = std::max(w.path, s.p.norm());
        if (!(k >= from && k < from + length + 4))
        {
            w.mm = std::max(w.mm, (p.get_position() - s.p).norm());
            w.degrees = std::max(w.degrees, deg(p.get_orientation_quaternion(), s.q));
        }
        sim::mix(pose_hash(p));
        sim::state(pose_hash(p));
        sim::advance_clock(0.033);
    }
    slam.reset(); // writes the map
    std::istringstream map(slurp("out.obj"));
    std::vector<double> ds;
    for (std::string l; std::getline(map, l);)
        if (Eigen::Vector3d v; sscanf(l.c_str(), "v %lf %lf %lf", &v[0], &v[1], &v[2]) == 3)
        {
            ++w.vertices;
            const double d = to_surface(scene, Eigen::Vector3d(-v.y(), -v.z(), v.x())); // the map is written x forward, y left, z up
            ds.push_back(d);
            w.away += !(d <= 200);
        }
    std::sort(ds.begin(), ds.end());
    w.median = ds.empty() ? 0 : ds[ds.size() / 2];
    w.text += fmt(": poses off by up to %.0f mm, %.2f degrees, %zu vertices in the map, half of them within %.0f mm of the room, %zu far away", w.mm, w.degrees, w.vertices, w.median, w.away);
    return w;
}
}
// A walk may fail by itself (few features, ambiguous planes: about one in fifty): the same kind of walk is tried in another room, and
// another; three in a row are no accident.
SCENARIO(slam_track)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("slam");
    sim::capture_output(true);
    load_cameras(CAM, CAM, vector3::Zero(), vector3::Zero());
    WCAM = {CAM.w, CAM.h, CAM.fx, CAM.fy, CAM.cx, CAM.cy};
    const bool still = r.chance(0.15), dark = r.chance(0.5);
    bool lost = true, off = true;
    Walk w;
    sim::start();
    for (int i = 0; i < 3 && (lost || off); ++i)
    {
        w = walk(i, still, dark);
        const bool lostNow = !(w.mm <= (still ? 25 : 180)) || !(w.degrees <= (still ? 0.6 : 2));
        const bool offNow = w.vertices < 30 || !(w.median <= 50) || w.away > 0.12 * static_cast<double>(w.vertices);
        if (lostNow)
            sim::count("slam.walks_lost");
        if (offNow)
            sim::count("slam.maps_off");
        lost = lost && lostNow;
        off = off && offNow;
        sim::count("slam.walks");
    }
    if (lost)
        sim::fail("pose-lost", "the poses do not follow the camera in three rooms in a row, the last: " + w.text);
    if (off)
        sim::fail("map-off", "the map does not match the room in three rooms in a row, the last: " + w.text);
    sim::stop();
    sim::nontrivial();
    sim::sample(w.text);
}
