// Keypoint extraction (cells detected in parallel, optical flow) and keypoint association, fed by a faulty camera.
#include "scn.hpp"
#include "sensor.hpp"
#include "world.hpp"
#include "keypoint_detection.hpp"
#include <algorithm>
#include <opencv2/video/tracking.hpp>
#include <set>
#include <map>
#include <memory>
#include <thread>

using features::keypoints::Key_Point_Extraction;
using features::keypoints::Keypoint_Handler;
using features::keypoints::KeypointsWithIdStruct;

namespace {
struct Point
{
    double x, y, z;
    std::string descriptor;
    bool operator<(const Point& o) const { return std::tie(x, y, descriptor) < std::tie(o.x, o.y, o.descriptor); }
};
struct Out
{
    std::vector<Point> found; // with a descriptor, sorted
    std::map<size_t, Point> tracked;
    size_t others = 0;
};
bool same_value(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}

Out examine(const Keypoint_Handler& h, const KeypointsWithIdStruct& asked, const cv::Mat_<float>& depth, const std::string& what)
{
    Out o;
    std::map<size_t, int> index;
    for (size_t i = 0; i < asked.size(); ++i)
    {
        const size_t id = asked.at(i)._id;
        if (const int k = h.get_tracking_match_index(id); k != features::keypoints::INVALID_MATCH_INDEX)
        {
            if (k < 0 || static_cast<size_t>(k) >= h.size())
                sim::fail_now("kp-index", fmt("the tracked point %zu has index %d of %zu (%s)", id, k, h.size(), what.c_str()));
            if (index.count(k))
                sim::fail_now("kp-index-shared", fmt("keypoint %d is the match of two tracked points (%s)", k, what.c_str()));
            index[k] = 1;
            const ScreenCoordinate c = h.get_keypoint(k);
            o.tracked[id] = {c.x(), c.y(), c.z(), ""};
        }
    }
    for (size_t i = 0; i < h.size(); ++i)
    {
        const auto kp = h.at(i);
        Point p {kp._coordinates.x(), kp._coordinates.y(), kp._coordinates.z(), ""};
        if (!(p.x >= 0 && p.y >= 0 && p.x < depth.cols && p.y < depth.rows))
            sim::fail_now("kp-outside", fmt("keypoint (%g, %g) is out of the %dx%d image (%s)", p.x, p.y, depth.cols, depth.rows, what.c_str()));
        const bool border = !(p.x >= 1 && p.y >= 1 && p.x < depth.cols - 1 && p.y < depth.rows - 1);
        const double z = border ? 0.0 : depth(static_cast<int>(std::round(static_cast<float>(p.y))), static_cast<int>(std::round(static_cast<float>(p.x))));
        if (!same_value(z, p.z))
            sim::fail_now("kp-depth", fmt("keypoint (%g, %g) has depth %g, the depth image says %g (%s)", p.x, p.y, p.z, z, what.c_str()));
        if (!kp._descriptor.empty())
        {
            p.descriptor.assign(reinterpret_cast<const char*>(kp._descriptor.ptr<uchar>(0)), kp._descriptor.cols * kp._descriptor.elemSize());
            o.found.push_back(p);
        }
        else if (!index.count(i))
            ++o.others;
    }
    if (o.others > 0)
        sim::fail_now("kp-orphan", fmt("%zu keypoints have no descriptor and are the match of nothing (%s)", o.others, what.c_str()));
    std::sort(o.found.begin(), o.found.end());
    return o;
}

int hamming(const std::string& a, const std::string& b)
{
    int n = 0;
    for (size_t i = 0; i < a.size(); ++i)
        n += __builtin_popcount(static_cast<unsigned char>(a[i] ^ b[i]));
    return n;
}

// association of a projected point against an exhaustive search
// whole: coordinates are integers, distances at the limit are exact
void check_matching(const Keypoint_Handler& h, sim::Rng& r, int w, int hgt, int queries, bool whole = false)
{
    vectorb taken(h.size());
    const double share = r.chance(0.3) ? 0 : r.range(0, 0.9);
    for (Eigen::Index i = 0; i < taken.size(); ++i)
        taken[i] = r.chance(share);
    std::vector<size_t> withDescriptor;
    for (size_t i = 0; i < h.size(); ++i)
        if (h.is_descriptor_computed(i))
            withDescriptor.push_back(i);
    if (withDescriptor.empty())
        return;
    auto bytes = [&](size_t i) {
        const cv::Mat d = h.get_descriptor(i);
        return std::string(reinterpret_cast<const char*>(d.ptr<uchar>(0)), d.cols);
    };
    for (int q = 0; q < queries; ++q)
    {
        const size_t target = withDescriptor[r.below(withDescriptor.size())];
        const ScreenCoordinate t = h.get_keypoint(target);
        ScreenCoordinate2D p;
        if (r.chance(0.7))
            p = ScreenCoordinate2D(t.x() + r.normal() * 20, t.y() + r.normal() * 20);
        else
            p = ScreenCoordinate2D(r.range(-20, w + 20), r.range(-20, hgt + 20));
        const double searched = parameters::matching::matchSearchRadius_px;
        double radius = searched * (r.chance(0.4) ? 2 : 1);
        if (r.chance(0.2))
            radius = r.range(3, 4 * searched);
        if (whole && r.chance(0.3))
        {
            static const int sides[][3] = {{3, 4, 5}, {4, 3, 5}, {-3, 4, 5}, {3, -4, 5}, {-4, -3, 5}, {5, 0, 5}, {0, -5, 5}, {-5, 0, 5}, {0, 5, 5}};
            const auto& side = sides[r.below(9)];
            const int n = 1 + static_cast<int>(r.below(14));
            p = ScreenCoordinate2D(t.x() + side[0] * n, t.y() + side[1] * n);
            radius = side[2] * n;
        }
        cv::Mat d = h.get_descriptor(target).clone();
        for (uint64_t i = r.chance(0.3) ? 0 : r.below(80); i > 0; --i)
            d.ptr<uchar>(0)[r.below(d.cols)] ^= static_cast<uchar>(1 << r.below(8));
        const std::string ds(reinterpret_cast<const char*>(d.ptr<uchar>(0)), d.cols);
        // exhaustive
        int best = -1, b1 = 1 << 20, b2 = 1 << 20;
        size_t candidates = 0;
        bool edge = false;
        for (size_t i: withDescriptor)
        {
            const ScreenCoordinate k = h.get_keypoint(i);
            const double dist = std::hypot(k.x() - p.x(), k.y() - p.y());
            edge |= std::abs(dist - radius) < 1e-3 && !(whole && dist == radius && p.x() == std::floor(p.x()) && p.y() == std::floor(p.y()) && radius == std::floor(radius));
            if (taken[i] || dist > radius)
                continue;
            ++candidates;
            const int hd = hamming(ds, bytes(i));
            if (hd < b1)
                b2 = b1, b1 = hd, best = static_cast<int>(i);
            else
                b2 = std::min(b2, hd);
        }
        if (edge)
            continue;
        const double lim = parameters::matching::maximumMatchDistance * b2;
        if (candidates > 1 && b2 > 0 && std::abs(b1 - lim) < 1e-6)
            continue;
        const bool expected = candidates == 1 || (candidates > 1 && b1 < lim);
        const auto got = h.get_match_indexes(p, d, taken, radius);
        sim::count("kp.queries");
        sim::count("kp.expected_matches", expected);
        for (const auto i: got)
            if (i < 0 || static_cast<size_t>(i) >= h.size())
                sim::fail_now("match-index", fmt("match %d of %zu keypoints", static_cast<int>(i), h.size()));
            else if (taken[i])
                sim::fail_now("match-taken", fmt("keypoint %d is taken and matched again", static_cast<int>(i)));
            else if (const ScreenCoordinate k = h.get_keypoint(i); std::hypot(k.x() - p.x(), k.y() - p.y()) > radius)
                sim::fail_now("match-far", fmt("the match is %g px away from the projected point, the search radius is %g", std::hypot(k.x() - p.x(), k.y() - p.y()), radius));
        if (got.empty() && expected)
            sim::fail_now("match-missed", fmt("a point projected at (%.1f, %.1f) of a %dx%d image has %zu free keypoints within %g px, the nearest of %d bits "
                                              "(second %d), and is not matched",
                                              p.x(), p.y(), w, hgt, candidates, radius, b1, b2));
        if (!got.empty() && !expected)
            sim::fail_now("match-ambiguous", fmt("matched although %d bits against %d for the second of %zu", b1, b2, candidates));
        if (got.size() > 1 || (expected && static_cast<int>(*got.begin()) != best))
            sim::fail_now("match-not-best", fmt("keypoint %d is matched, %d is nearer (%d bits)", static_cast<int>(*got.begin()), best, b1));
    }
}
} // namespace

SCENARIO(keypoints)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("keypoints");
    sim::capture_output(true);
    const int w = 180 + static_cast<int>(r.below(200)), h = 160 + static_cast<int>(r.below(180));
    const double foc = r.range(0.75, 1.1) * std::max(w, h);
    const Cam c {w, h, foc, foc, w * 0.5, h * 0.5};
    load_cameras(c, c, vector3::Zero(), vector3::Zero());
    const world::Camera wc {w, h, foc, foc, w * 0.5, h * 0.5};
    const sim::Knobs sched = sim::knobs();
    const int instances = r.chance(0.25) ? 2 : 1;
    const int frames = 1 + static_cast<int>(r.below(5));
    sim::count("ops.generated", frames);

    sim::start();
    struct Side
    {
        std::unique_ptr<Key_Point_Extraction> kp, ref;
        world::Scene scene;
        std::unique_ptr<world::Trajectory> traj;
        KeypointsWithIdStruct asked;
        cv::Mat rgb, gray, previousGray;
        cv::Mat_<float> depth;
        std::string what;
        bool force = true, frozen = false;
        std::unique_ptr<Keypoint_Handler> got;
    };
    std::vector<Side> sides(instances);
    for (int i = 0; i < instances; ++i)
    {
        sides[i].kp = std::make_unique<Key_Point_Extraction>();
        sides[i].ref = std::make_unique<Key_Point_Extraction>();
        sides[i].scene = world::Scene::make(sim::rng_for(sim::seed(), 5, i));
        sides[i].traj = std::make_unique<world::Trajectory>(sim::rng_for(sim::seed(), 6, i), r.range(20, 200), r.range(0.5, 6));
    }
    std::string hist;
    for (int k = 0; k < frames; ++k)
    {
        if (!sim::op_enabled(k))
            continue;
        for (int i = 0; i < instances; ++i)
        {
            Side& s = sides[i];
            sim::Rng o = sim::rng_for(sim::seed(), 30, k * 10 + i);
            s.previousGray = s.gray;
            s.what.clear();
            s.frozen = !s.gray.empty() && o.chance(0.25);
            if (!s.frozen)
            {
                world::Frame f = world::render(s.scene, wc, s.traj->pos(k) - s.traj->pos(0), s.traj->rot(k));
                if (o.chance(0.3))
                    s.what += "+" + damage_colour(f.rgb, o, s.rgb);
                s.rgb = f.rgb;
                s.depth = f.depth;
                s.gray = cv::Mat(); // the previous one is kept
                cv::cvtColor(f.rgb, s.gray, cv::COLOR_BGR2GRAY);
            }
            else
            {
                s.gray = s.gray.clone();
                s.depth = s.depth.clone();
                s.what += "+same-image";
            }
            if (o.chance(0.3))
                s.what += "+" + damage(s.depth, o);
            s.force = o.chance(0.5);
            hist += (s.what.empty() ? "clean" : s.what) + " ";
        }
        {
            std::vector<std::thread> th;
            for (int i = 0; i < instances; ++i)
                th.emplace_back([&, i] {
                    Side& s = sides[i];
                    s.got = std::make_unique<Keypoint_Handler>(s.kp->compute_keypoints(s.gray, s.depth, s.asked, s.force));
                });
            for (auto& t: th)
                t.join();
        }
        sim::knobs().preempt_p = 0;
        sim::knobs().max_helpers = 0;
        for (int i = 0; i < instances; ++i)
        {
            Side& s = sides[i];
            sim::Rng o = sim::rng_for(sim::seed(), 31, k * 10 + i);
            const Out out = examine(*s.got, s.asked, s.depth, s.what);
            const Keypoint_Handler again = s.ref->compute_keypoints(s.gray, s.depth, s.asked, s.force);
            const Out ref = examine(again, s.asked, s.depth, s.what);
            // neither the schedule of the cells nor another extractor change what is found
            if (out.found.size() != ref.found.size() || out.tracked.size() != ref.tracked.size())
                sim::fail_now("kp-not-repeatable", fmt("%zu new and %zu tracked keypoints, an extractor alone finds %zu and %zu (%s)", out.found.size(), out.tracked.size(),
                                                       ref.found.size(), ref.tracked.size(), s.what.c_str()));
            for (size_t j = 0; j < ref.found.size(); ++j)
                if (out.found[j].x != ref.found[j].x || out.found[j].y != ref.found[j].y || out.found[j].descriptor != ref.found[j].descriptor)
                    sim::fail_now("kp-not-repeatable", fmt("keypoint (%g, %g), an extractor alone finds (%g, %g) (%s)", out.found[j].x, out.found[j].y, ref.found[j].x,
                                                           ref.found[j].y, s.what.c_str()));
            for (auto& [id, p]: ref.tracked)
                if (const auto it = out.tracked.find(id); it == out.tracked.end() || it->second.x != p.x || it->second.y != p.y)
                    sim::fail_now("kp-not-repeatable", fmt("tracked point %zu differs from the one of an extractor alone (%s)", id, s.what.c_str()));
            // new keypoints keep away from the tracked ones
            for (auto& p: out.found)
                for (auto& [id, t]: out.tracked)
                    if (std::hypot(p.x - t.x, p.y - t.y) < parameters::detection::trackedMaskRadius_px - 6)
                        sim::fail_now("kp-detected-twice", fmt("a new keypoint is %g px away from a tracked one (%s)", std::hypot(p.x - t.x, p.y - t.y), s.what.c_str()));
            // a followed point leads back to where it came from
            if (!s.previousGray.empty() && !out.tracked.empty())
            {
                const cv::Size win(static_cast<int>(w / parameters::detection::opticalFlowPyramidWindowSizeWidthCount),
                                   static_cast<int>(h / parameters::detection::opticalFlowPyramidWindowSizeHeightCount));
                std::vector<cv::Mat> pa, pb;
                cv::buildOpticalFlowPyramid(s.previousGray, pa, win, static_cast<int>(parameters::detection::opticalFlowPyramidDepth));
                cv::buildOpticalFlowPyramid(s.gray, pb, win, static_cast<int>(parameters::detection::opticalFlowPyramidDepth));
                std::vector<cv::Point2f> from, back;
                std::vector<cv::Point2f> origin;
                for (size_t j = 0; j < s.asked.size(); ++j)
                    if (const auto it = out.tracked.find(s.asked.at(j)._id); it != out.tracked.end())
                    {
                        from.emplace_back(static_cast<float>(it->second.x), static_cast<float>(it->second.y));
                        origin.push_back(s.asked.at(j)._point);
                    }
                std::vector<uchar> status;
                std::vector<float> err;
                if (!from.empty())
                    cv::calcOpticalFlowPyrLK(pb, pa, from, back, status, err, win, static_cast<int>(parameters::detection::opticalFlowPyramidDepth),
                                             cv::TermCriteria(cv::TermCriteria::COUNT | cv::TermCriteria::EPS, 10, 0.03));
                for (size_t j = 0; j < from.size(); ++j)
                    if (status[j] != 1 || !(cv::norm(back[j] - origin[j]) < parameters::matching::matchSearchRadius_px + 3))
                        sim::fail_now("kp-drifted", fmt("a followed point leads back %.1f px away from where it came from (%s)", status[j] == 1 ? cv::norm(back[j] - origin[j]) : -1.0,
                                                        s.what.c_str()));
                sim::count("kp.followed_back", from.size());
            }
            // the same image again: what was tracked has not moved
            size_t inside = 0;
            if (s.frozen)
            {
                for (size_t j = 0; j < s.asked.size(); ++j)
                {
                    const auto a = s.asked.at(j);
                    const auto it = out.tracked.find(a._id);
                    if (it != out.tracked.end() && !(std::hypot(it->second.x - a._point.x, it->second.y - a._point.y) < 1))
                        sim::fail_now("kp-moved", fmt("the image did not change, a tracked point moved by %g px",
                                                      std::hypot(it->second.x - a._point.x, it->second.y - a._point.y)));
                    inside += a._point.x >= 15 && a._point.y >= 15 && a._point.x < w - 15 && a._point.y < h - 15;
                }
                sim::count("kp.frozen_asked", inside);
                sim::count("kp.frozen_tracked", out.tracked.size());
                if (out.tracked.size() < inside * 0.7)
                    sim::fail_now("kp-lost", fmt("the image did not change, %zu of %zu tracked points are lost", inside - out.tracked.size(), inside));
            }
            if (s.force && s.what.empty() && out.found.size() + out.tracked.size() < 10)
                sim::fail_now("kp-none", fmt("%zu keypoints only in a textured image", out.found.size() + out.tracked.size()));
            sim::count("kp.found", out.found.size());
            sim::count("kp.tracked", out.tracked.size());
            sim::note_max("kp.max_per_frame", out.found.size() + out.tracked.size());
            check_matching(*s.got, o, w, h, 30);
            // what the next frame has to follow: points of this one, and points that just left the image
            s.asked.clear();
            size_t id = 1 + o.below(5);
            for (auto& p: out.found)
                if (o.chance(0.6))
                    s.asked.add(id, p.x, p.y), id += 1 + o.below(3);
            for (auto& [tid, p]: out.tracked)
                if (o.chance(0.6))
                    s.asked.add(id, p.x, p.y), id += 1 + o.below(3);
            for (uint64_t j = o.below(4); j > 0; --j)
                s.asked.add(id, o.range(-15, w + 15), o.chance(0.5) ? o.range(-15, 0) : o.range(h, h + 15)), id += 1 + o.below(3);
            uint64_t hs = 1;
            for (auto& p: out.found)
                hs = sim::hash_double(sim::hash_double(hs, p.x), p.y);
            for (auto& [tid, p]: out.tracked)
                hs = sim::hash_double(sim::hash_double(hs, p.x), p.y);
            sim::mix(hs);
            sim::state(hs);
        }
        sim::knobs() = sched;
    }
    sim::stop();
    sim::nontrivial();
    sim::sample(fmt("%dx%d, %d extractor(s), frames: %s", w, h, instances, hist.c_str()));
}

// the association alone: many keypoints, anywhere, with descriptors that repeat, in a handler that is used again
SCENARIO(matching)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    Parameters::load_defaut();
    sim::set_crash_class("matching");
    sim::capture_output(true);
    sim::start();
    const int w = 100 + static_cast<int>(r.below(900)), h = 100 + static_cast<int>(r.below(900));
    Keypoint_Handler handler(w, h, parameters::matching::maximumMatchDistance);
    const int sets = 1 + static_cast<int>(r.below(4));
    std::set<size_t> before;
    for (int k = 0; k < sets; ++k)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 3, k);
        if (!sim::op_enabled(k))
            continue;
        const int n = o.chance(0.1) ? 0 : static_cast<int>(o.below(o.chance(0.5) ? 20 : 200));
        const bool crowd = o.chance(0.5);
        const double cx = o.range(0, w), cy = o.range(0, h);
        std::vector<cv::Point2f> pts;
        cv::Mat desc;
        cv::Mat_<float> depth(h, w);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                depth(y, x) = static_cast<float>(1 + y * 1000 + x);
        std::vector<cv::Mat> known;
        for (int i = 0; i < n; ++i)
        {
            const double x = crowd ? cx + o.normal() * 60 : o.range(0, w - 1), y = crowd ? cy + o.normal() * 60 : o.range(0, h - 1);
            pts.emplace_back(static_cast<float>(std::round(std::clamp(x, 0.0, w - 1.0))), static_cast<float>(std::round(std::clamp(y, 0.0, h - 1.0))));
            cv::Mat d(1, 32, CV_8U);
            for (int j = 0; j < 32; ++j)
                d.at<uchar>(0, j) = static_cast<uchar>(o.below(256));
            if (!known.empty() && o.chance(0.3))
            {
                d = known[o.below(known.size())].clone(); // repeated texture
                for (uint64_t j = o.chance(0.5) ? 0 : o.below(60); j > 0; --j)
                    d.at<uchar>(0, static_cast<int>(o.below(32))) ^= static_cast<uchar>(1u << o.below(8));
            }
            known.push_back(d);
            desc.push_back(d);
        }
        KeypointsWithIdStruct flowed;
        std::map<size_t, std::pair<double, double>> wanted;
        size_t id = 1 + o.below(100);
        for (uint64_t i = o.below(30); i > 0; --i, id += 1 + o.below(4))
        {
            const double x = std::round(o.range(0, w - 1)), y = std::round(o.range(0, h - 1));
            flowed.add(id, x, y);
            wanted[id] = {x, y};
        }
        handler.set(pts, desc, flowed, depth);
        if (handler.size() != pts.size() + flowed.size())
            sim::fail_now("match-count", fmt("%zu keypoints given, %zu kept", pts.size() + flowed.size(), handler.size()));
        for (size_t j: before)
            if (!wanted.count(j) && handler.get_tracking_match_index(j) != features::keypoints::INVALID_MATCH_INDEX)
                sim::fail_now("match-stale", fmt("point %zu was followed in an earlier image and is still matched", j));
        for (auto& [j, at]: wanted)
        {
            before.insert(j);
            const int i = handler.get_tracking_match_index(j);
            if (i < 0 || static_cast<size_t>(i) >= handler.size() || handler.get_keypoint(i).x() != at.first || handler.get_keypoint(i).y() != at.second)
                sim::fail_now("match-followed", fmt("followed point %zu is not matched with its keypoint", j));
        }
        check_matching(handler, o, w, h, 40, true);
        sim::state(sim::hash_mix(n, wanted.size()));
        sim::mix(sim::hash_mix(n, wanted.size()));
    }
    sim::stop();
    sim::nontrivial();
    sim::sample(fmt("%dx%d, %d sets of keypoints", w, h, sets));
}
