// C14: the real points, inverse depth points and planes of the real map, fed with detections of a known world: dropouts, depth that
// fails, decoys, gross errors found by the optimisation, untracked frames, resets.
#include "scn.hpp"
#include "map_management/local_map.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "parameters.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <map>
#include <memory>
using namespace rgbd_slam;
using namespace rgbd_slam::map_management;
using features::keypoints::KeypointsWithIdStruct;
using features::primitives::Plane_Segment;

namespace {
using Map = Local_Map<localPoint2DMap, localPointMap, localPlaneMap>;

struct Mark // a landmark: a point with a descriptor of its own
{
    vector3 w;
    cv::Mat desc;
    int kind; // 0: depth always measured, 1: never, 2: sometimes
    int run = 0;      // consecutive frames that are detected, tracked and unharmed
    int depthRun = 0; // same, with a valid depth
    int clean = 0;    // frames in which it was harmed: its position is not compared any more
    bool dup = false; // may be in the map more than once
    int everLocal = 0;
    int decoy = -9;
    int described = -9; // last frame that gave its descriptor to the map
    int unseen = 0; // consecutive frames without a match that counts
};
struct Board // a plane with a rectangular boundary
{
    vector3 c, u, v, n;
    double lu, lv; // half sizes
    int run = 0;
    double seenArea = 0;
    bool dup = false;
    int everLocal = 0;
    int unseen = 0;
    int twin = -1;     // a parallel plane that overlaps it
    bool sure = true;  // false: may have been taken for its twin
};
struct Eye
{
    vector3 p;
    quaternion q;
};
CameraToWorldMatrix c2w_of(const Eye& e) { return utils::compute_camera_to_world_transform(e.q, e.p); }
WorldToCameraMatrix w2c_of(const Eye& e) { return utils::compute_world_to_camera_transform(e.q, e.p); }

struct Scr
{
    bool in;
    double x, y, z;
};
struct Cam
{
    vector2 f, c;
    double w, h;
};
Scr see(const Cam& cam, const WorldToCameraMatrix& m, const vector3& w, double margin)
{
    const vector3 q = (matrix44(m) * w.homogeneous()).head<3>();
    Scr s {false, 0, 0, q.z()};
    if (q.z() < 100)
        return s;
    s.x = cam.f.x() * q.x() / q.z() + cam.c.x();
    s.y = cam.f.y() * q.y() / q.z() + cam.c.y();
    s.in = s.x > margin && s.y > margin && s.x < cam.w - margin && s.y < cam.h - margin;
    return s;
}

cv::Mat descriptor(sim::Rng& r)
{
    cv::Mat d(1, 32, CV_8U);
    for (int i = 0; i < 32; ++i)
        d.at<uchar>(0, i) = static_cast<uchar>(r.below(256));
    return d;
}
void flip(cv::Mat d, sim::Rng& r, int bits)
{
    for (int i = 0; i < bits; ++i)
        d.at<uchar>(0, static_cast<int>(r.below(32))) ^= static_cast<uchar>(1u << r.below(8));
}

std::unique_ptr<features::primitives::Plane> detect(const Board& b, const WorldToCameraMatrix& m, double a0, double a1, double b0, double b1, sim::Rng& r)
{
    const matrix33 R = m.rotation();
    const vector3 c = (matrix44(m) * b.c.homogeneous()).head<3>(), n = (R * b.n).normalized(), u = (R * b.u).normalized(), v = n.cross(u).normalized();
    // fitted on 400 points spread over what is seen of it
    matrixf cloud(400, 3);
    for (int i = 0; i < 400; ++i)
    {
        const double s = a0 + (a1 - a0) * (i % 20) / 19.0, t = b0 + (b1 - b0) * (i / 20) / 19.0;
        cloud.row(i) = (c + u * s + v * t + n * r.normal() * 0.7).cast<float>();
    }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    if (!seg.is_planar())
        return nullptr;
    std::vector<utils::Polygon::point_2d> pts {{a0, b0}, {a1, b0}, {a1, b1}, {a0, b1}, {a0, b0}};
    const CameraPolygon poly(pts, u, v, c);
    if (!poly.is_valid() || poly.boundary_length() < 3)
        return nullptr;
    return std::make_unique<features::primitives::Plane>(seg, poly);
}
} // namespace

SCENARIO(landmarks)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    Parameters::load_defaut();
    Plane_Segment::set_static_members(20, 400);
    sim::set_crash_class("marks-crash");
    sim::capture_output(true);
    Cam cam;
    cam.f = Parameters::get_camera_1_focal();
    cam.c = Parameters::get_camera_1_center();
    cam.w = Parameters::get_camera_1_image_size().x();
    cam.h = Parameters::get_camera_1_image_size().y();

    // ---- the walk
    const int frames = 8 + static_cast<int>(r.below(25));
    std::vector<Eye> eyes;
    const bool wide = r.chance(0.1); // wide enough to see the depth of landmarks without any
    {
        const vector3 start(r.range(-3000, 3000), r.range(-3000, 3000), r.range(-3000, 3000));
        const quaternion q0(Eigen::AngleAxisd(r.range(-3.1, 3.1), vector3(r.normal(), r.normal(), r.normal()).normalized()));
        const bool still = r.chance(0.15);
        const vector3 dir = vector3(r.normal(), r.normal(), r.normal() * 0.5).normalized() * (still ? 0 : wide ? r.range(20, 90) : r.range(5, 25));
        const vector3 axis = vector3(r.normal(), r.normal(), r.normal()).normalized();
        const double spin = still ? 0 : r.range(-0.006, 0.006);
        for (int k = 0; k < frames; ++k)
            eyes.push_back({start + dir * k, q0 * quaternion(Eigen::AngleAxisd(spin * k, axis))});
    }
    // ---- the world
    std::vector<Mark> marks;
    const double shareNoDepth = wide ? 1 : r.chance(0.6) ? 0 : r.range(0, 0.7), shareSome = r.chance(0.6) ? 0 : r.range(0, 0.5);
    const int wanted = static_cast<int>(r.below(36));
    std::vector<WorldToCameraMatrix> w2c;
    for (auto& e: eyes)
        w2c.push_back(w2c_of(e));
    for (int tries = 0; tries < wanted * 6 && static_cast<int>(marks.size()) < wanted; ++tries)
    {
        Mark m;
        const double u = r.uniform();
        m.kind = u < shareNoDepth ? 1 : u < shareNoDepth + shareSome ? 2 : 0;
        const int at = static_cast<int>(r.below(frames));
        const double z = m.kind == 1 ? r.range(700, 9000) : r.range(500, 5000);
        const double x = r.range(20, cam.w - 20), y = r.range(20, cam.h - 20);
        m.w = (matrix44(c2w_of(eyes[at])) * vector3((x - cam.c.x()) / cam.f.x() * z, (y - cam.c.y()) / cam.f.y() * z, z).homogeneous()).head<3>();
        bool ok = true;
        for (int k = 0; k < frames && ok; ++k)
        {
            const Scr a = see(cam, w2c[k], m.w, -130);
            if (!a.in)
                continue;
            for (auto& o: marks)
            {
                const Scr b = see(cam, w2c[k], o.w, -130);
                const double need = m.kind || o.kind ? 130 : 75;
                if (b.in && std::hypot(a.x - b.x, a.y - b.y) < need)
                    ok = false;
            }
        }
        if (!ok)
            continue;
        m.desc = descriptor(r);
        marks.push_back(m);
    }
    std::vector<Board> boards;
    const int wantedBoards = wide ? 0 : static_cast<int>(r.below(5));
    for (int tries = 0; tries < 40 && static_cast<int>(boards.size()) < wantedBoards; ++tries)
    {
        Board b;
        const Eye& e = eyes[r.below(frames)];
        const double z = r.range(1200, 4000);
        const double x = r.range(cam.w * 0.25, cam.w * 0.75), y = r.range(cam.h * 0.25, cam.h * 0.75);
        const matrix44 c2w = c2w_of(e);
        const vector3 pc((x - cam.c.x()) / cam.f.x() * z, (y - cam.c.y()) / cam.f.y() * z, z);
        const vector3 n = (-pc.normalized() + 0.6 * vector3(r.normal(), r.normal(), r.normal()).normalized()).normalized();
        b.c = (c2w * pc.homogeneous()).head<3>();
        b.n = c2w.block<3, 3>(0, 0) * n;
        b.u = b.n.unitOrthogonal();
        b.v = b.n.cross(b.u);
        b.lu = r.range(200, 500);
        b.lv = r.range(200, 500);
        bool ok = true;
        for (auto& o: boards)
        {
            // planes stand apart by their direction or far apart in space
            const double angle = std::acos(std::min(1.0, std::abs(o.n.dot(b.n))));
            ok &= angle > 0.6 || ((o.c - b.c).norm() > 1900 && std::abs(o.n.dot(b.c - o.c)) > 700);
        }
        for (int k = 0; k < frames && ok; ++k)
            ok = see(cam, w2c[k], b.c, 10).in && (matrix33(w2c[k].rotation()) * b.n).dot((matrix44(w2c[k]) * b.c.homogeneous()).head<3>()) < -200;
        if (!ok)
            continue;
        boards.push_back(b);
        if (static_cast<int>(boards.size()) < wantedBoards && r.chance(0.4))
        {
            Board t = b;
            t.c += b.u * (r.chance(0.5) ? 1 : -1) * 2 * b.lu * r.range(0.6, 0.75) + b.n * r.range(-15, 15);
            for (int k = 0; k < frames && ok; ++k)
                ok = see(cam, w2c[k], t.c, 10).in;
            if (!ok)
                continue;
            t.twin = static_cast<int>(boards.size()) - 1;
            boards.back().twin = t.twin + 1;
            boards.push_back(t);
        }
    }
    const double pDrop = r.chance(0.5) ? 0 : r.range(0, 0.25), pDecoy = r.chance(0.5) ? 0 : r.range(0, 0.3), pGross = r.chance(0.5) ? 0 : r.range(0, 0.15),
                 pFail = r.chance(0.5) ? 0 : r.range(0, 0.25), pReset = r.chance(0.9) ? 0 : 0.08, pFlow = r.chance(0.3) ? 0 : r.range(0.3, 1.0),
                 pNoDepth = r.range(0.1, 0.6), noise = r.chance(0.2) ? 0 : r.range(0.02, 0.25), prior = r.chance(0.5) ? 0 : r.range(0, 6);
    const int drift = r.chance(0.3) ? 0 : static_cast<int>(r.below(5));

    sim::start();
    auto map = std::make_unique<Map>();
    std::map<size_t, int> markOf, boardOf; // id in the map -> landmark
    std::map<size_t, int> mark2dOf;
    std::set<size_t> decoys, strange; // strange: may be the feature of a gross error
    Eye last = eyes[0];
    bool any = false;
    int frameNo = 0, resets = 0;
    std::string hist;
    size_t checked = 0, checkedPlanes = 0, checked2d = 0;
    for (int k = 0; k < frames; ++k)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 3, k);
        if (!sim::op_enabled(k))
            continue;
        const Eye& e = eyes[k];
        ++frameNo;
        if (o.chance(pReset) && any)
        {
            hist += "reset ";
            sim::count("fault.reset");
            ++resets;
            map->reset();
            markOf.clear();
            boardOf.clear();
            mark2dOf.clear();
            for (auto& m: marks)
                m.run = m.depthRun = 0, m.everLocal = 0, m.unseen = 0;
            for (auto& b: boards)
                b.run = 0, b.everLocal = 0, b.unseen = 0, b.seenArea = 0;
        }
        const matrix33 poseCov = matrix33::Identity() * o.range(0.3, 4.0);
        // ---- what is followed by optical flow
        utils::Pose lastPose(last.p, last.q);
        const TrackedFeaturesContainer tracked = map->get_tracked_features(lastPose);
        std::map<int, size_t> flow; // landmark -> id
        for (size_t i = 0; i < tracked.trackedPoints->size(); ++i)
        {
            const auto kp = tracked.trackedPoints->at(i);
            auto it = markOf.find(kp._id);
            if (it == markOf.end())
                continue; // a feature never matched in front of us
            const Mark& m = marks[it->second];
            const Scr s = see(cam, w2c_of(last), m.w, 0);
            if (!m.clean && m.kind != 1 && (!s.in || std::hypot(s.x - kp._point.x, s.y - kp._point.y) > 6) && std::hypot(s.x - kp._point.x, s.y - kp._point.y) > 8)
                sim::fail_now("marks-tracked", fmt("frame %d: landmark %d is to be followed at %.1f %.1f, it is at %.1f %.1f", k, it->second, kp._point.x, kp._point.y, s.x, s.y));
            if (o.chance(pFlow) && !flow.count(it->second))
                flow[it->second] = kp._id;
        }
        // ---- the detections
        std::vector<cv::Point2f> pts;
        std::vector<cv::Mat> desc;
        std::vector<int> ofPoint; // landmark, -1: decoy
        KeypointsWithIdStruct flowed;
        std::vector<int> ofFlow;
        cv::Mat_<float> depth = cv::Mat_<float>::zeros(static_cast<int>(cam.h), static_cast<int>(cam.w));
        std::vector<int> detectedMark(marks.size(), 0); // 1: detected, 2: with depth, 4: gross error
        for (size_t i = 0; i < marks.size(); ++i)
        {
            Mark& m = marks[i];
            const Scr s = see(cam, w2c[k], m.w, 6);
            sim::Rng mr = sim::rng_for(sim::seed(), 4000 + k, i);
            flip(m.desc, mr, drift); // the aspect of a landmark changes with the point of view
            if (!s.in)
                continue;
            if (mr.chance(pDrop))
            {
                sim::count("fault.dropout");
                continue;
            }
            double x = s.x + 0.1 * noise * mr.range(-1, 1), y = s.y + 0.1 * noise * mr.range(-1, 1); // in standard deviations of the sensor model
            double z = s.z + noise * mr.range(-1, 1) * std::sqrt(utils::get_depth_quantization(s.z));
            const bool hasDepth = m.kind == 0 || (m.kind == 2 && !mr.chance(pNoDepth));
            if (!hasDepth)
                z = mr.chance(0.5) ? 0 : mr.chance(0.5) ? 7000 : std::nan("");
            if (m.kind)
                m.dup = true;
            detectedMark[i] = 1 | (hasDepth ? 2 : 0);
            if (m.everLocal && !m.dup && mr.chance(pGross))
            {
                const double a = mr.range(0, 6.28);
                x += 12 * std::cos(a), y += 12 * std::sin(a);
                detectedMark[i] |= 4;
                m.dup = true; // the wrong detection may become a feature with the same descriptor
                sim::count("fault.gross-error");
            }
            const cv::Point2f pt(static_cast<float>(x), static_cast<float>(y));
            const int px = static_cast<int>(std::round(pt.x)), py = static_cast<int>(std::round(pt.y));
            if (px >= 0 && py >= 0 && px < depth.cols && py < depth.rows)
                depth(py, px) = static_cast<float>(z);
            if (auto it = flow.find(static_cast<int>(i)); it != flow.end())
            {
                flowed.add(it->second, pt);
                ofFlow.push_back(static_cast<int>(i));
                sim::count("marks.flow");
                continue;
            }
            cv::Mat d = m.desc.clone();
            flip(d, mr, static_cast<int>(mr.below(12)));
            pts.push_back(pt);
            desc.push_back(d);
            ofPoint.push_back(static_cast<int>(i));
            if (m.everLocal && m.kind == 0 && !m.dup && m.decoy < frameNo - 1 && frameNo - m.described < 4 && mr.chance(pDecoy)) // a decoy that stays would be a landmark
            {
                const double a = mr.range(0, 6.28), l = mr.range(9, 25);
                const cv::Point2f dp(static_cast<float>(x + l * std::cos(a)), static_cast<float>(y + l * std::sin(a)));
                bool alone = true; // the search radius is doubled when there are few matches
                for (size_t j = 0; j < marks.size(); ++j)
                {
                    const Scr other = see(cam, w2c[k], marks[j].w, -130);
                    alone &= j == i || !other.in || std::hypot(other.x - dp.x, other.y - dp.y) > 90;
                }
                if (alone && dp.x > 3 && dp.y > 3 && dp.x < cam.w - 3 && dp.y < cam.h - 3)
                {
                    sim::count("fault.decoy");
                    m.decoy = frameNo;
                    depth(static_cast<int>(std::round(dp.y)), static_cast<int>(std::round(dp.x))) = static_cast<float>(std::min(5800.0, s.z * mr.range(0.7, 1.3)));
                    pts.push_back(dp);
                    desc.push_back(descriptor(mr));
                    ofPoint.push_back(-1);
                }
            }
        }
        // in any order
        for (size_t i = pts.size(); i > 1; --i)
        {
            const size_t j = o.below(i);
            std::swap(pts[i - 1], pts[j]);
            std::swap(desc[i - 1], desc[j]);
            std::swap(ofPoint[i - 1], ofPoint[j]);
        }
        cv::Mat all;
        for (auto& d: desc)
            all.push_back(d);
        features::keypoints::Keypoint_Handler keys(static_cast<uint>(cam.w), static_cast<uint>(cam.h), parameters::matching::maximumMatchDistance);
        keys.set(pts, all, flowed, depth);
        features::primitives::plane_container planes;
        std::vector<int> ofPlane;
        std::vector<bool> boardSeen(boards.size(), false);
        std::vector<size_t> order(boards.size());
        for (size_t i = 0; i < order.size(); ++i)
            order[i] = i;
        for (size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[o.below(i)]);
        auto missedBoard = [&](Board& b) {
            if (b.twin >= 0)
                b.sure = boards[b.twin].sure = false; // its feature may take the other one
        };
        for (size_t i: order)
        {
            Board& b = boards[i];
            if (o.chance(pDrop))
            {
                sim::count("fault.dropout");
                missedBoard(b);
                continue;
            }
            const double a0 = -b.lu * o.range(0.75, 1), a1 = b.lu * o.range(0.75, 1), b0 = -b.lv * o.range(0.75, 1), b1 = b.lv * o.range(0.75, 1);
            auto p = detect(b, w2c[k], a0, a1, b0, b1, o);
            if (!p)
            {
                missedBoard(b);
                continue;
            }
            planes.push_back(*p);
            ofPlane.push_back(static_cast<int>(i));
            boardSeen[i] = true;
            b.seenArea = std::max(b.seenArea, (a1 - a0) * (b1 - b0));
        }
        const DetectedFeatureContainer detected(keys, features::lines::line_container(), planes);
        auto landmark = [&](size_t i) { return i < ofPoint.size() ? ofPoint[i] : i - ofPoint.size() < ofFlow.size() ? ofFlow[i - ofPoint.size()] : -2; };

        // ---- matching, from about where the camera is
        const Eye guess {e.p + vector3(o.normal(), o.normal(), o.normal()) * prior, e.q};
        const utils::Pose predicted(guess.p, guess.q, matrix66::Identity());
        const matches_containers::match_container matches = map->find_feature_matches(predicted, detected);
        std::map<int, int> matched[3]; // landmark -> matches, by kind
        std::set<size_t> ids, taken[3];
        matches_containers::match_container outliers;
        for (auto& x: matches)
        {
            const int t = x->get_feature_type() == FeatureType::Plane ? 2 : x->get_feature_type() == FeatureType::Point ? 0 : 1;
            if (!x->is_valid())
                sim::fail_now("marks-invalid", fmt("frame %d: an invalid match", k));
            if (!ids.insert(x->_idInMap).second)
                sim::fail_now("marks-twice", fmt("frame %d: feature %zu is matched twice", k, x->_idInMap));
            if (!taken[t].insert(x->_detectedFeatureId).second)
                sim::fail_now("marks-twice", fmt("frame %d: detection %zu is matched twice", k, x->_detectedFeatureId));
            if (t == 2)
            {
                if (x->_detectedFeatureId >= planes.size())
                    sim::fail_now("marks-index", "match with a plane that was not detected");
                const int b = ofPlane[x->_detectedFeatureId];
                auto [it, fresh] = boardOf.emplace(x->_idInMap, b);
                if (!boards[b].sure)
                    continue;
                if (it->second != b)
                    sim::fail_now("marks-identity", fmt("frame %d: the feature of plane %d is matched with plane %d", k, it->second, b));
                matched[2][b]++;
                const vectorxd d = x->get_distance(w2c[k]);
                sim::note_max("plane_error_mm_x100", static_cast<uint64_t>(std::min(1e6, d.norm() * 100)));
                if (!x->is_inlier(w2c[k]) || !(d.norm() < 20))
                    sim::fail_now("marks-plane-off", fmt("frame %d: the feature of plane %d is %.1f mm away from its detection seen from the true pose", k, b, d.norm()));
                continue;
            }
            const int l = landmark(x->_detectedFeatureId);
            if (l == -2)
                sim::fail_now("marks-index", "match with a point that was not detected");
            if (l == -1 && !markOf.count(x->_idInMap) && !mark2dOf.count(x->_idInMap))
            {
                decoys.insert(x->_idInMap); // a decoy seen twice
                continue;
            }
            if (l == -1)
                sim::fail_now("marks-decoy", fmt("frame %d: the feature of landmark %d is matched with a decoy", k, (t ? mark2dOf : markOf)[x->_idInMap]));
            if (decoys.count(x->_idInMap))
                sim::fail_now("marks-decoy", fmt("frame %d: the feature of a decoy is matched with landmark %d", k, l));
            auto [it, fresh] = (t ? mark2dOf : markOf).emplace(x->_idInMap, l);
            if (it->second != l)
                sim::fail_now("marks-identity", fmt("frame %d: the feature of landmark %d is matched with landmark %d", k, it->second, l));
            if (fresh && marks[l].dup)
                strange.insert(x->_idInMap);
            matched[t][l]++;
            const vectorxd d = x->get_distance(w2c[k]);
            if (detectedMark[l] & 4)
                outliers.push_back(x);
            else if (!marks[l].clean && !strange.count(x->_idInMap) && t == 0 && marks[l].kind == 0)
            {
                sim::note_max("reprojection_px_x100", static_cast<uint64_t>(std::min(1e6, d.norm() * 100)));
                if (!(d.norm() < 1))
                    sim::fail_now("marks-off", fmt("frame %d: the feature of landmark %d is %.1f px away from its detection seen from the true pose", k, l, d.norm()));
            }
        }
        // ---- every feature of the map that is detected again is matched
        const bool resumes = any;
        for (size_t i = 0; i < marks.size() && resumes; ++i)
        {
            const Mark& m = marks[i];
            if (!(detectedMark[i] & 1) || (detectedMark[i] & 4))
                continue;
            const Scr g = see(cam, w2c_of(guess), m.w, 3), t = see(cam, w2c[k], m.w, 3);
            const bool known = m.everLocal && m.unseen <= 9 && g.in && std::hypot(g.x - t.x, g.y - t.y) < 25;
            if (m.kind == 0 && known && !m.clean)
            {
                ++checked;
                if (matched[0][static_cast<int>(i)] < 1)
                    sim::fail_now("marks-missed", fmt("frame %d: landmark %zu of the local map, seen %d frames ago, is detected and not matched", k, i, m.unseen + 1));
                if (matched[0][static_cast<int>(i)] > 1 && !m.dup)
                    sim::fail_now("marks-doubled", fmt("frame %d: landmark %zu is %d times in the map", k, i, matched[0][static_cast<int>(i)]));
            }
            if (m.kind == 1 && m.run >= 6)
            {
                ++checked2d;
                if (matched[0][static_cast<int>(i)] + matched[1][static_cast<int>(i)] < 1)
                    sim::fail("marks-2d-missed", fmt("frame %d: landmark %zu without depth, seen %d times in a row, does not join the optimisation", k, i, m.run));
            }
        }
        for (size_t i = 0; i < boards.size() && resumes; ++i)
        {
            const Board& b = boards[i];
            if (!boardSeen[i] || !b.everLocal || !b.sure || b.unseen > 8)
                continue;
            ++checkedPlanes;
            if (matched[2][static_cast<int>(i)] != 1)
                sim::fail_now("marks-plane-missed", fmt("frame %d: plane %zu of the local map, seen %d frames ago, is matched %d times", k, i, b.unseen + 1, matched[2][static_cast<int>(i)]));
        }
        sim::count("marks.matches", matches.size());

        // lost for long: it has to prove itself again
        auto forget = [&]() {
            for (auto& m: marks)
                if (m.everLocal && m.unseen > 9)
                    m.everLocal = 0, m.run = m.depthRun = 0, m.dup = true;
            for (auto& b: boards)
                if (b.everLocal && b.unseen > 8)
                    b.everLocal = 0, b.run = 0, b.dup = true;
        };
        // ---- the frame cannot be tracked
        if (any && o.chance(pFail))
        {
            hist += "failed ";
            sim::count("fault.untracked-frame");
            map->update_no_pose();
            for (auto& m: marks)
                m.run = m.everLocal ? m.run : 0, m.depthRun = m.everLocal ? m.depthRun : 0, m.unseen++;
            for (auto& m: marks)
                if (m.kind == 1)
                    m.run = 0;
            for (auto& b: boards)
                b.unseen++, b.run = 0;
            forget();
            continue;
        }
        // ---- the map is updated
        hist += "ok ";
        matrix66 cov = matrix66::Identity() * 1e-4;
        cov.block<3, 3>(0, 0) = poseCov;
        const utils::Pose pose(e.p, e.q, cov);
        map->update(pose, detected, outliers);
        any = true;
        last = e;
        uint64_t h = k;
        for (size_t i = 0; i < marks.size(); ++i)
        {
            Mark& m = marks[i];
            const int d = detectedMark[i];
            if (d & 4)
            {
                m.unseen++;
                continue;
            }
            if ((d & 1) && !see(cam, w2c_of(guess), m.w, 3).in)
                m.dup = true; // looked for elsewhere, it may become another feature
            if (!(d & 1) || !see(cam, w2c_of(guess), m.w, 3).in)
            {
                m.unseen++;
                m.run = m.depthRun = 0;
                continue;
            }
            m.run++;
            m.unseen = 0;
            if (!flow.count(static_cast<int>(i)))
                m.described = frameNo;
            m.depthRun = d & 2 ? m.depthRun + 1 : 0;
            if (m.kind == 0 && m.depthRun >= 4)
                m.everLocal = 1;
            h = sim::hash_mix(h, i * 100 + m.run);
        }
        for (size_t i = 0; i < boards.size(); ++i)
        {
            Board& b = boards[i];
            if (!boardSeen[i])
            {
                b.unseen++;
                b.run = 0;
                continue;
            }
            b.run++;
            b.unseen = 0;
            if (b.run >= 6)
                b.everLocal = 1;
        }
        forget();
        sim::state(h);
        sim::mix(h);
    }
    // ---- the map file
    map.reset();
    sim::stop();
    std::ifstream in("out.obj");
    std::string line;
    std::vector<vector3> vs;
    std::vector<vector3> points;
    std::vector<std::vector<vector3>> polys;
    while (std::getline(in, line))
    {
        std::istringstream is(line);
        std::string kind;
        is >> kind;
        if (kind == "v")
        {
            vector3 p;
            is >> p.x() >> p.y() >> p.z();
            vs.push_back(p);
        }
        else if (kind == "p" || kind == "f" || kind == "l")
        {
            std::vector<vector3> e;
            size_t i;
            while (is >> i)
                if (i >= 1 && i <= vs.size())
                    e.push_back(vs[i - 1]);
            if (kind == "p" && e.size() == 1)
                points.push_back(e[0]);
            else if (e.size() > 2)
                polys.push_back(e);
        }
    }
    // every landmark of the map at its place, once
    size_t exported = 0, exportedPlanes = 0;
    for (size_t i = 0; i < marks.size(); ++i)
    {
        const Mark& m = marks[i];
        if (m.kind != 0 || !m.everLocal || m.unseen > 9)
            continue;
        int at = 0;
        double best = 1e9;
        for (auto& p: points)
        {
            best = std::min(best, (p - m.w).norm());
            at += (p - m.w).norm() < 60;
        }
        ++exported;
        sim::note_max("export_error_mm_x100", static_cast<uint64_t>(std::min(1e6, best * 100)));
        if (best > 15)
            sim::fail_now("marks-export", fmt("landmark %zu of the local map is not in the map file (nearest point at %.1f mm)", i, best));
        if (at != 1 && !m.dup && !resets)
            sim::fail_now("marks-export", fmt("landmark %zu is %d times in the map file", i, at));
    }
    // every point of the map file is a landmark, at least for an eye that saw it
    if (pGross == 0 && pDecoy == 0)
        for (auto& p: points)
        {
            double best = 1e9;
            int of = -1;
            for (size_t i = 0; i < marks.size(); ++i)
            {
                double worst = 0;
                int seen = 0;
                for (int k = 0; k < frames; ++k)
                {
                    const Scr a = see(cam, w2c[k], marks[i].w, 6), b = see(cam, w2c[k], p, -1e6);
                    if (a.in)
                        ++seen, worst = std::max(worst, b.in ? std::hypot(a.x - b.x, a.y - b.y) : 1e6);
                }
                if (seen && worst < best)
                    best = worst, of = static_cast<int>(i);
            }
            sim::note_max("stray_px_x100", static_cast<uint64_t>(std::min(1e6, best * 100)));
            if (of >= 0 && marks[of].kind == 1)
                sim::count("marks.upgraded");
            if (!(best < 80))
                sim::fail_now("marks-stray", fmt("a point of the map file is no landmark: %.1f px from the nearest one in some frame", best));
        }
    std::vector<int> polysOf(boards.size(), 0);
    std::vector<double> areaOf(boards.size(), 0);
    for (auto& q: polys)
    {
        vector3 normal = vector3::Zero();
        for (size_t i = 0; i < q.size(); ++i)
            normal += (q[i] - q[0]).cross(q[(i + 1) % q.size()] - q[0]);
        const double area = normal.norm() / 2;
        int on = -1;
        double bestOff = 1e9;
        for (size_t i = 0; i < boards.size(); ++i)
        {
            const Board& b = boards[i];
            double off = 0;
            for (auto& p: q)
            {
                const vector3 d = p - b.c;
                off = b.sure ? std::max({off, std::abs(b.n.dot(d)), std::abs(b.u.dot(d)) - b.lu, std::abs(b.v.dot(d)) - b.lv}) : std::max(off, std::abs(b.n.dot(d)) - 20);
            }
            if (off < bestOff)
                bestOff = off, on = static_cast<int>(i);
        }
        sim::note_max("export_plane_error_mm_x100", static_cast<uint64_t>(std::min(1e6, bestOff * 100)));
        if (on < 0 || bestOff > 15)
            sim::fail_now("marks-export-plane", fmt("a polygon of the map file is %.1f mm outside of every plane of the world", bestOff));
        polysOf[on]++;
        areaOf[on] = std::max(areaOf[on], area);
    }
    for (size_t i = 0; i < boards.size(); ++i)
    {
        const Board& b = boards[i];
        if (!b.everLocal || !b.sure || b.unseen > 8)
            continue;
        ++exportedPlanes;
        sim::note_max("export_area_missing_percent", static_cast<uint64_t>(std::max(0.0, 100 * (1 - areaOf[i] / b.seenArea))));
        if (polysOf[i] < 1 || (polysOf[i] != 1 && !b.dup && !resets))
            sim::fail_now("marks-export-plane", fmt("plane %zu is %d times in the map file", i, polysOf[i]));
        if (areaOf[i] < 0.75 * b.seenArea)
            sim::fail_now("marks-export-plane", fmt("plane %zu of the map file has %.3f m2, %.3f were seen at once", i, areaOf[i] / 1e6, b.seenArea / 1e6));
    }
    sim::count("marks.exported", exported);
    sim::count("marks.exported-planes", exportedPlanes);
    sim::count("marks.checked", checked);
    sim::count("marks.checked-planes", checkedPlanes);
    sim::count("marks.checked-2d", checked2d);
    sim::nontrivial();
    sim::sample(fmt("%zu landmarks, %zu planes, %d frames (%s), %zu points and %zu polygons exported", marks.size(), boards.size(), frames, hist.substr(0, 300).c_str(), points.size(), polys.size()));
}
