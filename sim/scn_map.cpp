// C12: the life of the features of the map, from the staged map to the map file, under failing frames, outliers, refused
// updates and features that cannot be built. The maps are the real ones, the features are scripted by the seed.
#include "scn.hpp"
#include "map_management/feature_map.hpp"
#include "map_management/local_map.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <algorithm>
#include <map>
#include <memory>
using namespace rgbd_slam;
using namespace rgbd_slam::map_management;

namespace {
constexpr int MAPS = 3;
const FeatureType TYPES[MAPS] = {FeatureType::Point2d, FeatureType::Point, FeatureType::Plane};

struct Det
{
    uint64_t key;
    bool addable;
    bool broken; // no feature can be built from it
};
using DetVec = std::vector<Det>;

struct FindCall
{
    uint64_t key;
    bool local, add, advanced;
    std::vector<bool> flags;
    std::set<size_t> ret;
};
struct Update
{
    uint64_t key, det;
    bool local;
    matrix33 cov;
    matrix44 pose;
};
struct Rec // what the maps did with the features
{
    std::vector<FindCall> find[MAPS];
    std::vector<Update> updates;
    std::vector<std::pair<uint64_t, bool>> drawn[MAPS];
    std::vector<uint64_t> written;
    std::vector<uint64_t> tracked;
};
Rec* rec = nullptr;
struct World
{
    uint64_t seed = 0;
    int frame = 0;
    DetVec dets[MAPS];
    std::map<uint64_t, int> index; // features in order of appearance, their number is the x coordinate in the map file
    // how the features of this run behave
    double pMatch, pFar, pInvisible, pMoving, pRefuse, pUpgrade, pBroken;
    int addAfter, dropAfter, loseAfter;
    size_t minOpti[MAPS];
};
World* wo = nullptr;

double draw_u(uint64_t a, uint64_t b, uint64_t c)
{
    sim::Rng r = sim::rng_for(wo->seed, sim::hash_mix(sim::hash_mix(a, b), c), 77);
    return r.uniform();
}
bool s_visible(uint64_t k) { return draw_u(k, wo->frame, 1) >= wo->pInvisible; }
bool s_moving(uint64_t k) { return draw_u(k, wo->frame / 3, 2) < wo->pMoving; }
bool s_refuse(uint64_t k, uint64_t det) { return draw_u(k, det, 3) < wo->pRefuse; }
int s_upgrade(uint64_t k, int map) // -1: none, -2: says yes but gives nothing, otherwise the type of the upgraded feature
{
    const double u = draw_u(k, wo->frame, 4);
    if (u >= wo->pUpgrade)
        return -1;
    if (u < wo->pUpgrade * 0.1)
        return -2;
    (void)map;
    return static_cast<int>(draw_u(k, wo->frame, 5) * MAPS);
}
bool s_broken_local(uint64_t k) { return draw_u(k, wo->frame, 6) < wo->pBroken; }
// the detections that look like the feature, seen from near or from further
std::vector<size_t> s_wants(uint64_t k, int map, bool advanced)
{
    std::vector<size_t> w;
    const size_t n = wo->dets[map].size();
    if (n == 0)
        return w;
    if (draw_u(k, wo->frame, 7) < wo->pMatch || (advanced && draw_u(k, wo->frame, 8) < wo->pFar))
    {
        const size_t first = static_cast<size_t>(draw_u(k, wo->frame, 9) * n);
        w.push_back(first);
        if (map == 0 && draw_u(k, wo->frame, 10) < 0.2)
            w.push_back((first + 1) % n);
    }
    return w;
}

struct MockMatch : matches_containers::IOptimizationFeature
{
    MockMatch(size_t id, size_t det, int map, uint64_t key) : IOptimizationFeature(id, det), _map(map), _key(key) {}
    size_t get_feature_part_count() const noexcept override { return 1; }
    double get_score() const noexcept override { return 1; }
    bool is_inlier(const WorldToCameraMatrix&) const noexcept override { return true; }
    vectorxd get_distance(const WorldToCameraMatrix&) const noexcept override { return vectorxd::Zero(1); }
    double get_alpha_reduction() const noexcept override { return 1; }
    matches_containers::feat_ptr compute_random_variation() const noexcept override { return nullptr; }
    bool is_valid() const noexcept override { return true; }
    FeatureType get_feature_type() const noexcept override { return TYPES[_map]; }
    int _map;
    uint64_t _key;
};
struct MockUpgraded : IUpgradedFeature
{
    MockUpgraded(const matchIndexSet& m, int type, uint64_t key) : IUpgradedFeature(m), _type(type), _key(key) {}
    FeatureType get_type() const override { return TYPES[_type]; }
    int _type;
    uint64_t _key;
};
uint64_t upgraded_key(uint64_t k) { return sim::hash_mix(k, 4242); }

template<int K> struct MockFeature : IMapFeature<DetVec, Det, features::keypoints::KeypointsWithIdStruct>
{
    using Base = IMapFeature<DetVec, Det, features::keypoints::KeypointsWithIdStruct>;
    MockFeature(uint64_t key, bool local) : _key(key), _local(local) {}
    MockFeature(size_t id, uint64_t key, bool local) : Base(id), _key(key), _local(local) {}

    matchIndexSet find_matches(const DetVec& dets, const WorldToCameraMatrix&, const vectorb& matched, matches_containers::match_container& matches,
                               const bool add, const bool advanced) const noexcept override
    {
        FindCall c;
        c.key = _key;
        c.local = _local;
        c.add = add;
        c.advanced = advanced;
        for (long i = 0; i < matched.size(); ++i)
            c.flags.push_back(matched[i]);
        matchIndexSet out;
        for (size_t w: s_wants(_key, K, advanced))
            if (w < dets.size() && w < c.flags.size() && !c.flags[w])
                out.insert(w);
        for (size_t w: out)
        {
            c.ret.insert(w);
            if (add)
                matches.push_back(std::make_shared<MockMatch>(_id, w, K, _key));
        }
        rec->find[K].push_back(c);
        return out;
    }
    bool compute_upgraded(const CameraToWorldMatrix&, UpgradedFeature_ptr& up) const noexcept override
    {
        const int u = s_upgrade(_key, K);
        if (u == -1)
            return false;
        if (u >= 0)
            up = std::make_shared<MockUpgraded>(_matchIndexes, u, upgraded_key(_key));
        return true;
    }
    bool is_moving() const noexcept override { return s_moving(_key); }
    bool update_with_match(const Det& d, const matrix33& cov, const CameraToWorldMatrix& pose) noexcept override
    {
        rec->updates.push_back({_key, d.key, _local, cov, pose});
        return !s_refuse(_key, d.key);
    }
    void write_to_file(std::shared_ptr<outputs::IMap_Writer> w) const noexcept override
    {
        rec->written.push_back(_key);
        const auto it = wo->index.find(_key);
        w->add_point(vector3(it == wo->index.end() ? -1 : it->second, K, 1));
    }
    bool add_to_tracked(const WorldToCameraMatrix&, features::keypoints::KeypointsWithIdStruct& t, const uint) const noexcept override
    {
        rec->tracked.push_back(_key);
        t.add(_id, 1.0, 1.0);
        return true;
    }
    void draw(const WorldToCameraMatrix&, cv::Mat&, const cv::Scalar&) const noexcept override { rec->drawn[K].push_back({_key, _local}); }
    bool is_visible(const WorldToCameraMatrix&) const noexcept override { return s_visible(_key); }

    uint64_t _key;
    bool _local;

  protected:
    void update_no_match() noexcept override {}
};
template<int K> struct MockStaged : MockFeature<K>, IStagedMapFeature<Det>
{
    MockStaged(const matrix33&, const CameraToWorldMatrix&, const Det& d) : MockFeature<K>(d.key, false)
    {
        if (d.broken)
            throw std::invalid_argument("broken detection");
    }
    bool should_remove_from_staged() const noexcept override { return static_cast<int>(this->_failedTrackingCount) >= wo->dropAfter; }
    bool should_add_to_local_map() const noexcept override { return this->_successivMatchedCount >= wo->addAfter; }
    static bool can_add_to_map(const Det& d) noexcept { return d.addable; }
};
template<int K> struct MockLocal : MockFeature<K>, ILocalMapFeature<MockStaged<K>>
{
    MockLocal(const MockStaged<K>& s) : MockFeature<K>(s._id, s._key, true)
    {
        if (s_broken_local(s._key))
            throw std::invalid_argument("broken staged feature");
        this->_matchIndexes = s._matchIndexes;
        this->_successivMatchedCount = s._successivMatchedCount;
    }
    MockLocal(uint64_t key, const matchIndexSet& m) : MockFeature<K>(key, true) { this->_matchIndexes = m; }
    bool is_lost() const noexcept override { return static_cast<int>(this->_failedTrackingCount) >= wo->loseAfter; }
};
template<int K> struct MockMap : Feature_Map<MockLocal<K>, MockStaged<K>, DetVec, Det, features::keypoints::KeypointsWithIdStruct>
{
    FeatureType get_feature_type() const override { return TYPES[K]; }
    std::string get_display_name() const override { return "mock"; }
    DetVec get_detected_feature(const DetectedFeatureContainer&) const override { return wo->dets[K]; }
    std::shared_ptr<features::keypoints::KeypointsWithIdStruct> get_tracked_features_container(const TrackedFeaturesContainer& t) const override
    {
        return K == 2 ? nullptr : t.trackedPoints;
    }
    size_t minimum_features_for_opti() const override { return wo->minOpti[K]; }

  protected:
    void add_upgraded_to_local_map(const UpgradedFeature_ptr up) override
    {
        this->add_to_local_map(MockLocal<K>(dynamic_cast<const MockUpgraded&>(*up)._key, up->_matchIndexes));
    }
};
using TheMap = Local_Map<MockMap<0>, MockMap<1>, MockMap<2>>;

// ---- the reference
struct F
{
    bool local = false;
    int failed = 0, succ = 0;
    std::set<size_t> match;
};
struct Model
{
    std::map<uint64_t, F> m[MAPS];
    std::map<uint64_t, int> must, may; // expected exports
};
std::string name_of(uint64_t k) { return wo->index.count(k) ? fmt("feature %d", wo->index[k]) : "an unknown feature"; }
void born(uint64_t k) { wo->index.emplace(k, static_cast<int>(wo->index.size())); }
} // namespace

SCENARIO(map_life)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    sim::set_crash_class("map");
    sim::capture_output(true);
    World world;
    wo = &world;
    world.seed = sim::seed();
    world.pMatch = r.range(0.3, 0.98);
    world.pFar = r.range(0, 0.8);
    world.pInvisible = r.chance(0.4) ? r.range(0, 0.3) : 0;
    world.pMoving = r.chance(0.4) ? r.range(0, 0.3) : 0;
    world.pRefuse = r.chance(0.5) ? r.range(0, 0.4) : 0;
    world.pUpgrade = r.chance(0.5) ? r.range(0, 0.15) : 0;
    world.pBroken = r.chance(0.4) ? r.range(0, 0.5) : 0;
    world.addAfter = 1 + static_cast<int>(r.below(4));
    world.dropAfter = 1 + static_cast<int>(r.below(3));
    world.loseAfter = 1 + static_cast<int>(r.below(5));
    for (auto& m: world.minOpti)
        m = r.below(4);
    const double pFail = r.chance(0.7) ? r.range(0, 0.4) : 0, pBadCov = r.chance(0.3) ? 0.1 : 0, pReset = r.chance(0.3) ? 0.05 : 0;
    const double pOutlier = r.chance(0.6) ? r.range(0, 0.5) : 0, pBrokenDet = r.chance(0.3) ? 0.2 : 0, pNotAddable = r.chance(0.3) ? 0.2 : 0;
    const int frames = 1 + static_cast<int>(r.below(40));
    if (r.chance(0.3))
    {
        sim::io().enabled = true;
        sim::io().p_short = 0.2;
        sim::io().p_eintr = 0.1;
        sim::io_track("");
    }
    Rec record;
    rec = &record;
    Model mo;
    const features::keypoints::Keypoint_Handler handler(320, 240);
    cv::Mat image(40, 200, CV_8UC3);
    sim::start();
    auto map = std::make_unique<TheMap>();
    sim::count("ops.generated", frames);
    std::string hist;

    auto check_content = [&](const char* when) {
        record = Rec();
        map->get_debug_image(utils::Pose(), true, image);
        for (int k = 0; k < MAPS; ++k)
        {
            std::map<uint64_t, int> seen;
            for (auto& [key, local]: record.drawn[k])
            {
                auto it = mo.m[k].find(key);
                if (++seen[key] > 1)
                    sim::fail_now("map-feature-twice", fmt("%s: %s is held twice in map %d", when, name_of(key).c_str(), k));
                if (it == mo.m[k].end())
                    sim::fail_now("map-feature-ghost", fmt("%s: %s should not be in map %d any more", when, name_of(key).c_str(), k));
                if (it->second.local != local)
                    sim::fail_now("map-feature-stage", fmt("%s: %s of map %d is %s", when, name_of(key).c_str(), k, local ? "in the local map too early" : "still staged"));
            }
            for (auto& [key, f]: mo.m[k])
                if (!seen.count(key))
                    sim::fail_now("map-feature-gone", fmt("%s: %s vanished from the %s map %d", when, name_of(key).c_str(), f.local ? "local" : "staged", k));
        }
    };
    // a feature that leaves the local map: it is exported when it is known to be still
    auto lost = [&](int k, uint64_t key, bool tracked) {
        const bool moving = s_moving(key);
        if (!moving)
            mo.must[key]++;
        else if (!tracked)
            mo.may[key]++;
        mo.m[k].erase(key);
    };
    auto check_written = [&](std::map<uint64_t, int>& must, std::map<uint64_t, int>& may, const char* when) {
        std::map<uint64_t, int> w;
        for (uint64_t k: record.written)
            w[k]++;
        for (auto& [k, n]: must)
            if (w[k] != 1)
                sim::fail_now("map-export", fmt("%s: %s left the local map and was exported %d times", when, name_of(k).c_str(), w[k]));
        for (auto& [k, n]: w)
            if (n > 0 && !must.count(k) && !(may.count(k) && n == 1))
                sim::fail_now("map-export", fmt("%s: %s was exported %d times without reason", when, name_of(k).c_str(), n));
    };
    std::map<uint64_t, int> exportedMust, exportedMay;
    auto settle_exports = [&](const char* when) {
        check_written(mo.must, mo.may, when);
        exportedMust.insert(mo.must.begin(), mo.must.end());
        for (auto& [k, n]: mo.may)
            exportedMay[k] = n;
        mo.must.clear();
        mo.may.clear();
    };

    for (int fr = 0; fr < frames; ++fr)
    {
        if (!sim::op_enabled(fr))
            continue;
        sim::Rng o = sim::rng_for(sim::seed(), 91, fr);
        world.frame = fr;
        for (int k = 0; k < MAPS; ++k)
        {
            world.dets[k].clear();
            const size_t n = o.chance(0.1) ? 0 : o.below(9);
            for (size_t i = 0; i < n; ++i)
                world.dets[k].push_back({sim::hash_mix(sim::hash_mix(fr + 1, k + 1), i + 1), !o.chance(pNotAddable), o.chance(pBrokenDet)});
        }
        const quaternion q(Eigen::AngleAxisd(o.range(-1, 1), vector3(o.range(-1, 1), 1, o.range(-1, 1)).normalized()));
        const vector3 pos(o.range(-500, 500), o.range(-500, 500), o.range(-500, 500));
        matrix66 variance = matrix66::Zero();
        for (int i = 0; i < 6; ++i)
            variance(i, i) = o.range(0.1, 5);
        const bool badCov = o.chance(pBadCov);
        if (badCov)
            variance(0, 0) = o.chance(0.5) ? -5 : std::nan("");
        utils::Pose pose(pos, q, variance);
        if (badCov)
            pose.set_position_variance(variance);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, pos);
        const DetectedFeatureContainer detected(handler, {}, {});

        // ---- what is followed by the optical flow
        record = Rec();
        {
            const auto t = map->get_tracked_features(pose);
            std::map<uint64_t, int> seen;
            for (uint64_t k: record.tracked)
                seen[k]++;
            for (int k = 0; k < 2; ++k)
                for (auto& [key, f]: mo.m[k])
                    if ((f.local && !f.match.empty() && s_visible(key)) != (seen[key] == 1))
                        sim::fail_now("map-tracked", fmt("%s (%s, %zu matches at the last frame, %s) is given %d times to the optical flow", name_of(key).c_str(),
                                                         f.local ? "local" : "staged", f.match.size(), s_visible(key) ? "visible" : "not visible", seen[key]));
        }
        if (o.chance(pReset))
        {
            hist += "reset ";
            sim::count("fault.map-reset");
            record = Rec();
            map->reset();
            for (auto& m: mo.m)
                m.clear();
            settle_exports("reset");
            check_content("reset");
            continue;
        }

        // ---- matching
        record = Rec();
        const matches_containers::match_container matches = map->find_feature_matches(pose, detected);
        std::map<std::pair<uint64_t, size_t>, int> reported;
        for (auto& x: matches)
        {
            auto& mm = dynamic_cast<MockMatch&>(*x);
            if (++reported[{mm._key, x->_detectedFeatureId}] > 1)
                sim::fail_now("map-match", fmt("the match of %s is reported twice", name_of(mm._key).c_str()));
        }
        size_t expectedMatches = 0;
        for (int k = 0; k < MAPS; ++k)
        {
            for (auto& [key, f]: mo.m[k])
                f.match.clear();
            const size_t nd = world.dets[k].size();
            size_t at = 0;
            auto& calls = record.find[k];
            for (int pass = 0; pass < 2; ++pass)
            {
                for (auto& [key, f]: mo.m[k])
                    f.match.clear();
                std::vector<bool> flags(nd, false);
                std::set<uint64_t> expected;
                size_t locals = 0, fromLocal = 0, added = 0, visited = 0;
                for (auto& [key, f]: mo.m[k])
                    if (s_visible(key) && !s_moving(key))
                        expected.insert(key), locals += f.local;
                const size_t total = expected.size();
                std::map<std::pair<uint64_t, size_t>, int> thisPass;
                for (; visited < total; ++visited, ++at)
                {
                    if (at >= calls.size())
                        sim::fail_now("map-match", fmt("map %d: %zu features that could be seen are not searched in the detections", k, total - visited));
                    const FindCall& c = calls[at];
                    if (!expected.erase(c.key))
                        sim::fail_now("map-match", fmt("map %d: %s is searched although it %s", k, name_of(c.key).c_str(),
                                                       s_moving(c.key) ? "moves" : !s_visible(c.key) ? "cannot be seen" : "is gone or was searched already"));
                    if (c.local != (visited < locals))
                        sim::fail_now("map-match", fmt("map %d: a staged feature is searched before all the local ones were", k));
                    if (c.advanced != (pass == 1))
                        sim::fail_now("map-match", fmt("map %d: search number %d is %s", k, pass + 1, c.advanced ? "an advanced one" : "not an advanced one"));
                    if (c.flags != flags)
                        sim::fail_now("map-match", fmt("map %d: the detections taken by other features are not flagged as such", k));
                    if (!c.local && c.add != (fromLocal < world.minOpti[k] * 3))
                        sim::fail_now("map-match", fmt("map %d: staged features %s the optimisation with %zu matches of the local map and a minimum of %zu", k,
                                                       c.add ? "join" : "do not join", fromLocal, world.minOpti[k]));
                    if (c.local && !c.add)
                        sim::fail_now("map-match", fmt("map %d: a local feature does not join the optimisation", k));
                    for (size_t i: c.ret)
                    {
                        flags[i] = true;
                        if (c.add)
                            ++added, thisPass[{c.key, i}]++;
                        if (c.local)
                            ++fromLocal;
                    }
                    mo.m[k][c.key].match = c.ret;
                }
                if (added >= world.minOpti[k] || pass == 1)
                {
                    for (auto& [p, n]: thisPass)
                        if (!reported.count(p))
                            sim::fail_now("map-match", fmt("map %d: the match of %s with detection %zu is not reported", k, name_of(p.first).c_str(), p.second));
                    expectedMatches += thisPass.size();
                    break;
                }
            }
            if (at != calls.size())
                sim::fail_now("map-match", fmt("map %d: %zu searches too many", k, calls.size() - at));
        }
        if (expectedMatches != matches.size())
            sim::fail_now("map-match", fmt("%zu matches are reported, %zu were made", matches.size(), expectedMatches));
        sim::count("map.matches", matches.size());

        // ---- the frame could not be tracked
        if (o.chance(pFail))
        {
            hist += "failed ";
            sim::count("fault.untracked-frame");
            record = Rec();
            map->update_no_pose();
            for (int k = 0; k < MAPS; ++k)
                for (auto it = mo.m[k].begin(); it != mo.m[k].end();)
                {
                    const uint64_t key = it->first;
                    F& f = it->second;
                    ++it;
                    f.match.clear();
                    f.failed++;
                    f.succ--;
                    if (f.local && f.failed >= world.loseAfter)
                        lost(k, key, false);
                    else if (!f.local && f.failed >= world.dropAfter)
                        mo.m[k].erase(key);
                }
            settle_exports("untracked frame");
            check_content("untracked frame");
            if (o.chance(0.4) && !badCov)
            {
                hist += "all ";
                map->add_all_features_to_map(pose.get_position_variance(), c2w, detected);
                for (int k = 0; k < MAPS; ++k)
                    for (auto& d: world.dets[k])
                        if (d.addable && !d.broken)
                            born(d.key), mo.m[k][d.key] = F();
                check_content("all features added");
            }
            continue;
        }

        // ---- the frame is tracked
        matches_containers::match_container outliers;
        for (auto& x: matches)
            if (o.chance(pOutlier))
                outliers.push_back(x);
        if (o.chance(pOutlier * 0.3))
            outliers.push_back(std::make_shared<MockMatch>(99999999, 0, static_cast<int>(o.below(MAPS)), 0)); // of a feature that is gone
        sim::count("fault.outlier", outliers.size());
        record = Rec();
        bool threw = false;
        try
        {
            map->update(pose, detected, outliers);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (threw != badCov)
            sim::fail_now("map-bad-pose", badCov ? "a pose with an invalid covariance is used to update the map" : "the update of the map failed");
        if (badCov)
        {
            hist += "bad-pose ";
            sim::count("fault.bad-pose-covariance");
            settle_exports("refused pose");
            check_content("refused pose");
            continue;
        }
        hist += "ok ";
        const std::vector<Update> updates = record.updates;
        std::map<std::pair<uint64_t, uint64_t>, int> updated;
        for (auto& u: updates)
        {
            updated[{u.key, u.det}]++;
            if ((u.cov - pose.get_position_variance()).norm() > 1e-9 || (u.pose - c2w).norm() > 1e-6)
                sim::fail_now("map-update", fmt("%s is updated with another pose", name_of(u.key).c_str()));
        }
        for (auto& x: outliers)
            for (auto& m: mo.m)
                if (auto it = m.find(dynamic_cast<MockMatch&>(*x)._key); it != m.end())
                    it->second.match.erase(x->_detectedFeatureId);
        size_t expectedUpdates = 0;
        std::vector<std::pair<int, uint64_t>> unsure; // detections whose feature refused them: staged again or not
        for (int k = 0; k < MAPS; ++k)
        {
            std::set<size_t> used, either;
            for (auto it = mo.m[k].begin(); it != mo.m[k].end();)
            {
                const uint64_t key = it->first;
                F& f = it->second;
                ++it;
                bool ok = false;
                for (size_t i: f.match)
                {
                    ++expectedUpdates;
                    if (updated[{key, world.dets[k][i].key}] != 1)
                        sim::fail_now("map-update", fmt("%s of map %d is updated %d times with the detection it is matched to", name_of(key).c_str(), k,
                                                        updated[{key, world.dets[k][i].key}]));
                    if (!s_refuse(key, world.dets[k][i].key))
                        ok = true, used.insert(i);
                    else if (!f.local)
                        either.insert(i);
                }
                if (ok)
                    f.failed = 0, f.succ++;
                else
                    f.failed++, f.succ--, f.match.clear();
                if (f.local)
                {
                    if (f.failed >= world.loseAfter)
                        lost(k, key, true);
                }
                else if (f.succ >= world.addAfter)
                {
                    if (!s_broken_local(key))
                        f.local = true;
                    else
                    {
                        sim::count("fault.broken-local-feature");
                        unsure.push_back({k, key});
                    }
                }
                else if (f.failed >= world.dropAfter)
                    mo.m[k].erase(key);
            }
            for (size_t i = 0; i < world.dets[k].size(); ++i)
            {
                const Det& d = world.dets[k][i];
                if (used.count(i) || !d.addable || d.broken)
                    continue;
                born(d.key), mo.m[k][d.key] = F();
                if (either.count(i))
                    unsure.push_back({k, d.key});
            }
        }
        if (expectedUpdates != updates.size())
            sim::fail_now("map-update", fmt("%zu updates of features by detections, %zu expected", updates.size(), expectedUpdates));
        // what the text leaves open is taken from the map itself
        {
            const Rec keep = record;
            record = Rec();
            map->get_debug_image(utils::Pose(), true, image);
            for (auto& [k, key]: unsure)
            {
                bool there = false; // itself, or what it was upgraded to
                uint64_t kk = key;
                for (int depth = 0; depth < 4; ++depth, kk = upgraded_key(kk))
                    for (int t = 0; t < MAPS; ++t)
                        for (auto& dr: record.drawn[t])
                            there |= dr.first == kk;
                if (!there)
                    mo.m[k].erase(key);
            }
            record = keep;
        }
        // ---- upgrades, map after map
        for (int k = 0; k < MAPS; ++k)
        {
            std::vector<std::pair<uint64_t, std::set<size_t>>> up[MAPS];
            for (auto it = mo.m[k].begin(); it != mo.m[k].end();)
            {
                const int u = s_upgrade(it->first, k);
                if (u >= 0)
                {
                    sim::count("map.upgrades");
                    up[u].push_back({it->first, it->second.match});
                    it = mo.m[k].erase(it);
                }
                else
                    ++it;
            }
            for (int t = 0; t < MAPS; ++t)
                for (auto& [key, m]: up[t])
                {
                    F f;
                    f.local = true;
                    f.match = m;
                    const uint64_t nk = upgraded_key(key);
                    born(nk);
                    mo.m[t][nk] = f;
                }
        }
        settle_exports("tracked frame");
        check_content("tracked frame");
        uint64_t h = 1;
        for (int k = 0; k < MAPS; ++k)
            for (auto& [key, f]: mo.m[k])
                h = sim::hash_mix(h, sim::hash_mix(world.index[key], f.local * 1000 + f.failed * 100 + f.succ));
        sim::state(h);
        sim::mix(h);
    }

    // ---- the end: what is still in the local map goes to the file
    record = Rec();
    for (int k = 0; k < MAPS; ++k)
        for (auto& [key, f]: mo.m[k])
            if (f.local)
                (s_moving(key) ? mo.may : mo.must)[key]++;
    map.reset();
    settle_exports("end");
    sim::stop();
    std::ifstream in("out.obj");
    std::string line;
    std::map<int, int> vertices;
    while (std::getline(in, line))
    {
        double x, y, z;
        if (sscanf(line.c_str(), "v %lf %lf %lf", &x, &y, &z) == 3)
            vertices[static_cast<int>(std::lround(x))]++;
    }
    for (auto& [key, n]: exportedMust)
        if (vertices[world.index[key]] != 1)
            sim::fail_now("map-file", fmt("%s is %d times in the map file", name_of(key).c_str(), vertices[world.index[key]]));
    for (auto& [i, n]: vertices)
    {
        bool ok = n == 0;
        for (auto& [key, e]: exportedMust)
            ok |= world.index[key] == i && n == 1;
        for (auto& [key, e]: exportedMay)
            ok |= world.index[key] == i && n == 1;
        if (!ok)
            sim::fail_now("map-file", fmt("feature %d is %d times in the map file", i, n));
    }
    sim::count("map.exports", exportedMust.size());
    sim::nontrivial();
    sim::sample(fmt("%d frames (%s), %zu features, %zu exported", frames, hist.c_str(), world.index.size(), exportedMust.size()));
}
