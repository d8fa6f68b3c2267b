// C07: the pose optimisation keeps the largest consensus it saw. C08: the pose variance is the spread of all its samples.
#include "scn.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "parameters.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <map>
#include <memory>
#include <mutex>
using namespace rgbd_slam;
using rgbd_slam::matches_containers::match_container;
using rgbd_slam::matches_containers::match_sets;
using rgbd_slam::pose_optimization::Pose_Optimization;

namespace {
struct P
{
    vector3 p;
    quaternion q;
};
quaternion rot(sim::Rng& r, double maxAngle)
{
    return quaternion(Eigen::AngleAxisd(r.range(-maxAngle, maxAngle), vector3(r.normal(), r.normal(), r.normal()).normalized()));
}
matrix44 w2c(const P& p) { return utils::compute_world_to_camera_transform(p.q, p.p); }

struct Sample
{
    P target;
    bool ok;
};
struct Shared
{
    uint64_t seed = 0;
    double tol = 1, vp = 0, vr = 0, pFailVar = 0;
    int parts = 12;
    double score = 0.2;
    std::map<uint64_t, std::vector<std::pair<const void*, bool>>> evals; // candidate pose -> verdicts
    uint64_t evalCalls = 0;
    std::vector<std::vector<Sample>> samples; // per round, one by feature
};
Shared* sh = nullptr;

// a match that is satisfied by one pose only
struct Mock : matches_containers::IOptimizationFeature
{
    Mock(size_t id, const P& t, int group, bool valid = true, int sampleOf = -1, double score = -1) :
        IOptimizationFeature(id, id), _t(t), _m(w2c(t)), _group(group), _valid(valid), _score(score < 0 ? sh->score : score)
    {
        (void)sampleOf;
    }
    size_t get_feature_part_count() const noexcept override { return 12; }
    double get_score() const noexcept override { return _score; }
    bool is_inlier(const WorldToCameraMatrix& w) const noexcept override
    {
        sim::yield("is_inlier");
        const bool in = error(w).norm() <= sh->tol;
        sh->evals[sim::hash_matrix(1, w)].push_back({this, in});
        sh->evalCalls++;
        return in;
    }
    vectorxd error(const matrix44& w) const
    {
        vectorxd d(12);
        for (int c = 0; c < 4; ++c)
            for (int r = 0; r < 3; ++r)
                d[c * 3 + r] = (w(r, c) - _m(r, c)) * (c < 3 ? 1000 : 1);
        return d;
    }
    vectorxd get_distance(const WorldToCameraMatrix& w) const noexcept override { return error(w); }
    double get_alpha_reduction() const noexcept override { return 1; }
    matches_containers::feat_ptr compute_random_variation() const noexcept override
    {
        // a draw of its own: neither the worker nor the moment matter to the spread that is expected
        sim::yield("variation");
        const uint64_t n = _draws++;
        sim::Rng r = sim::rng_for(sh->seed, 5000 + _idInMap, n);
        P t = _t;
        t.p += vector3(r.normal(), r.normal(), r.normal()) * sh->vp;
        t.q = t.q * quaternion(Eigen::AngleAxisd(r.normal() * sh->vr, vector3(r.normal(), r.normal(), r.normal()).normalized()));
        const bool ok = !sim::rng_for(sh->seed, 6000, n).chance(sh->pFailVar);
        if (sh->samples.size() <= n)
            sh->samples.resize(n + 1);
        sh->samples[n].push_back({t, ok});
        return std::make_shared<Mock>(_idInMap, t, _group, true, static_cast<int>(n), ok ? _score : 0.0);
    }
    bool is_valid() const noexcept override { return _valid; }
    FeatureType get_feature_type() const noexcept override { return FeatureType::Point; }
    P _t;
    matrix44 _m;
    int _group;
    bool _valid;
    double _score;
    mutable uint64_t _draws = 0;
};

// how far two poses are
void pose_error(const utils::PoseBase& a, const P& b, double& mm, double& deg)
{
    mm = (a.get_position() - b.p).norm();
    deg = a.get_orientation_quaternion().angularDistance(b.q) * 180 / M_PI;
}
void check_partition(const match_container& all, const match_sets& sets)
{
    std::map<const void*, int> n;
    for (auto& x: sets._inliers)
        n[x.get()]++;
    for (auto& x: sets._outliers)
        n[x.get()] += 1000;
    for (auto& x: all)
    {
        const int k = n[x.get()];
        if (k != 1 && k != 1000)
            sim::fail_now("consensus-partition", fmt("match %zu is %d times among the inliers and %d times among the outliers", x->_idInMap, k % 1000, k / 1000));
        n.erase(x.get());
    }
    if (!n.empty())
        sim::fail_now("consensus-partition", fmt("%zu matches come out that were not given", n.size()));
}
// spread of the poses: mean of the squared offsets along the position and the rotation vector around the mean
void spread(const std::vector<P>& v, vector3& pos, double& rotTrace)
{
    vector3 mean = vector3::Zero();
    Eigen::Vector4d qm = Eigen::Vector4d::Zero();
    for (auto& s: v)
    {
        mean += s.p;
        qm += s.q.coeffs() * (s.q.coeffs().dot(v[0].q.coeffs()) < 0 ? -1.0 : 1.0);
    }
    mean /= v.size();
    const quaternion qc(qm.normalized());
    pos.setZero();
    rotTrace = 0;
    for (auto& s: v)
    {
        pos += (s.p - mean).cwiseAbs2();
        rotTrace += std::pow(qc.angularDistance(s.q), 2);
    }
    pos /= v.size() - 1;
    rotTrace /= v.size() - 1;
}
} // namespace

// matches that agree on one pose or another, gross errors among them
SCENARIO(consensus)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::knobs().max_helpers = std::max(sim::knobs().max_helpers, static_cast<int>(r.below(3)));
    sim::knobs().preempt_p = std::max(sim::knobs().preempt_p, 0.01);
    sim::set_crash_class("consensus");
    sim::capture_output(true);
    Shared s;
    sh = &s;
    s.seed = sim::seed();
    const double scores[] = {0.2, 0.25, 1.0 / 3, 0.5, 1.0};
    s.score = scores[r.below(5)];
    s.vp = r.chance(0.2) ? 0 : r.range(0, 5);
    s.vr = r.chance(0.2) ? 0 : r.range(0, 0.01);
    s.pFailVar = r.chance(0.15) ? r.range(0, 0.9) : 0;
    const double maxRot = r.chance(0.3) ? 3.1 : 0.6;
    const P truth {vector3(r.range(-2000, 2000), r.range(-2000, 2000), r.range(-2000, 2000)), rot(r, maxRot)};
    const P start {truth.p + vector3(r.normal(), r.normal(), r.normal()) * 40, truth.q * rot(r, 0.1)};
    const int groups = 1 + static_cast<int>(r.below(3));
    std::vector<P> gp {truth};
    for (int g = 1; g < groups; ++g)
        gp.push_back({truth.p + vector3(r.normal(), r.normal(), r.normal()).normalized() * r.range(60, 300), truth.q * rot(r, 0.2)});
    const int n = 1 + static_cast<int>(r.below(r.chance(0.2) ? 60 : 24));
    // at times so few agree that only one or two candidates of the whole search find them
    const double share = r.chance(0.3) ? r.range(0.2, 0.45) : r.range(0.4, 1), noise = r.chance(0.3) ? 0 : r.range(0, 0.5);
    // often narrow enough for the candidates of one group to satisfy more or less of its matches
    s.tol = noise > 0 && r.chance(0.7) ? noise * r.range(1, 3) : 1 + noise * 30;
    match_container all;
    bool invalid = false;
    int ops = 0;
    for (int i = 0; i < n; ++i)
    {
        sim::Rng o = sim::rng_for(sim::seed(), 33, i);
        int g = o.chance(share) ? 0 : groups > 1 && o.chance(0.7) ? 1 + static_cast<int>(o.below(groups - 1)) : -1;
        P t = g >= 0 ? gp[g] : P {truth.p + vector3(o.normal(), o.normal(), o.normal()) * 500, truth.q * rot(o, 0.4)};
        t.p += vector3(o.normal(), o.normal(), o.normal()) * noise;
        const bool bad = o.chance(0.002);
        if (!sim::op_enabled(i))
            continue;
        invalid |= bad;
        ++ops;
        all.push_back(std::make_shared<Mock>(i + 1, t, g, !bad));
    }
    sim::count("ops.generated", n);
    sim::count("fault.outlier-match", std::count_if(all.begin(), all.end(), [](auto& x) { return dynamic_cast<Mock&>(*x)._group != 0; }));
    if (invalid)
        sim::count("fault.invalid-match");
    const bool enough = ops * s.score >= 1 - 1e-12;
    sim::start();
    utils::Pose result;
    match_sets sets;
    const bool ok = Pose_Optimization::compute_optimized_pose(utils::PoseBase(start.p, start.q), all, result, sets);
    sim::stop();

    if (ok && invalid)
        sim::fail_now("consensus-invalid", "a pose is computed although a match holds undefined values");
    if (ok && !enough)
        sim::fail_now("consensus-few", fmt("a pose is computed from %d matches of score %g", ops, s.score));
    size_t best = 0, evals = 0;
    for (auto& [h, v]: s.evals)
    {
        if (v.size() % std::max<size_t>(1, all.size()) != 0)
            continue;
        std::set<const void*> in;
        for (auto& [f, yes]: v)
            if (yes)
                in.insert(f);
        best = std::max(best, in.size());
        evals += v.size() / all.size();
    }
    size_t samplesOk = 0;
    std::vector<P> means;
    for (auto& round: s.samples)
    {
        if (!round.empty() && round[0].ok)
            ++samplesOk;
    }
    if (!ok && !invalid && enough && best * s.score >= 1 - 1e-12 && s.pFailVar < 0.3)
        sim::fail_now("consensus-refused", fmt("no pose although a candidate satisfies %zu of the %d matches (score %g each)", best, ops, s.score));
    if (!invalid && enough && evals < 60 && best <= std::ceil(0.8 * ops))
        sim::fail_now("consensus-search", fmt("only %zu candidate poses were tried, the best one satisfies %zu of %d matches", evals, best, ops));
    if (ok)
    {
        check_partition(all, sets);
        if (sets._inliers.size() < best)
            sim::fail_now("consensus-smaller", fmt("the pose kept satisfies %zu matches, a candidate satisfied %zu of %d", sets._inliers.size(), best, ops));
        // the pose is the one its inliers agree on
        P mean {vector3::Zero(), quaternion(dynamic_cast<Mock&>(*sets._inliers.front())._t.q)};
        int group = dynamic_cast<Mock&>(*sets._inliers.front())._group;
        bool mixed = false;
        double far = 0;
        for (auto& x: sets._inliers)
        {
            mean.p += dynamic_cast<Mock&>(*x)._t.p;
            mixed |= dynamic_cast<Mock&>(*x)._group != group;
        }
        mean.p /= sets._inliers.size();
        double mm, deg;
        pose_error(result, mean, mm, deg);
        (void)far;
        if (!mixed && group >= 0 && (mm > 0.2 + 3 * noise || deg > 0.05))
            sim::fail_now("consensus-pose", fmt("the pose is %g mm and %g degrees away from the one its %zu inliers agree on", mm, deg, sets._inliers.size()));
        if (!(std::abs(result.get_orientation_quaternion().norm() - 1) < 1e-6))
            sim::fail_now("consensus-pose", "the orientation is not of unit length");
        std::string why;
        if (!utils::is_covariance_valid(result.get_pose_variance(), why))
            sim::fail_now("consensus-variance", "the variance of the pose is not valid: " + why);
        sim::mix(sim::hash_matrix(1, result.get_position()));
        sim::state(sim::hash_mix(sim::hash_matrix(1, result.get_position()), sets._inliers.size()));
        sim::count("consensus.found");
    }
    sim::nontrivial();
    sim::sample(fmt("%d matches of score %g, %d groups, share %.2f: %s, %zu candidates, best %zu", ops, s.score, groups, share, ok ? "pose" : "no pose", evals, best));
}

SCENARIO(variance)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("variance");
    sim::capture_output(true);
    Shared s;
    sh = &s;
    s.seed = sim::seed();
    s.score = 1.0;
    s.vp = r.chance(0.1) ? 0 : std::pow(10, r.range(-2, 1.5));
    s.vr = r.chance(0.1) ? 0 : std::pow(10, r.range(-4, -1.5));
    s.pFailVar = r.chance(0.3) ? r.range(0, 1) : 0;
    const double maxRot = r.chance(0.4) ? 3.1 : r.chance(0.5) ? 0.8 : 0.02;
    const P truth {vector3(r.range(-2000, 2000), r.range(-2000, 2000), r.range(-2000, 2000)), rot(r, maxRot)};
    const uint iterations = r.chance(0.05) ? static_cast<uint>(r.below(2)) : 2 + static_cast<uint>(r.below(r.chance(0.2) ? 150 : 40));
    match_container all {std::make_shared<Mock>(1, truth, 0)};
    sim::count("ops.generated", 1);
    sim::start();
    matrix66 cov = matrix66::Constant(-7);
    const bool ok = Pose_Optimization::compute_pose_variance(utils::PoseBase(truth.p, truth.q), all, cov, iterations);
    sim::stop();
    std::vector<P> good;
    for (auto& round: s.samples)
        for (auto& x: round)
            if (x.ok)
                good.push_back(x.target);
    sim::count("fault.failed-sample", s.samples.size() - good.size());
    if (s.samples.size() != iterations)
        sim::fail_now("variance-samples", fmt("%zu samples are drawn for %u iterations", s.samples.size(), iterations));
    const bool usable = good.size() >= 2 && good.size() >= iterations / 2;
    if (ok && !usable)
        sim::fail_now("variance-few", fmt("a variance is given with %zu usable samples out of %u", good.size(), iterations));
    if (!ok && usable)
        sim::fail_now("variance-refused", fmt("no variance with %zu usable samples out of %u", good.size(), iterations));
    if (ok)
    {
        std::string why;
        if (!utils::is_covariance_valid(cov, why))
            sim::fail_now("variance-invalid", why);
        vector3 pos;
        double rotTrace;
        spread(good, pos, rotTrace);
        for (int i = 0; i < 3; ++i)
            if (!(std::abs(cov(i, i) - 0.001 - pos[i]) <= 1e-2 * pos[i] + 1e-3))
                sim::fail_now("variance-position", fmt("the variance of the position along axis %d is %g, the %zu samples give %g", i, cov(i, i), good.size(), pos[i]));
        // (orientation: the trace depends on the parametrisation, it is compared where the angles are far from their singularity)
        const matrix33 R = truth.q.toRotationMatrix();
        const double pitch = std::asin(std::min(1.0, std::abs(R(0, 2))));
        if (pitch < 0.9)
        {
            const double t = cov(3, 3) + cov(4, 4) + cov(5, 5) - 0.003;
            if (!(t <= 8 * rotTrace + 1e-3) || !(t >= rotTrace / 8 - 1e-3))
                sim::fail_now("variance-orientation", fmt("the variances of the orientation add up to %g rad2, the %zu samples give %g", t, good.size(), rotTrace));
        }
        sim::mix(sim::hash_matrix(1, cov));
        sim::state(sim::hash_matrix(1, cov));
    }
    sim::nontrivial();
    sim::sample(fmt("%u iterations, %zu usable, spread %.3f mm %.4f rad: %s", iterations, good.size(), s.vp, s.vr, ok ? "variance" : "none"));
}

// The map features of the system itself: points, inverse depth points and planes of a known room seen from a known place
SCENARIO(consensus_real)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    sim::set_crash_class("consensus");
    sim::capture_output(true);
    Parameters::load_defaut();
    const auto center = Parameters::get_camera_1_center();
    const auto focal = Parameters::get_camera_1_focal();
    const auto size = Parameters::get_camera_1_image_size();
    const P truth {vector3(r.range(-1000, 1000), r.range(-1000, 1000), r.range(-1000, 1000)), rot(r, r.chance(0.3) ? 3.1 : 0.5)};
    const P start {truth.p + vector3(r.normal(), r.normal(), r.normal()) * 25, truth.q * rot(r, 0.05)};
    // camera: x right, y down, z forward; world: x forward, y left, z up
    matrix33 W;
    W << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    const matrix33 R = W * truth.q.toRotationMatrix();
    const vector3 eye = W * truth.p;
    const int kinds = 1 + static_cast<int>(r.below(7)); // bits: points, inverse depth points, planes
    const double outlierShare = r.chance(0.4) ? 0 : r.range(0, 0.3), noise = r.chance(0.3) ? 0 : r.range(0, 0.5);
    match_container all;
    std::map<const void*, bool> gross;
    std::map<const void*, int> kindOf;
    int n[3] = {0, 0, 0}, good[3] = {0, 0, 0}, ops = 0;
    auto add = [&](int kind, bool bad, matches_containers::feat_ptr f) {
        if (!sim::op_enabled(ops++))
            return;
        gross[f.get()] = bad;
        kindOf[f.get()] = kind;
        n[kind]++;
        good[kind] += !bad;
        if (bad)
            sim::count(kind == 0 ? "fault.wrong-point-match" : kind == 1 ? "fault.wrong-point2d-match" : "fault.wrong-plane-match");
        all.push_back(f);
    };
    auto see = [&](const vector3& c) { return vector2(center.x() + focal.x() * c.x() / c.z(), center.y() + focal.y() * c.y() / c.z()); };
    size_t id = 1;
    for (int kind = 0; kind < 2; ++kind)
        if (kinds & (1 << kind))
        {
            const int k = static_cast<int>(r.below(40));
            for (int i = 0; i < k; ++i)
            {
                const bool bad = r.chance(outlierShare);
                const vector2 px(r.range(5, size.x() - 5), r.range(5, size.y() - 5));
                const double z = r.range(500, 4000);
                const vector3 cam((px.x() - center.x()) / focal.x() * z, (px.y() - center.y()) / focal.y() * z, z);
                const vector3 w = R * cam + eye;
                vector2 seen = see(cam);
                const double a = r.range(0, 2 * M_PI);
                seen += vector2(r.normal(), r.normal()) * noise;
                const vector3 o = eye + R * (cam.unitOrthogonal() * r.range(100, 300));
                if (bad && kind == 0)
                    seen += vector2(std::cos(a), std::sin(a)) * r.range(60, 300);
                else if (bad)
                {
                    // only errors across the line of sight of the first observation can be told
                    const vector2 along = (see(R.transpose() * (w + (w - o) * 0.05 - eye)) - see(cam)).normalized();
                    seen += vector2(-along.y(), along.x()) * (r.chance(0.5) ? 1 : -1) * r.range(60, 300);
                }
                if (kind == 0)
                    add(0, bad, std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), WorldCoordinate(w), vector3::Constant(r.range(0, 3)), id, id));
                else
                {
                    const auto ip = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(w), WorldCoordinate(o));
                    vector6 sd = vector6::Zero();
                    sd(InverseDepthWorldPoint::inverseDepthIndex) = ip.get_inverse_depth() * r.range(0, 0.05);
                    sd(InverseDepthWorldPoint::thetaIndex) = r.range(0, 0.001);
                    sd(InverseDepthWorldPoint::phiIndex) = r.range(0, 0.001);
                    add(1, bad, std::make_shared<map_management::Point2dOptimizationFeature>(ScreenCoordinate2D(seen.x(), seen.y()), ip, sd, id, id));
                }
                ++id;
            }
        }
    matrix33 nn = matrix33::Zero();
    if (kinds & 4)
    {
        const int k = static_cast<int>(r.below(8));
        for (int i = 0; i < k; ++i)
        {
            const bool bad = r.chance(outlierShare);
            vector3 nc = vector3(r.normal(), r.normal(), r.normal()).normalized();
            const double dc = r.range(500, 4000);
            const vector3 nw = R * nc;
            const double dw = dc - nw.dot(eye);
            double ds = dc + r.normal() * noise;
            vector3 ns = nc;
            if (bad && r.chance(0.5))
                ds += (r.chance(0.5) ? 1 : -1) * r.range(300, 450);
            else if (bad)
                ns = rot(r, 0.1) * Eigen::AngleAxisd(r.range(0.9, 1.5), nc.unitOrthogonal()) * nc;
            if (!bad && sim::op_enabled(ops))
                nn += nw * nw.transpose();
            add(2, bad, std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(ns, ds), PlaneWorldCoordinates(nw, dw), vector4(0.001, 0.001, 0.001, r.range(0, 3)), id, id));
            ++id;
        }
    }
    sim::count("ops.generated", ops);
    double score = 0, goodScore = 0;
    for (int k = 0; k < 3; ++k)
    {
        score += n[k] * (k == 2 ? 1.0 / 3 : 0.2);
        goodScore += good[k] * (k == 2 ? 1.0 / 3 : 0.2);
    }
    sim::start();
    utils::Pose result;
    match_sets sets;
    const bool ok = Pose_Optimization::compute_optimized_pose(utils::PoseBase(start.p, start.q), all, result, sets);
    sim::stop();
    if (ok && score < 1 - 1e-9)
        sim::fail_now("consensus-few", fmt("a pose is computed from matches of score %g", score));
    // enough good matches that fix every direction, few wrong ones
    const bool planesFix = Eigen::SelfAdjointEigenSolver<matrix33>(nn).eigenvalues()[0] > 0.3;
    const bool fixed = good[0] >= 8 || (planesFix && good[2] >= 3 && good[0] >= 5);
    const double share = all.empty() ? 0 : double(good[0] + good[1] + good[2]) / all.size();
    const bool easy = fixed && share >= 0.75 && goodScore >= 1.6 && (n[2] == 0 || good[2] >= 0.75 * n[2]) && good[0] >= 0.75 * n[0];
    double mm = -1, deg = -1;
    if (easy && !ok)
        sim::fail_now("consensus-refused", fmt("no pose although %d of %d points, %d of %d inverse depth points and %d of %d planes agree", good[0], n[0], good[1], n[1], good[2], n[2]));
    if (ok)
    {
        check_partition(all, sets);
        std::string why;
        if (!utils::is_covariance_valid(result.get_pose_variance(), why))
            sim::fail_now("consensus-variance", "the variance of the pose is not valid: " + why);
        if (!(std::abs(result.get_orientation_quaternion().norm() - 1) < 1e-6) || result.get_position().hasNaN())
            sim::fail_now("consensus-pose", "the pose is undefined");
        pose_error(result, truth, mm, deg);
        sim::mix(sim::hash_matrix(1, result.get_position()));
        sim::state(sim::hash_mix(sim::hash_matrix(1, result.get_position()), sets._inliers.size()));
        sim::count("consensus.found");
    }
    if (ok && easy)
    {
        sim::count("consensus.easy");
        sim::note_max("max.error_um", static_cast<uint64_t>(1000 * mm));
        sim::note_max("max.error_mdeg", static_cast<uint64_t>(1000 * deg));
        if (mm > 30 || deg > 1.0)
            sim::fail_now("consensus-pose", fmt("the pose is %g mm and %g degrees away from the true one (%d points, %d inverse depth points and %d planes agree, noise %g)", mm, deg, good[0], good[1], good[2], noise));
        static const char* names[] = {"point", "inverse depth point", "plane"};
        for (auto& x: sets._inliers)
            if (gross[x.get()])
                sim::fail_now("consensus-outlier", fmt("a wrong match of a %s is among the inliers", names[kindOf[x.get()]]));
        int lost = 0;
        for (auto& x: sets._outliers)
            lost += !gross[x.get()];
        if (lost > 2 + 0.25 * all.size())
            sim::fail_now("consensus-lost", fmt("%d right matches of %zu are rejected", lost, all.size()));
    }
    sim::nontrivial();
    sim::sample(fmt("%d of %d points, %d of %d inverse depth points, %d of %d planes agree, noise %.2f: %s %.2f mm %.3f deg", good[0], n[0], good[1], n[1], good[2], n[2], noise, ok ? "pose" : "no pose", mm, deg));
}
