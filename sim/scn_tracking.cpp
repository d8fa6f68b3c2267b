// C19: tracked points and inverse depth points under measurement faults. C20: motion model. C21: tracked planes.
#include "scn.hpp"
#include "parameters.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "tracking/motion_model.hpp"
#include "tracking/plane_with_tracking.hpp"
#include "tracking/point_with_tracking.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <limits>
#include <memory>
#include <thread>
using namespace rgbd_slam;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();

template<int N> using Mat = Eigen::Matrix<double, N, N>;
template<int N> using Vec = Eigen::Matrix<double, N, 1>;

template<int N> Mat<N> random_cov(sim::Rng& r, double lo, double hi)
{
    // orthogonal basis times a spread of variances
    Mat<N> a;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
            a(i, j) = r.normal();
    const Mat<N> q = Eigen::HouseholderQR<Mat<N>>(a).householderQ();
    Vec<N> d;
    const double c = r.range(lo, hi);
    for (int i = 0; i < N; ++i)
        d[i] = std::pow(10.0, std::min(hi, std::max(lo, c + r.range(-1, 1))));
    if (r.chance(0.3))
        return Mat<N>(d.asDiagonal());
    Mat<N> m = q * d.asDiagonal() * q.transpose();
    return Mat<N>((m + m.transpose()) / 2);
}
template<int N> Mat<N> bad_cov(sim::Rng& r, const Mat<N>& good, std::string& label)
{
    Mat<N> m = good;
    switch (r.below(4))
    {
        case 0:
            m(static_cast<int>(r.below(N)), static_cast<int>(r.below(N))) = NaN;
            label = "nan-covariance";
            break;
        case 1:
            m(static_cast<int>(r.below(N)), static_cast<int>(r.below(N))) = std::numeric_limits<double>::infinity();
            label = "infinite-covariance";
            break;
        case 2:
            m = -m;
            label = "negative-covariance";
            break;
        default:
            m(0, N - 1) += good.trace();
            label = "asymmetric-covariance";
            break;
    }
    return m;
}
template<int N> bool psd(const Mat<N>& m)
{
    if (!m.allFinite() || !m.isApprox(m.transpose(), 1e-6))
        return false;
    Eigen::SelfAdjointEigenSolver<Mat<N>> s(m);
    return s.eigenvalues().minCoeff() >= -1e-7 * std::max(1e-300, s.eigenvalues().cwiseAbs().maxCoeff());
}
// the reference: a static state, observed directly
template<int N> void kalman(const Vec<N>& x, const Mat<N>& P, const Vec<N>& z, const Mat<N>& R, double q, Vec<N>& xo, Mat<N>& Po)
{
    const Mat<N> pp = P + q * Mat<N>::Identity();
    const Mat<N> s = pp + R;
    const Mat<N> k = s.transpose().fullPivLu().solve(pp.transpose()).transpose();
    xo = x + k * (z - x);
    Po = (Mat<N>::Identity() - k) * pp;
    Po = (Po + Po.transpose()) / 2;
}
quaternion random_rotation(sim::Rng& r, double maxAngle)
{
    vector3 axis(r.normal(), r.normal(), r.normal());
    if (axis.norm() < 1e-3)
        axis = vector3::UnitY();
    return quaternion(Eigen::AngleAxisd(r.range(-maxAngle, maxAngle), axis.normalized()));
}
void set_cameras()
{
    Parameters::load_defaut();
}
WorldCoordinateCovariance wcov(const matrix33& m)
{
    WorldCoordinateCovariance c;
    c << m;
    return c;
}

// ------------------------------------------------------------------ points
struct PointUnderTest
{
    std::unique_ptr<tracking::Point> p;
    vector3 truth;
    std::string hist;
};

void step_point(PointUnderTest& u, sim::Rng o)
{
    tracking::Point& p = *u.p;
    const vector3 x = p._coordinates;
    const matrix33 P = p._covariance;
    const bool moving = p.is_moving();
    matrix33 R = random_cov<3>(o, -2, 5);
    vector3 z = u.truth + vector3(o.normal(), o.normal(), o.normal()) * std::sqrt(R.trace() / 3) * o.range(0, 2);
    if (o.chance(0.1))
        z = vector3(o.range(-1e5, 1e5), o.range(-1e5, 1e5), o.range(-1e5, 1e5)); // gross outlier
    std::string label = "measure";
    bool bad = false;
    switch (o.below(8))
    {
        case 0:
            sim::count("fault.dropout");
            u.hist += "dropout ";
            return;
        case 1:
            R = bad_cov<3>(o, R, label);
            bad = true;
            break;
        case 2:
            if (o.chance(0.4))
            {
                z[static_cast<int>(o.below(3))] = NaN;
                label = "undefined-measurement";
                bad = true;
            }
            break;
        default: break;
    }
    const double score = p.track(WorldCoordinate(z), R);
    u.hist += label + (score < 0 ? "- " : "+ ");
    if (bad)
    {
        sim::count(("fault." + label).c_str());
        if (!(score < 0))
            sim::fail("point-bad-accepted", fmt("%s was accepted with score %g", label.c_str(), score));
        if (!(p._coordinates == x) || !(p._covariance == P) || p.is_moving() != moving)
            sim::fail("point-rejected-changed", label + ": the rejected measurement changed the point");
        return;
    }
    if (!(score >= 0))
        sim::fail("point-good-rejected", fmt("a valid measurement was rejected (score %g)", score));
    vector3 xr;
    matrix33 Pr;
    kalman<3>(x, P, z, R, 0.001, xr, Pr);
    const double innov = (z - x).norm();
    if (!psd<3>(p._covariance))
        sim::fail("point-covariance", "the covariance is not symmetric positive semi definite");
    if (!((p._coordinates - xr).norm() <= 1e-6 * (innov + x.norm()) + 1e-9))
        sim::fail("point-estimate", fmt("estimate off by %g mm, the innovation was %g mm", (p._coordinates - xr).norm(), innov));
    if (!((p._covariance - Pr).norm() <= 1e-6 * (P.norm() + 0.01)))
        sim::fail("point-estimate-covariance", fmt("covariance off by %g (norm before %g)", (p._covariance - Pr).norm(), P.norm()));
    if (!(std::abs(score - (p._coordinates - x).norm()) <= 1e-6 * (score + 1)))
        sim::fail("point-score", fmt("score %g, the point moved %g mm", score, (p._coordinates - x).norm()));
    // flagged as moving when the measurement is further away than its own standard deviation
    const vector3 d = x - z;
    bool far = false, clear = true, onlyPositive = true;
    for (int i = 0; i < 3; ++i)
    {
        const double s = std::sqrt(R(i, i));
        if (std::abs(std::abs(d[i]) - s) < 1e-6 * s)
            clear = false;
        if (std::abs(d[i]) > s)
        {
            far = true;
            if (d[i] > 0)
                onlyPositive = false; // moved towards the negative side of an axis
        }
    }
    if (clear && p.is_moving() != far)
        sim::fail(far && onlyPositive ? "point-moving-positive-side" : "point-moving",
                  fmt("moving flag %d for a displacement of %g %g %g with deviations %g %g %g", p.is_moving(), -d[0], -d[1], -d[2],
                      std::sqrt(R(0, 0)), std::sqrt(R(1, 1)), std::sqrt(R(2, 2))));
    sim::count("track.point");
}

// ------------------------------------------------------------------ inverse depth
struct IState
{
    vector3 o;
    double rho, th, ph;
    matrix66 C;
    cv::Mat d;
    bool operator==(const IState& s) const { return o == s.o && rho == s.rho && th == s.th && ph == s.ph && C == s.C; }
};
IState state_of(const tracking::PointInverseDepth& p)
{
    IState s;
    s.o = p._coordinates.get_first_observation();
    s.rho = p._coordinates.get_inverse_depth();
    s.th = p._coordinates.get_theta();
    s.ph = p._coordinates.get_phi();
    s.C = p._covariance;
    s.d = p._descriptor;
    return s;
}
using V6 = Eigen::Matrix<double, 6, 1>;
vector3 cart(const V6& v)
{
    return vector3(v[0], v[1], v[2]) + vector3(std::sin(v[4]) * std::cos(v[5]), std::sin(v[4]) * std::sin(v[5]), std::cos(v[4])) / v[3];
}
vector3 sph(const vector3& v) // inverse depth, theta, phi of a vector
{
    const double n = v.norm();
    return vector3(1 / n, std::acos(std::max(-1.0, std::min(1.0, v.z() / n))), std::atan2(v.y(), v.x()));
}
struct InverseUnderTest
{
    std::unique_ptr<tracking::PointInverseDepth> p;
    vector3 truth; // world
    std::string hist;
    int refused = 0;
    CameraToWorldMatrix c2w;
};
CameraToWorldMatrix c2w_of(const vector3& t, const quaternion& q)
{
    matrix44 m = matrix44::Identity();
    m.block<3, 3>(0, 0) = q.normalized().toRotationMatrix();
    m.block<3, 1>(0, 3) = t;
    CameraToWorldMatrix c;
    c << m;
    return c;
}

bool project(const CameraToWorldMatrix& c2w, const vector3& w, ScreenCoordinate& s)
{
    const matrix44 inv = matrix44(c2w).inverse();
    const vector3 c = (inv * w.homogeneous()).head<3>();
    if (c.z() < 60)
        return false;
    const auto f = Parameters::get_camera_1_focal();
    const auto ce = Parameters::get_camera_1_center();
    s = ScreenCoordinate(f.x() * c.x() / c.z() + ce.x(), f.y() * c.y() / c.z() + ce.y(), c.z());
    return s.x() > 0 && s.y() > 0 && s.x() < 2 * ce.x() && s.y() < 2 * ce.y();
}

void step_inverse(InverseUnderTest& u, sim::Rng o)
{
    auto& p = *u.p;
    const IState b = state_of(p);
    if (o.below(7) == 0)
    {
        sim::count("fault.dropout");
        return;
    }
    // the camera looks at the point from somewhere near
    const vector3 t = u.c2w.translation() + vector3(o.range(-300, 300), o.range(-300, 300), o.range(-100, 100));
    const CameraToWorldMatrix c2w = c2w_of(t, quaternion(u.c2w.rotation()) * random_rotation(o, 0.2));
    ScreenCoordinate s;
    if (!project(c2w, u.truth, s))
        return;
    s.x() += o.normal();
    s.y() += o.normal();
    s.z() += o.normal() * 5;
    matrix33 pose = random_cov<3>(o, -1, 2.5);
    std::string label = "measure";
    bool bad = false;
    const bool with3d = o.chance(0.5);
    switch (o.below(6))
    {
        case 0:
            pose = bad_cov<3>(o, pose, label);
            // a 3D observation only sees the sum of the pose and measure covariances
            bad = !with3d || !pose.allFinite();
            break;
        case 1:
            if (with3d)
            {
                const double bads[] = {0, -1, 12, 6001, 1e6, NaN};
                s.z() = bads[o.below(6)];
                label = "invalid-depth";
                bad = true;
            }
            break;
        default: break;
    }
    const cv::Mat desc = o.chance(0.3) ? cv::Mat() : cv::Mat(1, 32, CV_8U, cv::Scalar(static_cast<double>(o.below(255))));
    const bool ok = with3d ? p.track(s, c2w, pose, desc) : p.track(ScreenCoordinate2D(s.x(), s.y()), c2w, pose, desc);
    const IState a = state_of(p);
    u.hist += label + (with3d ? "3d" : "2d") + (ok ? "+ " : "- ");
    auto sameDesc = [](const cv::Mat& x, const cv::Mat& y) {
        return x.empty() == y.empty() && (x.empty() || (x.size() == y.size() && cv::norm(x, y, cv::NORM_L1) == 0));
    };
    if (bad)
    {
        sim::count(("fault." + label).c_str());
        if (ok)
            sim::fail("inverse-bad-accepted", label + " was accepted");
    }
    if (!ok)
    {
        if (!(a == b) || !sameDesc(a.d, b.d))
            sim::fail("inverse-rejected-changed", label + ": the rejected observation changed the point");
        if (!bad && psd<3>(pose))
        {
            // rounding makes the filter refuse a valid observation once in a while, not again and again
            sim::count("track.inverse_refused");
            sim::note_max("max.refused_in_a_row", ++u.refused);
            if (u.refused >= 15)
                sim::fail("inverse-good-rejected", fmt("%d valid observations in a row were refused", u.refused));
        }
        return;
    }
    if (!(a.o == b.o))
        sim::fail("inverse-first-observation", "the position of the first observation changed");
    if (!psd<3>(pose))
        return;
    if (!psd<6>(a.C))
        sim::fail("inverse-covariance", "the covariance is not symmetric positive semi definite");
    if (!(a.rho > 0) || !std::isfinite(a.rho) || !(a.th >= 0 && a.th <= M_PI) || !(std::abs(a.ph) <= M_PI))
        sim::fail("inverse-coordinates", fmt("coordinates out of range: %g %g %g", a.rho, a.th, a.ph));
    if (!desc.empty() ? !sameDesc(a.d, desc) : !sameDesc(a.d, b.d))
        sim::fail("inverse-descriptor", "the descriptor is not the one of the last described observation");
    // reference: cartesian filter on the point, the observation being the library's own projection of the measure
    vector3 z;
    matrix33 R;
    if (with3d)
    {
        z = s.to_world_coordinates(c2w);
        R = utils::get_world_point_covariance(s, c2w, pose);
    }
    else
    {
        const tracking::PointInverseDepth m(ScreenCoordinate2D(s.x(), s.y()), c2w, pose);
        z = m._coordinates.to_world_coordinates();
        R = tracking::PointInverseDepth::compute_cartesian_covariance(m._coordinates, m._covariance);
    }
    V6 v;
    v << b.o, b.rho, b.th, b.ph;
    Eigen::Matrix<double, 3, 6> J;
    for (int i = 0; i < 6; ++i)
    {
        V6 p1 = v, p2 = v;
        const double h = 1e-6 * std::max(std::abs(v[i]), i == 3 ? 1e-12 : 1e-3);
        p1[i] += h;
        p2[i] -= h;
        J.col(i) = (cart(p1) - cart(p2)) / (2 * h);
    }
    vector3 xr;
    matrix33 Pr;
    const vector3 x = cart(v);
    kalman<3>(x, matrix33(J * b.C * J.transpose()), z, R, 0.0001, xr, Pr);
    V6 va;
    va << a.o, a.rho, a.th, a.ph;
    const double err = (cart(va) - xr).norm(), scale = (z - x).norm() + 1e-3 * (x - b.o).norm() + 1;
    if (!(err <= 1e-3 * scale))
        sim::fail("inverse-estimate", fmt("estimate off by %g mm for an innovation of %g mm", err, (z - x).norm()));
    Eigen::Matrix<double, 3, 3> G;
    const vector3 rel = xr - b.o;
    if (rel.head<2>().norm() > 1e-2 * rel.norm() && rel.norm() > 1)
    {
        for (int i = 0; i < 3; ++i)
        {
            vector3 p1 = rel, p2 = rel;
            const double h = 1e-5 * rel.norm();
            p1[i] += h;
            p2[i] -= h;
            vector3 df = sph(p1) - sph(p2);
            if (df[2] > M_PI)
                df[2] -= 2 * M_PI;
            if (df[2] < -M_PI)
                df[2] += 2 * M_PI;
            G.col(i) = df / (2 * h);
        }
        const matrix33 want = G * Pr * G.transpose();
        for (int i = 0; i < 3; ++i)
            if (!(std::abs(a.C(3 + i, 3 + i) - want(i, i)) <= 0.02 * std::abs(want(i, i)) + 1e-18))
                sim::fail("inverse-estimate-covariance",
                          fmt("variance %d is %g, the filter gives %g", i, a.C(3 + i, 3 + i), want(i, i)));
    }
    if (!a.C.block<3, 3>(0, 0).isApprox(b.C.block<3, 3>(0, 0), 1e-9))
        sim::fail("inverse-first-covariance", "the covariance of the first observation changed");
    const vector3 d = x - z;
    bool far = false, clear = true, onlyPositive = true;
    for (int i = 0; i < 3; ++i)
    {
        const double sd = std::sqrt(R(i, i));
        if (std::abs(std::abs(d[i]) - sd) < 1e-3 * sd)
            clear = false;
        if (std::abs(d[i]) > sd)
        {
            far = true;
            if (d[i] > 0)
                onlyPositive = false;
        }
    }
    if (clear && p.is_moving() != far)
        sim::fail(far && onlyPositive ? "point-moving-positive-side" : "inverse-moving",
                  fmt("moving flag %d for a displacement of %g %g %g", p.is_moving(), -d[0], -d[1], -d[2]));
    u.refused = 0;
    sim::count("track.inverse");
}
} // namespace

SCENARIO(track_points)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    set_cameras();
    sim::set_crash_class("tracking");
    sim::capture_output(true);
    const size_t nPts = 1 + r.below(5), nInv = r.below(4);
    const size_t nThreads = 1 + r.below(4);
    std::vector<PointUnderTest> pts(nPts);
    std::vector<InverseUnderTest> inv(nInv);
    auto create = [&](size_t i) {
        sim::Rng c = sim::rng_for(sim::seed(), 76, i);
        if (i < nPts)
        {
            auto& u = pts[i];
            u.truth = vector3(c.range(-3000, 3000), c.range(-3000, 3000), c.range(100, 6000));
            const matrix33 cov = random_cov<3>(c, -1, 4);
            u.p = std::make_unique<tracking::Point>(WorldCoordinate(u.truth), wcov(cov), cv::Mat(1, 32, CV_8U, cv::Scalar(1)));
            return;
        }
        auto& u = inv[i - nPts];
        for (;;)
        {
            u.truth = vector3(c.range(-3000, 3000), c.range(-3000, 3000), c.range(-3000, 3000));
            u.c2w = c2w_of(vector3(c.range(-1000, 1000), c.range(-1000, 1000), c.range(-1000, 1000)), random_rotation(c, 3.1));
            ScreenCoordinate s;
            if (project(u.c2w, u.truth, s) && s.z() > 300)
            {
                u.p = std::make_unique<tracking::PointInverseDepth>(ScreenCoordinate2D(s.x(), s.y()), u.c2w, random_cov<3>(c, -1, 2));
                break;
            }
        }
    };
    // operations: (object, index); each object's operations stay in order on one thread
    const uint64_t steps = 1 + r.below(r.chance(0.2) ? 120 : 30);
    sim::count("ops.generated", steps * (nPts + nInv));
    sim::start();
    {
        std::vector<std::thread> th;
        auto body = [&](size_t t) {
            for (size_t i = t; i < nPts + nInv; i += nThreads)
                create(i);
            for (uint64_t k = 0; k < steps; ++k)
                for (size_t i = t; i < nPts + nInv; i += nThreads)
                {
                    const uint64_t id = k * (nPts + nInv) + i;
                    if (!sim::op_enabled(id))
                        continue;
                    sim::Rng o = sim::rng_for(sim::seed(), 77, id);
                    if (i < nPts)
                        step_point(pts[i], o);
                    else
                        step_inverse(inv[i - nPts], o);
                    sim::yield("track");
                }
        };
        for (size_t t = 1; t < nThreads; ++t)
            th.emplace_back(body, t);
        body(0);
        for (auto& t: th)
            t.join();
    }
    sim::stop();
    uint64_t h = 1;
    for (auto& u: pts)
    {
        h = sim::hash_matrix(h, u.p->_coordinates);
        h = sim::hash_matrix(h, u.p->_covariance);
    }
    for (auto& u: inv)
        h = sim::hash_matrix(h, u.p->_covariance);
    sim::mix(h);
    sim::state(h);
    if (steps > 2)
        sim::nontrivial();
    sim::sample(fmt("%zu points, %zu inverse depth points, %zu threads, first: %s", nPts, nInv, nThreads, pts[0].hist.substr(0, 300).c_str()));
}

// ------------------------------------------------------------------ planes
namespace {
using features::primitives::Plane_Segment;
// a detected plane as the detector builds it: fitted on a patch of points, with a boundary polygon
std::unique_ptr<features::primitives::Plane> detect_plane(const vector3& n, double d, double cx, double cy, double w, double h, sim::Rng& r)
{
    // patch of 20x20 points around the plane's centre
    const vector3 c = -n * d;
    const vector3 u = n.unitOrthogonal().normalized(), v = n.cross(u).normalized();
    matrixf cloud(400, 3);
    for (int i = 0; i < 400; ++i)
    {
        const vector3 q = c + u * ((i % 20) * 10.0 - 95) + v * ((i / 20) * 10.0 - 95) + n * r.normal() * 0.5;
        cloud.row(i) = q.cast<float>();
    }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    if (!seg.is_planar())
        return nullptr;
    // a convex boundary: an ellipse cut into 4 to 12 corners
    std::vector<utils::Polygon::point_2d> pts;
    const int corners = 4 + static_cast<int>(r.below(9));
    const double a0 = r.range(0, 6.28);
    for (int i = 0; i < corners; ++i)
        pts.emplace_back(cx + w / 2 * std::cos(a0 + i * 2 * M_PI / corners), cy + h / 2 * std::sin(a0 + i * 2 * M_PI / corners));
    pts.push_back(pts.front());
    const CameraPolygon poly(pts, u, v, c);
    if (!poly.is_valid() || poly.boundary_length() < 3)
        return nullptr;
    return std::make_unique<features::primitives::Plane>(seg, poly);
}
} // namespace

SCENARIO(track_planes)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    swarm_schedule(r);
    set_cameras();
    sim::set_crash_class("plane-tracking");
    sim::capture_output(true);
    Plane_Segment::set_static_members(20, 400);
    const size_t nPlanes = 1 + r.below(3);
    struct U
    {
        std::unique_ptr<tracking::Plane> p;
        vector3 n; // the true plane, in world space
        double d = 0;
        std::string hist;
    };
    std::vector<U> us(nPlanes);
    const vector3 eye(r.range(-500, 500), r.range(-500, 500), r.range(-500, 500));
    const auto look = random_rotation(r, 3.1);
    const CameraToWorldMatrix base = c2w_of(eye, look);
    // planes tracked by different threads; each thread creates its own
    const size_t nThreads = 1 + r.below(3);
    auto create = [&](size_t i) {
        U& u = us[i];
        sim::Rng c = sim::rng_for(sim::seed(), 79, i);
        u.p = std::make_unique<tracking::Plane>();
        std::unique_ptr<features::primitives::Plane> f;
        vector3 n;
        double d;
        while (!f)
        {
            n = (vector3(c.range(-0.6, 0.6), c.range(-0.6, 0.6), -1)).normalized();
            d = c.range(900, 3500);
            f = detect_plane(n, d, c.range(-200, 200), c.range(-200, 200), c.range(300, 1500), c.range(300, 1500), c);
        }
        const PlaneWorldCoordinates w = PlaneCameraCoordinates(n, d).to_world_coordinates(utils::compute_plane_camera_to_world_matrix(base));
        u.n = w.get_normal();
        u.d = w.get_d();
        u.p->_parametrization = w;
        u.p->_covariance = random_cov<4>(c, -4, 0);
        u.p->_boundaryPolygon = f->get_boundary_polygon().to_world_space(base);
    };
    const uint64_t steps = 1 + r.below(25);
    sim::count("ops.generated", steps * nPlanes);
    sim::start();
    auto body = [&](size_t t) {
    for (size_t i = t; i < nPlanes; i += nThreads)
        create(i);
    for (uint64_t k = 0; k < steps; ++k)
        for (size_t i = t; i < nPlanes; i += nThreads)
        {
            sim::yield("track");
            const uint64_t id = k * nPlanes + i;
            if (!sim::op_enabled(id))
                continue;
            sim::Rng o = sim::rng_for(sim::seed(), 78, id);
            U& u = us[i];
            if (o.chance(0.15))
            {
                sim::count("fault.dropout");
                u.hist += "dropout ";
                continue;
            }
            // the camera moves around, the plane does not
            const vector3 at = eye + vector3(o.range(-200, 200), o.range(-200, 200), o.range(-200, 200));
            const auto turn = random_rotation(o, 0.3) * look;
            const CameraToWorldMatrix c2w = c2w_of(at, turn);
            const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
            const matrix33 rot = c2w.block<3, 3>(0, 0);
            const vector3 n = (rot.transpose() * u.n + vector3(o.normal(), o.normal(), o.normal()) * 0.01).normalized();
            const double d = u.d + u.n.dot(at) + o.normal() * 8;
            if (d < 300)
                continue;
            auto f = detect_plane(n, d, o.range(-500, 500), o.range(-500, 500), o.range(200, 1500), o.range(200, 1500), o);
            if (!f)
                continue;
            const PlaneWorldCoordinates z = PlaneCameraCoordinates(n, d).to_world_coordinates(pc2w);
            matrix44 R = random_cov<4>(o, -4, 1);
            std::string label = "measure";
            const bool bad = o.chance(0.2);
            if (bad)
                R = bad_cov<4>(o, R, label);
            const vector4 x = u.p->get_parametrization().get_parametrization();
            const matrix44 P = u.p->get_covariance();
            const WorldPolygon before = u.p->get_boundary_polygon();
            const auto boundary = before.get_unprojected_boundary();
            double score = -1;
            bool threw = false;
            try
            {
                score = u.p->track(c2w, *f, z, R);
            }
            catch (const std::exception& e)
            {
                threw = true;
                u.hist += std::string("threw ") + e.what() + " ";
            }
            u.hist += label + (threw ? "! " : " ");
            const auto after = u.p->get_boundary_polygon().get_unprojected_boundary();
            const vector4 y = u.p->get_parametrization().get_parametrization();
            if (bad || threw)
            {
                if (bad)
                    sim::count(("fault." + label).c_str());
                else
                    sim::fail("plane-good-rejected", "a valid measurement was refused: " + u.hist);
                bool same = y == x && u.p->get_covariance() == P && after.size() == boundary.size();
                for (size_t q = 0; same && q < after.size(); ++q)
                    same = after[q] == boundary[q];
                if (!same)
                    sim::fail("plane-rejected-changed", label + ": the rejected measurement changed the plane");
                continue;
            }
            vector4 xr;
            matrix44 Pr;
            kalman<4>(x, P, z.get_parametrization(), R, 1e-6, xr, Pr);
            xr.head<3>().normalize();
            if (!y.allFinite() || std::abs(y.head<3>().norm() - 1) > 1e-6)
                sim::fail("plane-parameters", "the plane normal is not a unit vector");
            if (!psd<4>(u.p->get_covariance()))
                sim::fail("plane-covariance", "the covariance is not symmetric positive semi definite");
            if (!((y - xr).norm() <= 1e-6 * (1 + std::abs(d))))
                sim::fail("plane-estimate", fmt("estimate off by %g", (y - xr).norm()));
            if (!((u.p->get_covariance() - Pr).norm() <= 1e-6 * (P.norm() + 1e-6)))
                sim::fail("plane-estimate-covariance", fmt("covariance off by %g", (u.p->get_covariance() - Pr).norm()));
            if (!(std::abs(score - (y - x).norm()) <= 1e-6 * (1 + score)))
                sim::fail("plane-score", fmt("score %g for a change of %g", score, (y - x).norm()));
            // the boundary lies on the plane and covers what it covered, and the detection
            for (auto& q: after)
                if (!(std::abs(y.head<3>().dot(q) + y[3]) <= 1e-3 * (1 + std::abs(y[3]))))
                {
                    sim::fail("plane-boundary-off", fmt("a boundary point is %g mm off its plane", y.head<3>().dot(q) + y[3]));
                    break;
                }
            if (after.size() < 4)
                sim::fail("plane-boundary-lost", "the boundary polygon is gone");
            const WorldPolygon moved(before.project(vector3(y.head<3>()), vector3(-y.head<3>() * y[3])));
            const WorldPolygon det(f->get_boundary_polygon().to_world_space(c2w));
            // areas of the oracle; the overlay of two polygons sometimes fails on near degenerate input: nothing is asked then
            double uni = 0, inter = 0, one = 0, other = 0;
            const double area = u.p->get_boundary_polygon().area();
            try
            {
                const vector3 ax = moved.get_x_axis(), ay = moved.get_y_axis();
                utils::Polygon::polygon a, b;
                for (auto& q: moved.get_unprojected_boundary())
                    boost::geometry::append(a.outer(), utils::Polygon::point_2d(ax.dot(q), ay.dot(q)));
                for (auto& q: det.get_unprojected_boundary())
                    boost::geometry::append(b.outer(), utils::Polygon::point_2d(ax.dot(q), ay.dot(q)));
                boost::geometry::correct(a);
                boost::geometry::correct(b);
                utils::Polygon::multi_polygon both, common;
                boost::geometry::union_(a, b, both);
                boost::geometry::intersection(a, b, common);
                one = boost::geometry::area(a);
                other = boost::geometry::area(b);
                uni = boost::geometry::area(both);
                inter = boost::geometry::area(common);
            }
            catch (const std::exception&)
            {
                uni = 0;
            }
            if (!(uni >= 0.999 * std::max(one, other)) || !(std::abs(uni + inter - one - other) <= 1e-3 * uni))
            {
                sim::count("track.plane_overlay_failed");
                continue;
            }
            const double least = inter > 0.01 * std::min(moved.area(), det.area()) ? uni : std::min(moved.area(), det.area());
            if (!(area >= 0.7 * least - 2e4))  // a slack of a few square centimetres for the simplification of tiny polygons
                sim::fail("plane-boundary-shrank", fmt("area %g, the previous boundary (%g) and the detection (%g, %g in common) cover %g together", area, moved.area(), det.area(), inter, least));
            // the simplification moves the boundary by a small distance only: no corner is left far outside
            if (inter > 0.01 * std::min(moved.area(), det.area()))
            {
                const vector3 ax = u.p->get_boundary_polygon().get_x_axis(), ay = u.p->get_boundary_polygon().get_y_axis();
                auto flat = [&](const vector3& q) { return utils::Polygon::point_2d(ax.dot(q), ay.dot(q)); };
                utils::Polygon::polygon now;
                for (auto& q: after)
                    boost::geometry::append(now.outer(), flat(q));
                boost::geometry::correct(now);
                const double slack = 1.5 * std::max(uni / 1e5, 10.0) + 10;
                for (auto* side: {&moved, &det})
                    for (auto& q: side->get_unprojected_boundary())
                        if (!(boost::geometry::distance(flat(q), now) <= slack))
                            sim::fail("plane-boundary-misses", fmt("a corner of the %s is %g mm out of the boundary", side == &moved ? "previous boundary" : "detection", boost::geometry::distance(flat(q), now)));
            }
            if (!(area <= 1.3 * uni + 2e4))
                sim::fail("plane-boundary-grew", fmt("area %g, the previous boundary and the detection cover %g together", area, uni));
            sim::count("track.plane");
        }
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < nThreads; ++t)
        th.emplace_back(body, t);
    body(0);
    for (auto& t: th)
        t.join();
    sim::stop();
    uint64_t h = 1;
    for (auto& u: us)
    {
        h = sim::hash_matrix(h, u.p->get_parametrization().get_parametrization());
        h = sim::hash_double(h, u.p->get_boundary_polygon().area());
    }
    sim::mix(h);
    sim::state(h);
    if (steps > 1)
        sim::nontrivial();
    sim::sample(fmt("%zu planes, %zu threads, first: %s", nPlanes, nThreads, us[0].hist.substr(0, 400).c_str()));
}

SCENARIO(motion)
{
    sim::Rng r = sim::rng_for(sim::seed(), 2);
    sim::set_crash_class("motion");
    sim::start();
    // two trackers at the same time, they share nothing
    const int nModels = 1 + static_cast<int>(r.below(2));
    struct M
    {
        tracking::Motion_Model m;
        bool set = false;
        vector3 last = vector3::Zero(), vel = vector3::Zero();
        quaternion q = quaternion::Identity(), w = quaternion::Identity();
        vector3 pos;
        quaternion rot;
        vector3 truthV;
        quaternion truthW;
    };
    std::vector<M> ms(static_cast<size_t>(nModels));
    for (auto& m: ms)
    {
        m.pos = vector3(r.range(-5000, 5000), r.range(-5000, 5000), r.range(-5000, 5000));
        m.rot = random_rotation(r, 3.1);
        m.truthV = vector3(r.range(-60, 60), r.range(-60, 60), r.range(-60, 60));
        m.truthW = random_rotation(r, 0.2);
    }
    const uint64_t n = 1 + r.below(80);
    sim::count("ops.generated", n);
    std::string hist;
    auto half = [](const quaternion& a, const quaternion& b) { // midpoint of two rotations on the shortest arc
        Eigen::Vector4d v = a.coeffs(), w = b.coeffs();
        if (v.dot(w) < 0)
            w = -w;
        quaternion o;
        o.coeffs() = (v + w).normalized();
        return o;
    };
    for (uint64_t i = 0; i < n; ++i)
    {
        if (!sim::op_enabled(i))
            continue;
        sim::Rng o = sim::rng_for(sim::seed(), 7, i);
        M& m = ms[o.below(ms.size())];
        const uint64_t kind = o.below(12);
        if (kind == 0)
        {
            m.m.reset();
            m.set = false;
            m.vel.setZero();
            m.w.setIdentity();
            hist += 'R';
            sim::count("motion.reset");
            if (m.m.get_position_velocity().norm() != 0 || m.m.get_angular_velocity().angularDistance(quaternion::Identity()) > 1e-9)
                sim::fail("motion-reset", "a reset keeps a velocity");
            continue;
        }
        if (kind == 1)
        {
            m.m.reset(m.pos, m.rot);
            m.set = true;
            m.last = m.pos;
            m.q = m.rot;
            m.vel.setZero();
            m.w.setIdentity();
            hist += 'P';
            sim::count("motion.reset");
            continue;
        }
        if (kind == 2)
        {
            sim::count("fault.stalled_pose");
            hist += '=';
        }
        else if (kind == 3)
        {
            m.pos += vector3(o.range(-2000, 2000), o.range(-2000, 2000), o.range(-2000, 2000));
            m.rot = (m.rot * random_rotation(o, 1.4)).normalized();
            sim::count("fault.pose_jump");
            hist += 'J';
        }
        else
        {
            m.pos += m.truthV;
            m.rot = (m.rot * m.truthW).normalized();
            hist += '.';
        }
        if (o.chance(0.2))
        {
            m.rot.coeffs() = -m.rot.coeffs(); // the same rotation
            sim::count("fault.quaternion_sign");
        }
        const matrix66 var = random_cov<6>(o, -3, 3);
        const bool grow = o.chance(0.6);
        const utils::Pose in(m.pos, m.rot, var);
        const utils::Pose out = m.m.predict_next_pose(in, grow);
        const vector3 gp = out.get_position();
        const quaternion gq = out.get_orientation_quaternion();
        if (!gp.allFinite() || !gq.coeffs().allFinite() || std::abs(gq.norm() - 1) > 1e-6)
            sim::fail("motion-invalid-pose", "the predicted pose is not finite or its orientation is not a rotation");
        if (!psd<6>(out.get_pose_variance()))
            sim::fail("motion-covariance", "the predicted covariance is invalid");
        vector3 wp = m.pos;
        quaternion wq = m.rot;
        matrix66 wv = var;
        bool certain = true;
        if (m.set)
        {
            m.vel = (m.pos - m.last + m.vel) / 2;
            const quaternion step = m.rot * m.q.conjugate();
            certain = std::abs(step.coeffs().dot(m.w.coeffs())) > 0.05;
            m.w = half(step, m.w);
            wp += m.vel;
            wq = m.rot * m.w;
            if (grow)
            {
                for (int k = 0; k < 3; ++k)
                {
                    wv(k, k) += 100;
                    wv(k + 3, k + 3) += 0.01;
                }
            }
            sim::nontrivial();
        }
        m.set = true;
        m.last = m.pos;
        m.q = m.rot;
        if (!((gp - wp).norm() <= 1e-6 * (1 + wp.norm())))
            sim::fail("motion-position", fmt("predicted position off by %g mm after %s", (gp - wp).norm(), hist.c_str()));
        if (certain && !(gq.angularDistance(wq) <= 1e-5))
            sim::fail("motion-orientation", fmt("predicted orientation off by %g rad after %s", gq.angularDistance(wq), hist.c_str()));
        if (!certain)
            m.w = m.m.get_angular_velocity();
        if (!((out.get_pose_variance() - wv).norm() <= 1e-6 * (1 + wv.norm())))
            sim::fail("motion-variance", fmt("predicted variance off by %g after %s", (out.get_pose_variance() - wv).norm(), hist.c_str()));
        if (!((m.m.get_position_velocity() - m.vel).norm() <= 1e-6 * (1 + m.vel.norm())))
            sim::fail("motion-velocity", "the linear velocity is not the one of the history");
        sim::mix(sim::hash_matrix(3, gp));
        sim::state(sim::hash_matrix(5, gp));
        sim::advance_clock(1.0 / 30);
    }
    sim::stop();
    sim::sample(hist);
}
