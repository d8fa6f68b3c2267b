// Synthetic RGB-D camera in a static textured room: the environment of the simulated SLAM.
// Frame convention: x right, y down, z forward (the frame in which the SLAM reports its poses), millimetres.
#pragma once
#include "sim.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <opencv2/core.hpp>

namespace world {

struct Quad // a finite textured rectangle
{
    Eigen::Vector3d o, u, v; // origin corner, unit axes
    double lu, lv;
    uint64_t tex;
    double cell;
};

struct Camera
{
    int w = 320, h = 240;
    double fx = 275, fy = 275, cx = 160, cy = 120;
};

struct Scene
{
    std::vector<Quad> quads;

    void box(const Eigen::Vector3d& lo, const Eigen::Vector3d& hi, uint64_t tex, double cell)
    {
        using V = Eigen::Vector3d;
        const V d = hi - lo;
        quads.push_back({lo, V::UnitX(), V::UnitY(), d.x(), d.y(), tex + 1, cell});
        quads.push_back({V(lo.x(), lo.y(), hi.z()), V::UnitX(), V::UnitY(), d.x(), d.y(), tex + 2, cell});
        quads.push_back({lo, V::UnitZ(), V::UnitY(), d.z(), d.y(), tex + 3, cell});
        quads.push_back({V(hi.x(), lo.y(), lo.z()), V::UnitZ(), V::UnitY(), d.z(), d.y(), tex + 4, cell});
        quads.push_back({lo, V::UnitX(), V::UnitZ(), d.x(), d.z(), tex + 5, cell});
        quads.push_back({V(lo.x(), hi.y(), lo.z()), V::UnitX(), V::UnitZ(), d.x(), d.z(), tex + 6, cell});
    }

    static Scene make(sim::Rng rng, int boxes = -1)
    {
        Scene s;
        const double w = rng.range(1300, 2000), h = rng.range(900, 1300), d = rng.range(2300, 3600);
        s.box({-w, -h, -1500}, {w, h, d}, rng.next(), rng.range(70, 130));
        const int some = 1 + static_cast<int>(rng.below(3)), n = boxes < 0 ? some : boxes;
        for (int i = 0; i < n; ++i)
        {
            const double x = rng.range(-w * 0.7, w * 0.5), z = rng.range(1500, d - 500);
            const double sx = rng.range(200, 500), sy = rng.range(300, 900), sz = rng.range(200, 450);
            s.box({x, h - sy, z}, {x + sx, h, z + sz}, rng.next(), rng.range(60, 100));
        }
        return s;
    }
};

inline double texel(uint64_t t, long a, long b)
{
    uint64_t h = t ^ (static_cast<uint64_t>(a) * 0x9E3779B97F4A7C15ull) ^ (static_cast<uint64_t>(b) * 0xC2B2AE3D27D4EB4Full);
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    return static_cast<double>(h & 255);
}

struct Frame
{
    cv::Mat rgb;
    cv::Mat_<float> depth;
};

inline Frame render(const Scene& sc, const Camera& cam, const Eigen::Vector3d& p, const Eigen::Quaterniond& q)
{
    Frame f;
    f.rgb = cv::Mat(cam.h, cam.w, CV_8UC3, cv::Scalar(0, 0, 0));
    f.depth = cv::Mat_<float>::zeros(cam.h, cam.w);
    const Eigen::Matrix3d R = q.toRotationMatrix();
    const Eigen::Vector3d zAxis = R.col(2);
    struct Pre
    {
        Eigen::Vector3d n;
        double num, ou, ov;
    };
    std::vector<Pre> pre;
    for (auto& qd: sc.quads)
    {
        const Eigen::Vector3d n = qd.u.cross(qd.v);
        pre.push_back({n, n.dot(qd.o - p), (p - qd.o).dot(qd.u), (p - qd.o).dot(qd.v)});
    }
    for (int r = 0; r < cam.h; ++r)
    {
        for (int c = 0; c < cam.w; ++c)
        {
            const Eigen::Vector3d dir = R * Eigen::Vector3d((c - cam.cx) / cam.fx, (r - cam.cy) / cam.fy, 1.0);
            double best = 1e18, bu = 0, bv = 0;
            size_t bi = sc.quads.size();
            for (size_t i = 0; i < sc.quads.size(); ++i)
            {
                const double den = pre[i].n.dot(dir);
                if (std::abs(den) < 1e-9)
                    continue;
                const double t = pre[i].num / den;
                if (t <= 1.0 || t >= best)
                    continue;
                const double u = pre[i].ou + t * dir.dot(sc.quads[i].u), v = pre[i].ov + t * dir.dot(sc.quads[i].v);
                if (u < 0 || v < 0 || u > sc.quads[i].lu || v > sc.quads[i].lv)
                    continue;
                best = t;
                bi = i;
                bu = u;
                bv = v;
            }
            if (bi == sc.quads.size())
                continue;
            const Quad& qd = sc.quads[bi];
            const double a = bu / qd.cell, b = bv / qd.cell;
            // blocky texture with slightly softened borders (about half a pixel)
            const long ia = static_cast<long>(std::floor(a)), ib = static_cast<long>(std::floor(b));
            const double soft = 0.5 * best / cam.fx / qd.cell * 1.5;
            double val = texel(qd.tex, ia, ib);
            const double fa = a - ia, fb = b - ib;
            auto blend = [soft](double x, double v0, double v1) { // x distance to the border
                const double k = x < soft ? 0.5 - 0.5 * x / soft : 0.0;
                return v0 * (1 - k) + v1 * k;
            };
            if (fa < soft)
                val = blend(fa, val, texel(qd.tex, ia - 1, ib));
            else if (1 - fa < soft)
                val = blend(1 - fa, val, texel(qd.tex, ia + 1, ib));
            if (fb < soft)
                val = blend(fb, val, texel(qd.tex, ia, ib - 1));
            else if (1 - fb < soft)
                val = blend(1 - fb, val, texel(qd.tex, ia, ib + 1));
            const uchar g = cv::saturate_cast<uchar>(val);
            f.rgb.at<cv::Vec3b>(r, c) = cv::Vec3b(g, g, g);
            // depth = distance along the optical axis
            f.depth(r, c) = static_cast<float>(best * dir.dot(zAxis));
        }
    }
    return f;
}

// smooth hand-held like motion
struct Trajectory
{
    Eigen::Vector3d a, b, ra, rb;
    double wt, wr;
    explicit Trajectory(sim::Rng rng, double amp_mm = 120, double amp_deg = 4)
    {
        for (int i = 0; i < 3; ++i)
        {
            a[i] = rng.range(-amp_mm, amp_mm);
            b[i] = rng.range(-amp_mm, amp_mm) * 0.3;
            ra[i] = rng.range(-amp_deg, amp_deg) * M_PI / 180;
            rb[i] = rng.range(-amp_deg, amp_deg) * 0.3 * M_PI / 180;
        }
        wt = rng.range(0.05, 0.08);
        wr = rng.range(0.05, 0.08);
    }
    Eigen::Vector3d pos(double k) const { return a * std::sin(wt * k) + b * (1 - std::cos(2 * wt * k)); }
    Eigen::Quaterniond rot(double k) const
    {
        const Eigen::Vector3d e = ra * std::sin(wr * k) + rb * (1 - std::cos(2 * wr * k));
        return Eigen::AngleAxisd(e.x(), Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(e.y(), Eigen::Vector3d::UnitY()) *
               Eigen::AngleAxisd(e.z(), Eigen::Vector3d::UnitZ());
    }
};

} // namespace world
