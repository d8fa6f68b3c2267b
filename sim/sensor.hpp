// Cameras and what a depth sensor does wrong, shared by the scenarios.
#pragma once
#include "scn.hpp"
#include "parameters.hpp"
#include "types.hpp"
#include <limits>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <string>
using namespace rgbd_slam;

namespace {
struct Cam
{
    int w, h;
    double fx, fy, cx, cy;
};
void load_cameras(const Cam& c1, const Cam& c2, const vector3& t, const vector3& rot)
{
    std::string y = "%YAML:1.0\n---\n";
    auto put = [&](const std::string& k, double v) { y += k + ": " + fmt("%.9g", v) + "\n"; };
    auto puti = [&](const std::string& k, int v) { y += k + ": " + std::to_string(v) + "\n"; };
    for (int i = 1; i <= 2; ++i)
    {
        const Cam& c = i == 1 ? c1 : c2;
        const std::string p = "camera_" + std::to_string(i) + "_";
        puti(p + "size_x", c.w);
        puti(p + "size_y", c.h);
        put(p + "focal_x", c.fx);
        put(p + "focal_y", c.fy);
        put(p + "center_x", c.cx);
        put(p + "center_y", c.cy);
    }
    for (int i = 0; i < 3; ++i)
    {
        put(std::string("camera_2_translation_offset_") + "xyz"[i], t[i]);
        put(std::string("camera_2_rotation_offset_") + "xyz"[i], rot[i]);
    }
    const std::string path = sim::scratch_dir() + "/cameras.yaml";
    {
        std::ofstream f(path);
        f << y;
    }
    if (!Parameters::parse_file(path))
        sim::fail_now("harness", "the cameras were refused");
}

// what a depth sensor does wrong; returns the name of the fault
std::string damage(cv::Mat_<float>& d, sim::Rng& r)
{
    static const char* names[] = {"blind-block", "undefined-pixels", "infinite-pixels", "negative-pixels", "saturated-pixels",
                                  "too-near-pixels", "blind-frame", "noise-burst", "white-noise-frame", "frozen-row", "denormal-pixels"};
    const int kind = static_cast<int>(r.below(11));
    const int n = 1 + static_cast<int>(r.below(d.total() / 8));
    auto sprinkle = [&](float v) {
        for (int i = 0; i < n; ++i)
            d(static_cast<int>(r.below(d.rows)), static_cast<int>(r.below(d.cols))) = v;
    };
    switch (kind)
    {
        case 0: {
            const int x = static_cast<int>(r.below(d.cols)), y = static_cast<int>(r.below(d.rows));
            d(cv::Rect(x, y, std::min<int>(d.cols - x, 1 + r.below(d.cols)), std::min<int>(d.rows - y, 1 + r.below(d.rows)))) = 0.f;
            break;
        }
        case 1: sprinkle(std::numeric_limits<float>::quiet_NaN()); break;
        case 2: sprinkle(std::numeric_limits<float>::infinity()); break;
        case 3: sprinkle(-static_cast<float>(r.range(1, 5000))); break;
        case 4: sprinkle(65535.f); break;
        case 5: sprinkle(static_cast<float>(r.range(0.001, 39))); break;
        case 6: d = 0.f; break;
        case 7: {
            const double s = r.range(5, 300);
            for (int i = 0; i < n; ++i)
            {
                float& v = d(static_cast<int>(r.below(d.rows)), static_cast<int>(r.below(d.cols)));
                v = std::max(0.f, v + static_cast<float>(r.normal() * s));
            }
            break;
        }
        case 8:
            for (auto& v: d)
                v = static_cast<float>(r.range(0, 6000));
            break;
        case 9: {
            const int y = static_cast<int>(r.below(d.rows));
            for (int k = y; k < std::min(d.rows, y + 30); ++k)
                d.row(y).copyTo(d.row(k));
            break;
        }
        default: sprinkle(1e-40f);
    }
    sim::count((std::string("fault.") + names[kind]).c_str());
    return names[kind];
}

// what a colour camera does wrong
std::string damage_colour(cv::Mat& m, sim::Rng& r, const cv::Mat& previous)
{
    static const char* names[] = {"dark-image", "white-image", "noise-image", "frozen-image", "blurred-image", "brightness-change", "covered-half", "shifted-image"};
    const int kind = static_cast<int>(r.below(8));
    switch (kind)
    {
        case 0: m.setTo(cv::Scalar(0, 0, 0)); break;
        case 1: m.setTo(cv::Scalar(255, 255, 255)); break;
        case 2:
            for (int y = 0; y < m.rows; ++y)
                for (int x = 0; x < m.cols * 3; ++x)
                    m.ptr<uchar>(y)[x] = static_cast<uchar>(r.next());
            break;
        case 3:
            if (!previous.empty())
                m = previous.clone();
            break;
        case 4: {
            const int k = 3 + 2 * static_cast<int>(r.below(8));
            cv::blur(m, m, cv::Size(k, k));
            break;
        }
        case 5: m.convertTo(m, -1, r.range(0.2, 1.6), r.range(-60, 60)); break;
        case 6: m(r.chance(0.5) ? cv::Rect(0, 0, m.cols / 2, m.rows) : cv::Rect(0, m.rows / 2, m.cols, m.rows / 2)).setTo(cv::Scalar(20, 20, 20)); break;
        default: {
            const int dx = static_cast<int>(r.below(60)) - 30, dy = static_cast<int>(r.below(60)) - 30;
            cv::Mat t = cv::Mat::zeros(m.size(), m.type());
            const cv::Rect a(std::max(0, dx), std::max(0, dy), m.cols - std::abs(dx), m.rows - std::abs(dy));
            const cv::Rect b(std::max(0, -dx), std::max(0, -dy), a.width, a.height);
            m(b).copyTo(t(a));
            m = t;
        }
    }
    sim::count((std::string("fault.") + names[kind]).c_str());
    return names[kind];
}
} // namespace
