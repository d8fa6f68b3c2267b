// Stub of OpenCV contrib's xfeatures2d (not packaged for Ubuntu): a BRIEF-like 32 byte binary descriptor.
// Deterministic, own sampling pattern, intensity comparisons on a smoothed patch, keypoints near the border are
// removed, as the real BriefDescriptorExtractor does.
#pragma once
#include <opencv2/features2d.hpp>
#include <opencv2/imgproc.hpp>
#include <vector>

namespace cv {
namespace xfeatures2d {

class BriefDescriptorExtractor : public Feature2D
{
  public:
    static Ptr<BriefDescriptorExtractor> create(int bytes = 32, bool use_orientation = false)
    {
        (void)use_orientation;
        Ptr<BriefDescriptorExtractor> p = makePtr<BriefDescriptorExtractor>();
        p->_bytes = bytes;
        return p;
    }
    int descriptorSize() const CV_OVERRIDE { return _bytes; }
    int descriptorType() const CV_OVERRIDE { return CV_8U; }
    int defaultNorm() const CV_OVERRIDE { return NORM_HAMMING; }

    void compute(InputArray image, std::vector<KeyPoint>& keypoints, OutputArray descriptors) CV_OVERRIDE
    {
        constexpr int patch = 48, kernel = 9, border = patch / 2 + kernel / 2;
        Mat img = image.getMat(), gray, smooth;
        if (img.channels() > 1)
            cvtColor(img, gray, COLOR_BGR2GRAY);
        else
            gray = img;
        KeyPointsFilter::runByImageBorder(keypoints, gray.size(), border);
        boxFilter(gray, smooth, CV_8U, Size(kernel, kernel));
        descriptors.create(static_cast<int>(keypoints.size()), _bytes, CV_8U);
        Mat d = descriptors.getMat();
        for (int k = 0; k < d.rows; ++k)
        {
            uint64_t s = 88172645463325252ull;
            auto next = [&s]() {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                return static_cast<int>((s >> 20) % (patch - 1)) - (patch - 1) / 2;
            };
            const int x = cvRound(keypoints[static_cast<size_t>(k)].pt.x), y = cvRound(keypoints[static_cast<size_t>(k)].pt.y);
            auto at = [&](int dx, int dy) {
                return smooth.at<uchar>(std::min(std::max(y + dy, 0), smooth.rows - 1),
                                        std::min(std::max(x + dx, 0), smooth.cols - 1));
            };
            for (int b = 0; b < _bytes; ++b)
            {
                int v = 0;
                for (int i = 0; i < 8; ++i)
                {
                    const int x1 = next(), y1 = next(), x2 = next(), y2 = next();
                    v = (v << 1) | (at(x1, y1) < at(x2, y2));
                }
                d.at<uchar>(k, b) = static_cast<uchar>(v);
            }
        }
    }

  private:
    int _bytes = 32;
};

} // namespace xfeatures2d
} // namespace cv
