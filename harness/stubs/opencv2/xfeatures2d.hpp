// Stand-in for OpenCV-contrib's non-free xfeatures2d module, which is not installed in the sandbox.
// Only what RGB-D-SLAM uses is provided: cv::xfeatures2d::BriefDescriptorExtractor, a binary (Hamming) descriptor
// computed on a smoothed image, that drops the key points that are too close to the border (same contract as OpenCV).
#pragma once
#include <opencv2/core.hpp>
#include <opencv2/features2d.hpp>
#include <opencv2/imgproc.hpp>

namespace cv {
namespace xfeatures2d {

class BriefDescriptorExtractor : public cv::Feature2D
{
  public:
    static cv::Ptr<BriefDescriptorExtractor> create(int bytes = 32, bool = false)
    {
        return cv::Ptr<BriefDescriptorExtractor>(new BriefDescriptorExtractor(bytes));
    }
    explicit BriefDescriptorExtractor(int bytes) : _bytes(bytes)
    {
        // fixed LCG: the same pattern for every process
        unsigned int s = 12345u;
        auto next = [&s]() {
            s = s * 1664525u + 1013904223u;
            return static_cast<int>((s >> 16) % 41u) - 20;
        };
        for (int i = 0; i < bytes * 8 * 4; ++i)
            _pattern.push_back(next());
    }
    int descriptorSize() const override { return _bytes; }
    int descriptorType() const override { return CV_8U; }
    int defaultNorm() const override { return cv::NORM_HAMMING; }

    void compute(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray descriptors) override
    {
        const cv::Mat img = image.getMat();
        cv::Mat smooth;
        cv::blur(img, smooth, cv::Size(5, 5));
        cv::KeyPointsFilter::runByImageBorder(keypoints, img.size(), 28);
        descriptors.create(static_cast<int>(keypoints.size()), _bytes, CV_8U);
        cv::Mat d = descriptors.getMat();
        for (size_t k = 0; k < keypoints.size(); ++k)
        {
            const int x = static_cast<int>(keypoints[k].pt.x + 0.5f);
            const int y = static_cast<int>(keypoints[k].pt.y + 0.5f);
            size_t p = 0;
            for (int b = 0; b < _bytes; ++b)
            {
                unsigned char v = 0;
                for (int j = 0; j < 8; ++j, p += 4)
                {
                    const auto a = smooth.at<uchar>(y + _pattern[p], x + _pattern[p + 1]);
                    const auto c = smooth.at<uchar>(y + _pattern[p + 2], x + _pattern[p + 3]);
                    v = static_cast<unsigned char>((v << 1) | (a < c ? 1 : 0));
                }
                d.at<uchar>(static_cast<int>(k), b) = v;
            }
        }
    }

  private:
    int _bytes;
    std::vector<int> _pattern;
};

} // namespace xfeatures2d
} // namespace cv
