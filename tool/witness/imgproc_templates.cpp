// instantiates the mixture-model templates of the imgproc module so that their bodies exist in the analysed program
#include "litiv/imgproc.hpp"
namespace {
    template<size_t nD> void useAll(const cv::Mat& i, const cv::Mat& m, cv::Mat& a, const cv::Mat& r) {
        lv::GMM<5,nD> b, f;
        lv::initGaussianMixtureParams<10>(i,m,b,f,r);
        lv::assignGaussianMixtureComponents(i,m,a,b,f,r);
        lv::learnGaussianMixtureParams(i,m,a,b,f,r);
    }
    void useEach(const cv::Mat& i, const cv::Mat& m, cv::Mat& a, const cv::Mat& r) {
        useAll<1>(i,m,a,r);
        useAll<3>(i,m,a,r);
    }
}
