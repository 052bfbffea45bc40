// instantiates the distance functions for every element type and channel count that the property ranges over
#include "litiv/utils/cxx.hpp"
#include "litiv/utils/math.hpp"
#include "litiv/utils/opencv.hpp"
namespace {
    template<size_t N, typename T>
    double common(const T* a, const T* b, size_t n, const uint8_t* m) {
        const std::array<T,N>& aa = *reinterpret_cast<const std::array<T,N>*>(a);
        const std::array<T,N>& bb = *reinterpret_cast<const std::array<T,N>*>(b);
        const cv::Vec<T,(int)N>& va = *reinterpret_cast<const cv::Vec<T,(int)N>*>(a);
        const cv::Vec<T,(int)N>& vb = *reinterpret_cast<const cv::Vec<T,(int)N>*>(b);
        double r = 0;
        r += double(lv::L1dist<N>(a,b))+double(lv::L1dist(aa,bb))+double(lv::L1dist(aa,b))+double(lv::L1dist(a,bb))+double(lv::L1dist<N>(a,b,n,m))+double(lv::L1dist(va,vb));
        r += double(lv::L2sqrdist<N>(a,b))+double(lv::L2sqrdist(aa,bb))+double(lv::L2sqrdist(aa,b))+double(lv::L2sqrdist(a,bb))+double(lv::L2sqrdist<N>(a,b,n,m))+double(lv::L2sqrdist(va,vb));
        r += double(lv::L2dist<N>(a,b))+double(lv::L2dist(aa,bb))+double(lv::L2dist(aa,b))+double(lv::L2dist(a,bb))+double(lv::L2dist<N>(a,b,n,m))+double(lv::L2dist(va,vb));
        return r;
    }
    template<size_t N, typename T>
    double colour(const T* a, const T* b, size_t n, const uint8_t* m) {
        const std::array<T,N>& aa = *reinterpret_cast<const std::array<T,N>*>(a);
        const std::array<T,N>& bb = *reinterpret_cast<const std::array<T,N>*>(b);
        const cv::Vec<T,(int)N>& va = *reinterpret_cast<const cv::Vec<T,(int)N>*>(a);
        const cv::Vec<T,(int)N>& vb = *reinterpret_cast<const cv::Vec<T,(int)N>*>(b);
        double r = 0;
        r += double(lv::cdist<N>(a,b))+double(lv::cdist(aa,bb))+double(lv::cdist(aa,b))+double(lv::cdist(a,bb))+double(lv::cdist<N>(a,b,n,m))+double(lv::cdist(va,vb));
        r += double(lv::cmixdist<N>(a,b))+double(lv::cmixdist(aa,bb))+double(lv::cmixdist(aa,b))+double(lv::cmixdist(a,bb));
        return r;
    }
    template<size_t N, typename T>
    double bits(const T* a, const T* b) {
        const std::array<T,N>& aa = *reinterpret_cast<const std::array<T,N>*>(a);
        const std::array<T,N>& bb = *reinterpret_cast<const std::array<T,N>*>(b);
        return double(lv::popcount<N>(a))+double(lv::popcount(aa))+double(lv::hdist<N>(a,b))+double(lv::hdist(aa,bb))+double(lv::hdist(aa,b))+double(lv::hdist(a,bb))
              +double(lv::gdist<N>(a,b))+double(lv::gdist(aa,bb))+double(lv::gdist(aa,b))+double(lv::gdist(a,bb));
    }
    template<typename T>
    double every(const T* a, const T* b, size_t n, size_t c, const uint8_t* m) {
        return double(lv::L1dist(*a,*b))+double(lv::L2sqrdist(*a,*b))+common<1>(a,b,n,m)+common<2>(a,b,n,m)+common<3>(a,b,n,m)+common<4>(a,b,n,m)
              +double(lv::L1dist(a,b,n,c,m))+double(lv::L2sqrdist(a,b,n,c,m))+double(lv::L2dist(a,b,n,c,m));
    }
    template<typename T>
    double colours(const T* a, const T* b, size_t n, size_t c, const uint8_t* m) {
        return colour<2>(a,b,n,m)+colour<3>(a,b,n,m)+colour<4>(a,b,n,m)+double(lv::cdist(a,b,n,c,m));
    }
    template<typename T>
    double bitwise(const T* a, const T* b) {
        return double(lv::popcount(*a))+double(lv::hdist(*a,*b))+double(lv::gdist(*a,*b))+bits<1>(a,b)+bits<2>(a,b)+bits<3>(a,b)+bits<4>(a,b);
    }
    double all(const void* a, const void* b, size_t n, size_t c, const uint8_t* m) {
        return every((const uint8_t*)a,(const uint8_t*)b,n,c,m)+every((const int8_t*)a,(const int8_t*)b,n,c,m)+every((const uint16_t*)a,(const uint16_t*)b,n,c,m)
              +every((const int16_t*)a,(const int16_t*)b,n,c,m)+every((const float*)a,(const float*)b,n,c,m)+every((const double*)a,(const double*)b,n,c,m)
              +colours((const uint8_t*)a,(const uint8_t*)b,n,c,m)+colours((const float*)a,(const float*)b,n,c,m)
              +bitwise((const uint8_t*)a,(const uint8_t*)b)+bitwise((const uint16_t*)a,(const uint16_t*)b)+bitwise((const uint32_t*)a,(const uint32_t*)b)+bitwise((const uint64_t*)a,(const uint64_t*)b);
    }
}
double lv_witness_math(const void* a, const void* b, size_t n, size_t c, const uint8_t* m) {return all(a,b,n,c,m);}
