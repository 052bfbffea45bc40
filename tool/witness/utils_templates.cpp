// instantiates the header-only templates of the utils module so that their bodies exist in the analysed program
#include "litiv/utils/cxx.hpp"
#include "litiv/utils/math.hpp"
#include "litiv/utils/opencv.hpp"
template struct lv::WorkerPool<1>;
template struct lv::WorkerPool<4>;
namespace {
    int useAll() {
        lv::WorkerPool<2> oPool;
        auto f = oPool.queueTask([](int i){return i+1;},1);
        lv::Semaphore s(1);
        s.wait(); s.notify(); s.try_wait();
        bool b = s.wait_for(std::chrono::milliseconds(1));
        b |= s.wait_until(std::chrono::high_resolution_clock::now());
        lv::AutoBuffer<int,16> a(8);
        a.push_back(3);
        a.resize(32);
        return f.get()+int(b)+int(s.count())+a[0];
    }
}
int lv_witness_utils() {return useAll();}
