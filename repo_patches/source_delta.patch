From 324224c638f9f4b0220d8bd61086ee495a48e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 01/29] fix: lock semaphore mutex when reading its resource
 count

---
 modules/utils/include/litiv/utils/cxx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..c0216c7 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -991,6 +991,7 @@ namespace lv {
                 m_nCount(nInitCount) {}
         /// returns the current internal resource count
         inline size_t count() {
+            std::unique_lock<std::mutex> oLock(m_oMutex);
             return m_nCount;
         }
         /// notifies one waiter that a resource is now available
-- 
2.43.0


From 56ab476d1d6ffa4fd37529a69383c953704245de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 02/29] fix: remove packet from data writer queue before
 unlocking to write it

---
 modules/datasets/src/utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..404624c 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1436,17 +1436,20 @@ void lv::DataWriter::entry() {
             if(pCurrPacket!=m_mQueue.end()) {
                 const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
                 if(nPacketSize<=m_nQueueSize) {
+                    // packet must leave the queue before the lock is released, or another worker could pick it up too
+                    const size_t nPacketIdx = pCurrPacket->first;
+                    const cv::Mat oPacket = pCurrPacket->second;
+                    m_mQueue.erase(pCurrPacket);
+                    --m_nQueueCount;
                     try {
                         lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
+                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),nPacketIdx,nPacketSize/1024);
+                        m_lCallback(oPacket,nPacketIdx);
                     }
                     catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
+                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),nPacketIdx));
                     }
                     m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
                     m_oClearCondVar.notify_all();
                 }
             }
-- 
2.43.0


From 4b63371e4a217ac272633c27f1d196133d00c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 03/29] fix: do not let worker failures escape the
 precacher/writer destructors

---
 modules/datasets/src/utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 404624c..a7de0e9 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -308,7 +308,9 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    } catch(...) {} // worker failures cannot be rethrown out of a destructor
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -1331,7 +1333,9 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    } catch(...) {} // worker failures cannot be rethrown out of a destructor
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
-- 
2.43.0


From 8f147e8f677bc65871db0c830a41e5c3e4f5e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 04/29] fix: drop precached packets that refer to worker memory
 once it is joined

---
 modules/datasets/src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a7de0e9..9657a35 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -350,6 +350,8 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
+        m_oReqPacket = m_oLastReqPacket = cv::Mat(); // may refer to worker cache memory, which is now gone
+        m_nLastReqIdx = size_t(-1);
         std::rethrow_exception(m_pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket;
@@ -381,6 +383,8 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_bIsActive = false;
         lvLog_(2,"data precacher [%" PRIxPTR "] joining precaching thread",uintptr_t(this));
         m_hWorker.join();
+        m_oReqPacket = m_oLastReqPacket = cv::Mat(); // may refer to worker cache memory, which is now gone
+        m_nLastReqIdx = size_t(-1);
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
     if(m_pWorkerException)
-- 
2.43.0


From 52a22e97f60264052ad90abc844d23a20588f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 05/29] fix: report a precaching failure once so that
 precaching can be restarted

---
 modules/datasets/src/utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 9657a35..38c1894 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -387,8 +387,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_nLastReqIdx = size_t(-1);
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
+    if(m_pWorkerException) {
+        const std::exception_ptr pWorkerException = m_pWorkerException;
+        m_pWorkerException = nullptr; // reported once; precaching can be restarted afterwards
+        std::rethrow_exception(pWorkerException);
+    }
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From 2e85374354672a7be2ef1c313d0f343455716af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/29] fix: do not draw progress bars with the log mutex held
 (self-deadlock on terminals)

---
 modules/utils/include/litiv/utils/console.hpp | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/modules/utils/include/litiv/utils/console.hpp b/modules/utils/include/litiv/utils/console.hpp
index e287bd8..67c7537 100644
--- a/modules/utils/include/litiv/utils/console.hpp
+++ b/modules/utils/include/litiv/utils/console.hpp
@@ -579,24 +579,28 @@ namespace lv {
         inline bool update(float fCompletion) {
             lvDbgAssert_(fCompletion>=0.0f && fCompletion<=1.0f,"completion must be given as fraction");
             const size_t nComplBars = size_t(fCompletion*m_nBarCols);
-            std::lock_guard<std::mutex> oLock(lv::getLogMutex());
-            if(fCompletion<=m_fLatestCompletion || nComplBars<=m_nLatestComplBars ||
-               (m_nLatestComplBars==size_t(0) && m_oLocalTimer.elapsed()<m_dInitRefresh_sec) ||
-               (m_nLatestComplBars>size_t(0) && m_oLocalTimer.elapsed()<m_dRefreshRate_sec))
-                return false;
+            {
+                std::lock_guard<std::mutex> oLock(lv::getLogMutex());
+                if(fCompletion<=m_fLatestCompletion || nComplBars<=m_nLatestComplBars ||
+                   (m_nLatestComplBars==size_t(0) && m_oLocalTimer.elapsed()<m_dInitRefresh_sec) ||
+                   (m_nLatestComplBars>size_t(0) && m_oLocalTimer.elapsed()<m_dRefreshRate_sec))
+                    return false;
+                m_fLatestCompletion = fCompletion;
+                m_nLatestComplBars = nComplBars;
+                m_oLocalTimer.tock();
+            } // drawing locks the log mutex by itself to set console colors
             lv::updateConsoleProgressBar(m_sBarPrefix,fCompletion,m_bUseCarrRet,m_nBarCols);
-            m_fLatestCompletion = fCompletion;
-            m_nLatestComplBars = nComplBars;
-            m_oLocalTimer.tock();
             return true;
         }
         /// reinitializes the progress bar to its default state
         inline void reset() {
-            std::lock_guard<std::mutex> oLock(lv::getLogMutex());
-            m_fLatestCompletion = 0.0f;
-            m_nLatestComplBars = size_t(0);
-            lv::updateConsoleProgressBar(m_sBarPrefix,m_fLatestCompletion,m_bUseCarrRet,m_nBarCols);
-            m_oLocalTimer.tock();
+            {
+                std::lock_guard<std::mutex> oLock(lv::getLogMutex());
+                m_fLatestCompletion = 0.0f;
+                m_nLatestComplBars = size_t(0);
+                m_oLocalTimer.tock();
+            } // drawing locks the log mutex by itself to set console colors
+            lv::updateConsoleProgressBar(m_sBarPrefix,0.0f,m_bUseCarrRet,m_nBarCols);
         }
     protected:
         const std::string m_sBarPrefix;
-- 
2.43.0


From 560db37cf615775830b853fa60c8a8b0a372ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:37 +0000
Subject: [PATCH 07/29] fix: do not lose the last character of messages as long
 as the format buffer

---
 modules/utils/src/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..995c28f 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
-- 
2.43.0


From 436c4f4b0527ac5f71935ebab6f249af96f90636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 08/29] fix: compute false counts product of the MCC in
 floating point (wraps for large counts)

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From 8e006b2583e5e1c2b5812c27cd72824e1a530b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 09/29] fix: check continuity of the ROI (not of the gt) before
 reading it by raw offsets

---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From 359ee2c302dcb88a96d7a4724ba703231f762255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:47 +0000
Subject: [PATCH 10/29] fix: require a continuous output mask before writing it
 by raw pixel offsets

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 1 +
 modules/video/src/BackgroundSubtractorPAWCS.cpp    | 1 +
 modules/video/src/BackgroundSubtractorPBAS.cpp     | 2 ++
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 1 +
 4 files changed, 5 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..b673ce8 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -466,6 +466,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _oFGMask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _oFGMask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     oCurrFGMask = cv::Scalar_<uchar>(0);
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 801e774..29bf3d1 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -564,6 +564,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _fgmask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     const bool bBootstrapping = ++m_nFrameIdx<=DEFAULT_BOOTSTRAP_WIN_SIZE;
     const size_t nCurrSamplesForMovingAvg_LT = bBootstrapping?m_nSamplesForMovingAvgs/2:m_nSamplesForMovingAvgs;
diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 3301dbb..1f7a3ef 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -112,6 +112,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
+    lvAssert(oFGMask.isContinuous());
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
@@ -336,6 +337,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
+    lvAssert(oFGMask.isContinuous());
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImgRGB,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..dd01e5a 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -193,6 +193,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oCurrFGMask = _fgmask.getMat();
+    lvAssert_(oCurrFGMask.isContinuous(),"output mask data must be continuous");
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
-- 
2.43.0


From cd5243b7e6f69c90755407500fc84d0e105b4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:47 +0000
Subject: [PATCH 11/29] fix: require continuous input images in 1ch PBAS (read
 by raw pixel offsets)

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 1f7a3ef..55b6c6b 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -110,6 +110,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
+    lvAssert(oInputImg.isContinuous());
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
     lvAssert(oFGMask.isContinuous());
-- 
2.43.0


From 71a4df1af1f5332e1b86ceb6dcbb2917b063fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:01 +0000
Subject: [PATCH 12/29] fix: reset the mean gradient distance of PBAS when it
 is reinitialized

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 55b6c6b..da58c31 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -77,6 +77,7 @@ void BackgroundSubtractorPBAS_1ch::initialize(const cv::Mat& oInitImg) {
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
     m_oFloodedFGMask = cv::Scalar(0);
+    m_fFormerMeanGradDist = 20;
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
     cv::Mat oBlurredInitImg;
@@ -298,6 +299,7 @@ void BackgroundSubtractorPBAS_3ch::initialize(const cv::Mat& oInitImg) {
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
     m_oFloodedFGMask = cv::Scalar(0);
+    m_fFormerMeanGradDist = 20;
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
     cv::Mat oBlurredInitImg;
-- 
2.43.0


From be82eb65a1a2a45a7cd79fcd5b21156baf3b9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:01 +0000
Subject: [PATCH 13/29] fix: drop pointers to the words of a former model when
 PAWCS is reinitialized

---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 29bf3d1..f812b7f 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -513,8 +513,8 @@ void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Ma
     m_oTempGlobalWordWeightDiffFactor = cv::Scalar(-0.1f);
     m_oMorphExStructElement = cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3));
     m_voPxInfoLUT_PAWCS.resize(m_nTotPxCount);
-    m_vpLocalWordDict.resize(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
-    m_vpGlobalWordDict.resize(m_nCurrGlobalWords,nullptr);
+    m_vpLocalWordDict.assign(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
+    m_vpGlobalWordDict.assign(m_nCurrGlobalWords,nullptr);
     if(m_nImgChannels==1) {
         m_voLocalWordList_1ch.resize(m_nTotRelevantPxCount*m_nCurrLocalWords);
         m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.begin();
-- 
2.43.0


From 4bc94284203f018e6c3ec64fd80128aca8859c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:01 +0000
Subject: [PATCH 14/29] fix: support infinite learning rates in ViBe and PBAS
 (division by zero)

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 4 ++--
 modules/video/src/BackgroundSubtractorViBe.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index da58c31..1970fe0 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -174,7 +174,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
                     *pfCurrLearningRate = BGSPBAS_T_UPPER;
             }
             else {
-                const size_t nLearningRate = learningRateOverride>0?(size_t)ceil(learningRateOverride):(size_t)ceil((*pfCurrLearningRate));
+                const size_t nLearningRate = std::isinf(learningRateOverride)?SIZE_MAX:learningRateOverride>0?(size_t)ceil(learningRateOverride):(size_t)ceil((*pfCurrLearningRate));
                 if((rand()%nLearningRate)==0) {
                     const size_t s_rand = rand()%m_nBGSamples;
                     m_voBGImg[s_rand].data[idx_uchar] = oInputImg.data[idx_uchar];
@@ -404,7 +404,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
                     *pfCurrLearningRate = BGSPBAS_T_UPPER;
             }
             else {
-                const size_t nLearningRate = learningRateOverride>0?(size_t)ceil(learningRateOverride):(size_t)ceil((*pfCurrLearningRate));
+                const size_t nLearningRate = std::isinf(learningRateOverride)?SIZE_MAX:learningRateOverride>0?(size_t)ceil(learningRateOverride):(size_t)ceil((*pfCurrLearningRate));
                 if((rand()%nLearningRate)==0) {
                     const size_t s_rand = rand()%m_nBGSamples;
                     m_voBGImg[s_rand].at<cv::Vec3b>(y,x) = oInputImgRGB.at<cv::Vec3b>(y,x);
diff --git a/modules/video/src/BackgroundSubtractorViBe.cpp b/modules/video/src/BackgroundSubtractorViBe.cpp
index 2cc46e9..10c4a66 100644
--- a/modules/video/src/BackgroundSubtractorViBe.cpp
+++ b/modules/video/src/BackgroundSubtractorViBe.cpp
@@ -81,7 +81,7 @@ void BackgroundSubtractorViBe_1ch::apply(cv::InputArray _image, cv::OutputArray
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
     oFGMask = cv::Scalar_<uchar>(0);
-    const size_t nLearningRate = (size_t)ceil(learningRate);
+    const size_t nLearningRate = std::isinf(learningRate)?SIZE_MAX:(size_t)ceil(learningRate);
     for(int y=0; y<m_oImgSize.height; y++) {
         for(int x=0; x<m_oImgSize.width; x++) {
             size_t nGoodSamplesCount=0, nSampleIdx=0;
@@ -148,7 +148,7 @@ void BackgroundSubtractorViBe_3ch::apply(cv::InputArray _image, cv::OutputArray
     _fgmask.create(m_oImgSize,CV_8UC1);
     cv::Mat oFGMask = _fgmask.getMat();
     oFGMask = cv::Scalar_<uchar>(0);
-    const size_t nLearningRate = (size_t)ceil(learningRate);
+    const size_t nLearningRate = std::isinf(learningRate)?SIZE_MAX:(size_t)ceil(learningRate);
     for(int y=0; y<m_oImgSize.height; y++) {
         for(int x=0; x<m_oImgSize.width; x++) {
 #if BGSVIBE_USE_SC_THRS_VALIDATION
-- 
2.43.0


From 91e49cd7d33c27ae55c1d4a1f3f0f9d7237853c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:01 +0000
Subject: [PATCH 15/29] fix: update the neighbor's words (not copies of them)
 in 1ch PAWCS

---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index f812b7f..d394fc1 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -836,7 +836,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
                     size_t nNeighborLocalWordIdx = 0;
                     float fNeighborPotentialLocalWordsWeightSum = 0.0f;
                     while(nNeighborLocalWordIdx<m_nCurrLocalWords && fNeighborPotentialLocalWordsWeightSum<fLocalWordsWeightSumThreshold) {
-                        LocalWord_1ch oNeighborLocalWord = (LocalWord_1ch&)*m_vpLocalWordDict[nNeighborLocalDictIdx+nNeighborLocalWordIdx];
+                        LocalWord_1ch& oNeighborLocalWord = (LocalWord_1ch&)*m_vpLocalWordDict[nNeighborLocalDictIdx+nNeighborLocalWordIdx];
                         const size_t nNeighborColorDist = lv::L1dist(nCurrColor,oNeighborLocalWord.oFeature.anColor[0]);
                         const size_t nNeighborIntraDescDist = lv::hdist(nCurrIntraDesc,oNeighborLocalWord.oFeature.anDesc[0]);
                         const bool bNeighborRegionIsFlat = lv::popcount(oNeighborLocalWord.oFeature.anDesc[0])<FLAT_REGION_BIT_COUNT;
-- 
2.43.0


From df0dd262c5d8040daebee3793caff48fa6dacc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:58 +0000
Subject: [PATCH 16/29] fix: index the foreground mask by row*width in
 LOBSTER's GLSL model refresh

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index b673ce8..5eefc3c 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -54,7 +54,7 @@ void BackgroundSubtractorLOBSTER_GLSL::refreshModel(float fSamplesRefreshFrac, b
         getLatestForegroundMask(m_oLastFGMask);
     glBindBuffer(GL_SHADER_STORAGE_BUFFER,getSSBOId(BackgroundSubtractorLOBSTER_::LOBSTERStorageBuffer_BGModelBinding));
     for(size_t nRowIdx=0; nRowIdx<(size_t)m_oFrameSize.height; ++nRowIdx) {
-        const size_t nRowOffset = nRowIdx*m_oFrameSize.height;
+        const size_t nRowOffset = nRowIdx*m_oFrameSize.width;
         const size_t nModelRowOffset = nRowIdx*m_nRowStepSize;
         for(size_t nColIdx=0; nColIdx<(size_t)m_oFrameSize.width; ++nColIdx) {
             const size_t nColOffset = nColIdx+nRowOffset;
-- 
2.43.0


From 653fd0b8afc9d8dd8d9b5c0bec7b5a560ca71273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:52 +0000
Subject: [PATCH 17/29] fix: keep all digits of matrix values in plain text
 archives

---
 modules/utils/src/opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..3e18027 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -450,6 +450,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
     else if(eArchiveType==MatArchive_PLAINTEXT) {
         std::ofstream ssStr(sFilePath);
         lvAssert__(ssStr.is_open(),"could not open text file at '%s' for writing",sFilePath.c_str());
+        ssStr.precision(std::numeric_limits<double>::max_digits10); // otherwise, values would be altered by a write/read cycle
         ssStr << "htag " << lv::getVersionStamp() << '\n';
         ssStr << "date " << lv::getTimeStamp() << '\n';
         ssStr << "nDataType " << (int32_t)oData.type() << '\n';
-- 
2.43.0


From a2814195044e634077f89134feea5454f9c3a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:52 +0000
Subject: [PATCH 18/29] fix: report matrix archive writes that fail once the
 buffer is flushed

---
 modules/utils/src/opencv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 3e18027..3b36d05 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -475,7 +475,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             else
                 ssStr << " ";
         }
-        lvAssert_(ssStr,"plain text archive write failed");
+        lvAssert_(ssStr.flush(),"plain text archive write failed");
     }
 #if USING_LZ4
     else if(eArchiveType==MatArchive_BINARY_LZ4) {
@@ -509,7 +509,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             const int32_t nComprSize = 0;
             ssStr.write((const char*)&nComprSize,sizeof(nComprSize));
         }
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
 #endif //USING_LZ4
     else if(eArchiveType==MatArchive_BINARY) {
@@ -528,7 +528,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             ssStr.write((const char*)&nDimSize,sizeof(nDimSize));
         }
         ssStr.write((const char*)(oData.data),nElemSize*nElemCount);
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From 91ff78ed3e7d4a79446b1e022c800aa3c725fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:03 +0000
Subject: [PATCH 19/29] fix: reject truncated or corrupted binary matrix
 archives before using their header

---
 modules/utils/src/opencv.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 3b36d05..51dec1b 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -583,17 +583,21 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>=0 && nDims<=32 /*max opencv mat dims*/,"binary archive header is truncated or corrupted");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
         lvAssert_(ssStr,"binary archive read failed");
+        oData.create(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==uint64_t(oData.elemSize()) && nElemCount==uint64_t(oData.total()),"binary archive header is corrupted (data size mismatch)");
         if(oData.total()>0u) {
             int32_t nComprSize;
             ssStr.read((char*)&nComprSize,sizeof(nComprSize));
-            lvAssert_(nComprSize>=0 && uint64_t(nComprSize)<=(nElemSize*nElemCount),"bad lz4 compressed size");
-            if(nComprSize==0) // could not compress any more, use raw data instead
+            lvAssert_(ssStr && nComprSize>=0 && uint64_t(nComprSize)<=(nElemSize*nElemCount),"bad lz4 compressed size");
+            if(nComprSize==0) { // could not compress any more, use raw data instead
                 ssStr.read((char*)(oData.data),nElemSize*nElemCount);
+                lvAssert_(ssStr,"binary archive read failed");
+            }
             else {
                 static thread_local lv::AutoBuffer<char> s_aDataBuffer;
                 s_aDataBuffer.resize(size_t(nComprSize));
@@ -617,10 +621,13 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>=0 && nDims<=32 /*max opencv mat dims*/,"binary archive header is truncated or corrupted");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
+        lvAssert_(ssStr,"binary archive read failed");
         oData.create(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==uint64_t(oData.elemSize()) && nElemCount==uint64_t(oData.total()),"binary archive header is corrupted (data size mismatch)");
         ssStr.read((char*)(oData.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
     }
-- 
2.43.0


From 24c31a3db497051e522ec5e7a23d8165fd4eb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:39 +0000
Subject: [PATCH 20/29] fix: report output images that could not be written

---
 modules/datasets/src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 38c1894..5dff041 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1509,7 +1509,7 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
         }
         const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
         sOutputFilePath << ".png";
-        cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+        lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
     }
     else {
         sOutputFilePath << ".bin";
@@ -1586,7 +1586,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
             }
             const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
             sOutputFilePath << ".png";
-            cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+            lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
         }
         else {
             sOutputFilePath << ".bin";
@@ -1613,7 +1613,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                 }
                 const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
                 sOutputFilePath << ".png";
-                cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+                lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
             }
             else {
                 sOutputFilePath << ".bin";
-- 
2.43.0


From 4bafabb9727423ee23675b20c2fe743ab5994b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:23 +0000
Subject: [PATCH 21/29] fix: keep the LBSP edge detector inside pyramid levels
 smaller than its border

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index f1e9885..9b0ac3f 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -102,14 +102,14 @@ void EdgeDetectorLBSP::apply_internal_lookup(const cv::Mat& oInputImg) {
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
         };
         size_t nRowIter = 0;
-        for(; nRowIter<nROIBorderSize; ++nRowIter)
+        for(; nRowIter<nROIBorderSize && nRowIter<nCurrScaleRows; ++nRowIter)
             lBorderRowLookup(nRowIter);
-        for(; nRowIter<nCurrScaleRows-nROIBorderSize; ++nRowIter) {
+        for(; nRowIter+nROIBorderSize<nCurrScaleRows; ++nRowIter) {
             const size_t nCurrRowLUTIdx = nRowIter*nCurrRowLUTStep;
             size_t nColIter = 0;
-            for(; nColIter<nROIBorderSize; ++nColIter)
+            for(; nColIter<nROIBorderSize && nColIter<nCurrScaleCols; ++nColIter)
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
-            for(; nColIter<nCurrScaleCols-nROIBorderSize; ++nColIter) {
+            for(; nColIter+nROIBorderSize<nCurrScaleCols; ++nColIter) {
                 const size_t nCurrColLUTIdx = nCurrRowLUTIdx+nColIter*nColLUTStep;
                 uchar* aanCurrLUT = m_vvuLBSPLookupMaps[nLevelIter].data()+nCurrColLUTIdx;
                 lvDbgAssert(nCurrColLUTIdx<m_vvuLBSPLookupMaps[nLevelIter].size() && (nCurrColLUTIdx%LBSP::DESC_SIZE_BITS)==0);
-- 
2.43.0


From b820cafbc9e260b653c9dc225a74d308e8729eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:31 +0000
Subject: [PATCH 22/29] fix: reject 4-channel images in the LBSP background
 subtractors that only address 1 and 3 channels

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 1 +
 modules/video/src/BackgroundSubtractorPAWCS.cpp    | 1 +
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 5eefc3c..67a5fa2 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -443,6 +443,7 @@ void BackgroundSubtractorLOBSTER::initialize(const cv::Mat& oInitImg, const cv::
     lvDbgExceptionWatch;
     // == init
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
+    lvAssert_(m_nImgChannels==1 || m_nImgChannels==3,"only 1- and 3-channel images are supported here");
     m_voBGColorSamples.resize(m_nBGSamples);
     m_voBGDescSamples.resize(m_nBGSamples);
     for(size_t s=0; s<m_nBGSamples; ++s) {
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index d394fc1..c1b0300 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -431,6 +431,7 @@ void BackgroundSubtractorPAWCS::refreshModel(size_t nBaseOccCount, float fOccDec
 void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     // == init
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
+    lvAssert_(m_nImgChannels==1 || m_nImgChannels==3,"only 1- and 3-channel images are supported here");
     m_bModelInitialized = false;
     m_voLocalWordList_1ch.clear();
     m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.end();
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index dd01e5a..06e2dba 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -107,6 +107,7 @@ void BackgroundSubtractorSuBSENSE::refreshModel(float fSamplesRefreshFrac, bool
 void BackgroundSubtractorSuBSENSE::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     // == init
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
+    lvAssert_(m_nImgChannels==1 || m_nImgChannels==3,"only 1- and 3-channel images are supported here");
     m_fLastNonZeroDescRatio = 0.0f;
     const int nTotImgPixels = m_oImgSize.height*m_oImgSize.width;
     if(m_nOrigROIPxCount>=m_nTotPxCount/2 && (int)m_nTotPxCount>=DEFAULT_FRAME_SIZE.area()) {
-- 
2.43.0


From dae30652dd42f1363ef3cb3483e7f7e6f2d4c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 23/29] fix: unpacked arrays returned by array loaders always
 belong to the requested packet

getInputArray/getGTArray/loadFeaturesArray reused their last unpacked arrays whenever the
precacher's last request had the same index, even if that request came from the packed
accessor or if unpacking had failed, and returned stale or empty arrays.
---
 modules/datasets/src/utils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 5dff041..e92e885 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -759,7 +759,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getInputArray(size_t nP
     lvDbgExceptionWatch;
     if(getInputStreamCount()==0)
         m_vLatestUnpackedInput.resize(0);
-    else if(m_oInputPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getInputInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getInputStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getInput does not allow reentrancy
@@ -774,7 +774,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
     lvDbgExceptionWatch;
     if(getGTStreamCount()==0)
         m_vLatestUnpackedGT.resize(0);
-    else if(m_oGTPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getGTInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getGTStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getter does not allow reentrancy
@@ -787,12 +787,10 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
 
 const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::loadFeaturesArray(size_t nPacketIdx, const std::vector<lv::MatInfo>& vPackingInfo) {
     lvDbgExceptionWatch;
-    if(m_oFeaturesPrecacher.getLastReqIdx()!=nPacketIdx) {
-        // no need to clone from packed data if loadFeatures does not allow reentrancy
-        const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
-        // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
-        m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
-    }
+    // no need to clone from packed data if loadFeatures does not allow reentrancy
+    const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
+    // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
+    m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
     return m_vLatestUnpackedFeatures;
 }
 
-- 
2.43.0


From 2b9b70c0e82dc01581b01a2b94f66ba070a8b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:12 +0000
Subject: [PATCH 24/29] fix: L1/L2 distances over arrays are accumulated in a
 type that holds their sum

The default result type of the L1dist and L2sqrdist array/vector overloads was
that of one element's distance, so that the distance of two uchar triplets
wrapped at 256 (L1) or 65536 (squared L2), and 16-bit squares overflowed a
signed integer.
---
 modules/utils/include/litiv/utils/math.hpp | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..53cd342 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -225,7 +225,7 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -234,19 +234,19 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -284,7 +284,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the L1 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -301,9 +301,9 @@ namespace lv {
     /// computes the squared L2 distance between two integer values (i.e. == squared L1dist); returns an unsigned type of twice the size of the input type
     template<typename T, typename=std::enable_if_t<std::is_integral<T>::value>>
     inline auto L2sqrdist(T a, T b) {
-        typedef std::make_signed_t<typename lv::get_bigger_integer<T>::type> Tintern;
-        const Tintern tResult = Tintern(a)-Tintern(b);
-        return std::make_unsigned_t<Tintern>(tResult*tResult);
+        typedef std::make_unsigned_t<typename lv::get_bigger_integer<T>::type> Tintern;
+        const Tintern tResult = (Tintern)L1dist(a,b);
+        return Tintern(tResult*tResult);
     }
 
     /// computes the squared L2 distance between two floating point values (i.e. == squared L1dist)
@@ -314,7 +314,7 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -323,19 +323,19 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -373,7 +373,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the squared L2 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From 23e83a78c352f4a1bb3da11d97342faf2995f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:59 +0000
Subject: [PATCH 25/29] fix: report a precaching worker's failure once, not
 again after a restart

---
 modules/datasets/src/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index e92e885..297de4b 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -352,7 +352,9 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         m_hWorker.join();
         m_oReqPacket = m_oLastReqPacket = cv::Mat(); // may refer to worker cache memory, which is now gone
         m_nLastReqIdx = size_t(-1);
-        std::rethrow_exception(m_pWorkerException);
+        const std::exception_ptr pWorkerException = m_pWorkerException;
+        m_pWorkerException = nullptr; // reported once; precaching can be restarted afterwards
+        std::rethrow_exception(pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
-- 
2.43.0


From b892a3e39c20f1f28fdaac99b3c2f82be12c47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:59 +0000
Subject: [PATCH 26/29] fix: make the verbosity level atomic, it is read by
 worker threads while it may be set

---
 modules/utils/src/cxx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 995c28f..a6457cd 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -165,7 +165,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     return os << vBuffer;
 }
 
-int g_nVerbosity = 1;
+std::atomic_int g_nVerbosity(1);
 
 int lv::getVerbosity() {
     return g_nVerbosity;
-- 
2.43.0


From 52c758c419274feb384faf6e042f46c6d143ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:59 +0000
Subject: [PATCH 27/29] fix: construct the joint histogram scratch in every
 thread that uses it

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..5b3a856 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -385,7 +385,6 @@ void lv::computeImageAffinity(const cv::Mat& oImage1, const cv::Mat& oImage2, in
     const std::array<int,3> anAffinityMapDims = {nRows-nPatchRadius*2,nCols-nPatchRadius*2,nOffsets};
     oAffinityMap.create(3,anAffinityMapDims.data());
     oAffinityMap = -1.0f; // default value for OOB pixels
-    thread_local lv::JointSparseHistData<uchar,uchar> oSparseHistData;
 #if USING_OPENMP
 #ifdef _MSC_VER
     #pragma omp parallel for // msvc only supports openmp 2.0
@@ -396,6 +395,7 @@ void lv::computeImageAffinity(const cv::Mat& oImage1, const cv::Mat& oImage2, in
     for(int nRowIdx=nPatchRadius; nRowIdx<nRows-nPatchRadius; ++nRowIdx) {
         for(int nColIdx=nPatchRadius; nColIdx<nCols-nPatchRadius; ++nColIdx) {
             for(int nOffsetIdx=0; nOffsetIdx<nOffsets; ++nOffsetIdx) {
+                thread_local lv::JointSparseHistData<uchar,uchar> oSparseHistData; // declared inside so that every thread constructs its own
                 const int nColOffset = vDispRange[nOffsetIdx];
                 const int nOffsetColIdx = nColIdx+nColOffset;
                 if((bValidROI1 && !oROI1(nRowIdx,nColIdx)) || nOffsetColIdx<nPatchRadius || nOffsetColIdx>=nCols-nPatchRadius || (bValidROI2 && !oROI2(nRowIdx,nOffsetColIdx)))
-- 
2.43.0


From 9d1a553540a36413804893ca815f925e189e302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:54 +0000
Subject: [PATCH 28/29] fix: lv::read filled the memory of a non-continuous
 output matrix (a view of a larger one) as one run

---
 modules/utils/src/opencv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 51dec1b..493b282 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -539,6 +539,8 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
     if(eArchiveType==MatArchive_FILESTORAGE) {
         cv::FileStorage oArchive(sFilePath,cv::FileStorage::READ);
         lvAssert__(oArchive.isOpened(),"could not open archive at '%s' for reading",sFilePath.c_str());
+        if(!oData.isContinuous())
+            oData.release(); // opencv would fill the memory of a view as a single run
         oArchive["matrix"] >> oData;
         lvAssert_(!oData.empty(),"could not read valid matrix from storage");
     }
@@ -588,6 +590,8 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
         lvAssert_(ssStr,"binary archive read failed");
+        if(!oData.isContinuous())
+            oData.release(); // the data is read as a single run, which would not fit a view
         oData.create(nDims,anSizes.data(),nDataType);
         lvAssert_(nElemSize==uint64_t(oData.elemSize()) && nElemCount==uint64_t(oData.total()),"binary archive header is corrupted (data size mismatch)");
         if(oData.total()>0u) {
@@ -626,6 +630,8 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
         lvAssert_(ssStr,"binary archive read failed");
+        if(!oData.isContinuous())
+            oData.release(); // the data is read as a single run, which would not fit a view
         oData.create(nDims,anSizes.data(),nDataType);
         lvAssert_(nElemSize==uint64_t(oData.elemSize()) && nElemCount==uint64_t(oData.total()),"binary archive header is corrupted (data size mismatch)");
         ssStr.read((char*)(oData.data),nElemSize*nElemCount);
-- 
2.43.0


From 81d014e45f090735556120ee6e635b8b7b0d656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:03 +0000
Subject: [PATCH 29/29] fix: computeTemporalAbsDiff wrote outside a
 non-continuous output matrix (continuity was only checked in debug builds)

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 5b3a856..a73bde4 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -706,7 +706,7 @@ void lv::computeTemporalAbsDiff(const cv::Mat& oImage1, const cv::Mat& oImage2,
     lvAssert_(oImage1.channels()==1 || oImage1.channels()==3,"current impl only supports 1 or 3 channels due to bilin subsampl");
     const int nRows = oImage1.rows, nCols = oImage1.cols, nChannels = oImage1.channels();
     oOutput.create(nRows,nCols,CV_32FC(nChannels));
-    lvDbgAssert(oOutput.isContinuous());
+    lvAssert_(oOutput.isContinuous(),"output must be a continuous mat (raw indexing in impl)");
     for(int nRowIdx=0; nRowIdx<nRows; ++nRowIdx) {
         for(int nColIdx=0; nColIdx<nCols; ++nColIdx) {
             const float fOffsetX = ((float*)oFlow.data)[(nRowIdx*nCols+nColIdx)*2];
-- 
2.43.0

