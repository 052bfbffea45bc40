// instantiates the header-only evaluators of the datasets module so that their bodies exist in the analysed program
#include "litiv/datasets.hpp"
template struct lv::DataEvaluatorWrapper_<lv::DatasetEval_BinaryClassifier,lv::Dataset_Custom,lv::NonParallel>;
template struct lv::DataEvaluatorWrapper_<lv::DatasetEval_BinaryClassifierArray,lv::Dataset_Custom,lv::NonParallel>;
template struct lv::DataEvaluatorWrapper_<lv::DatasetEval_StereoDisparityEstim,lv::Dataset_Custom,lv::NonParallel>;
template struct lv::IDataConsumer_<lv::DatasetEval_BinaryClassifier>;
template struct lv::IDataConsumer_<lv::DatasetEval_BinaryClassifierArray>;
template struct lv::IDataConsumer_<lv::DatasetEval_None>;
void lv_witness_datasets(lv::IDataConsumer_<lv::DatasetEval_BinaryClassifierArray>& o, const std::array<cv::Mat,2>& a) {o.push(a,0);}
