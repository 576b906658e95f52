#include "aslam/calibration/core/IncrementalEstimator.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
#include "aslam/calibration/core/OptimizationProblem.h"
#include "aslam/calibration/data-structures/VectorDesignVariable.h"
template class aslam::calibration::VectorDesignVariable<1>;
template class aslam::calibration::VectorDesignVariable<2>;
template class aslam::calibration::VectorDesignVariable<4>;
