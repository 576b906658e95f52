// Instantiates the class templates of the library so that their members are
// analysed as resolved code.  Every member function is instantiated.
// Eigen 3.4 supports size_t by itself; the specialisation of the library predates it.
#define ASLAM_CALIBRATION_UTILS_SIZETSUPPORT_H
#include <sstream>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include "aslam/calibration/base/Timestamp.h"
#include "aslam/calibration/base/Serializable.h"
#include "aslam/calibration/algorithms/permute.h"
#include "aslam/calibration/algorithms/matrixOperations.h"
#include "aslam/calibration/data-structures/Grid.h"
#include "aslam/calibration/functions/DigammaFunction.h"
#include "aslam/calibration/functions/LogGammaFunction.h"
#include "aslam/calibration/functions/LogFactorialFunction.h"
#include "aslam/calibration/functions/IncompleteGammaPFunction.h"
#include "aslam/calibration/functions/IncompleteGammaQFunction.h"
#include "aslam/calibration/geometry/Transformation.h"
#include "aslam/calibration/statistics/ChiSquareDistribution.h"
#include "aslam/calibration/statistics/EstimatorML.h"
#include "aslam/calibration/statistics/GammaDistribution.h"
#include "aslam/calibration/statistics/Histogram.h"
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/Randomizer.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
#include "aslam/calibration/utils/OuterProduct.h"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
#include "aslam/calibration/exceptions/BadArgumentException.h"
#include "aslam/calibration/exceptions/InvalidOperationException.h"
#include "aslam/calibration/exceptions/NullPointerException.h"

namespace aslam {
  namespace calibration {
    template class Grid<double, int, 2>;
    template class Grid<double, double, 1>;
    template class Grid<double, double, 2>;
    template class Grid<int, int, 2>;
    template class Grid<double, int, 3>;
    template class Grid<double, double, 3>;
    template class Histogram<double, 1>;
    template class Histogram<double, 2>;
    template class Histogram<double, 3>;
    template class UniformDistribution<double, 1>;
    template class UniformDistribution<int, 1>;
    template class UniformDistribution<double, 2>;
    template class UniformDistribution<int, 2>;
    template class UniformDistribution<double, 3>;
    template class NormalDistribution<2>;
    template class NormalDistribution<3>;
    template class GammaDistribution<double>;
    template class SampleDistribution<double>;
    template class EstimatorML<NormalDistribution<2> >;
    template class Randomizer<double, 2>;
    template class Randomizer<double, 1>;
    template class Randomizer<int, 1>;
    template class Randomizer<double, 3>;
    template class Randomizer<double, 4>;
    template class Transformation<double, 2>;
    template class Transformation<double, 3>;
    template class DigammaFunction<double>;
    template class LogGammaFunction<double>;
    template void permute<int, size_t>(std::vector<int>&, const std::vector<size_t>&);
    template void permute<double, int>(std::vector<double>&, const std::vector<int>&);
    template double computeSumLogDiagR<Eigen::MatrixXd>(const Eigen::MatrixXd&, size_t, size_t);
    template void checkColumnIndices<Eigen::MatrixXd>(const Eigen::MatrixXd&, size_t, size_t);
    template class OutOfBoundException<size_t>;
    template class OutOfBoundException<int>;
    template class BadArgumentException<double>;
  }
}
template Eigen::Matrix<double, 2, 2> OuterProduct::compute<double, 2>(const Eigen::Matrix<double, 2, 1>&);
template Eigen::Matrix<double, 2, 3> OuterProduct::compute<double, 2, 3>(const Eigen::Matrix<double, 2, 1>&, const Eigen::Matrix<double, 3, 1>&);
