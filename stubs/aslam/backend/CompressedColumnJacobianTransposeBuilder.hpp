#pragma once
#include <vector>
#include <aslam/backend/CompressedColumnMatrix.hpp>
namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm;
template<typename I>
class CompressedColumnJacobianTransposeBuilder {
public:
  CompressedColumnJacobianTransposeBuilder();
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors);
  void buildSystem(size_t nThreads, bool useMEstimator);
  CompressedColumnMatrix<I>& J_transpose();
  const CompressedColumnMatrix<I>& J_transpose() const;
private:
  int _marker;
};
} }
