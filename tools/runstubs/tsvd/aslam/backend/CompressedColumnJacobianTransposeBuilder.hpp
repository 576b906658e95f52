#pragma once
#include <vector>
#include <aslam/backend/CompressedColumnMatrix.hpp>
namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm;
template<typename I> class CompressedColumnJacobianTransposeBuilder {
public:
  void initMatrixStructure(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&) {}
  void buildSystem(size_t, bool) {}
  CompressedColumnMatrix<I>& J_transpose() { return _J; }
  const CompressedColumnMatrix<I>& J_transpose() const { return _J; }
private:
  CompressedColumnMatrix<I> _J;
};
} }
