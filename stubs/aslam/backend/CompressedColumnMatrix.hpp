#pragma once
#include <cstddef>
#include <vector>
#include <cholmod.h>
#include <Eigen/Core>
namespace aslam { namespace backend {
template<typename I>
class CompressedColumnMatrix {
public:
  CompressedColumnMatrix(size_t rows = 0, size_t cols = 0);
  size_t rows() const;
  size_t cols() const;
  size_t nnz() const;
  const std::vector<double>& values() const;
  void getView(cholmod_sparse* view);
  void writeMATLAB(std::ostream&) const;
  Eigen::MatrixXd toDense() const;
private:
  int _marker;
};
} }
