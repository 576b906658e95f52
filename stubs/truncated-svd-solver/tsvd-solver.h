#pragma once
#include <iostream>
#include <cstddef>
#include <cholmod.h>
#include <Eigen/Core>
#include <truncated-svd-solver/tsvd-solver-options.h>
namespace truncated_svd_solver {
class TruncatedSvdSolver {
public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& options = Options());
  virtual ~TruncatedSvdSolver();
  void clear();
  void solve(cholmod_sparse* A, cholmod_dense* b, size_t j, Eigen::VectorXd& x);
  void analyzeMarginal(cholmod_sparse* A, size_t j);
  const Options& getOptions() const;
  Options& getOptions();
  std::ptrdiff_t getSVDRank() const;
  std::ptrdiff_t getSVDRankDeficiency() const;
  double getSvGap() const;
  std::ptrdiff_t getQRRank() const;
  std::ptrdiff_t getQRRankDeficiency() const;
  std::ptrdiff_t getMargStartIndex() const;
  void setMargStartIndex(std::ptrdiff_t index);
  double getQRTolerance() const;
  double getSVDTolerance() const;
  const Eigen::VectorXd& getSingularValues() const;
  const Eigen::MatrixXd& getMatrixU() const;
  const Eigen::MatrixXd& getMatrixV() const;
  Eigen::MatrixXd getNullSpace() const;
  Eigen::MatrixXd getRowSpace() const;
  Eigen::MatrixXd getCovariance() const;
  Eigen::MatrixXd getRowSpaceCovariance() const;
  double getSingularValuesLog2Sum() const;
  size_t getPeakMemoryUsage() const;
  size_t getMemoryUsage() const;
  double getNumFlops() const;
protected:
  Options tsvd_options_;
  cholmod_common cholmod_;
  std::ptrdiff_t margStartIndex_;
};
}
