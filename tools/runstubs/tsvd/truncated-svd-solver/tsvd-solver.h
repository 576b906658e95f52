#pragma once
#include <iostream>
#include <stdexcept>
#include <cstddef>
#include <cholmod.h>
#include <Eigen/Core>
#include <truncated-svd-solver/tsvd-solver-options.h>
namespace truncated_svd_solver {
class TruncatedSvdSolver {
public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& o = Options()) : fails(false), seen(0), tsvd_options_(o), margStartIndex_(1) { cholmod_l_start(&cholmod_); cholmod_.print = 0; }
  virtual ~TruncatedSvdSolver() { cholmod_l_finish(&cholmod_); }
  void clear() {}
  void solve(cholmod_sparse* A, cholmod_dense*, size_t, Eigen::VectorXd& x) { use(A); x = Eigen::VectorXd::Ones(2); }
  void analyzeMarginal(cholmod_sparse* A, size_t) { use(A); }
  const Options& getOptions() const { return tsvd_options_; }
  Options& getOptions() { return tsvd_options_; }
  std::ptrdiff_t getSVDRank() const { return 0; }
  std::ptrdiff_t getSVDRankDeficiency() const { return 0; }
  std::ptrdiff_t getQRRank() const { return 0; }
  std::ptrdiff_t getQRRankDeficiency() const { return 0; }
  Eigen::VectorXd getSingularValues() const { return Eigen::VectorXd::Ones(2); }
  Eigen::MatrixXd getMatrixV() const { return Eigen::MatrixXd::Ones(2, 2); }
  size_t held() const { return cholmod_.malloc_count; }      // blocks cholmod handed out and did not get back
  bool fails;               // the next factorisation raises
  int seen;                 // matrices handed to the factorisation
protected:
  void use(cholmod_sparse* A) {
    if (!A) throw std::logic_error("no matrix");
    ++seen;
    if (fails) throw std::runtime_error("factorisation failed");
  }
  Options tsvd_options_;
  cholmod_common cholmod_;
  std::ptrdiff_t margStartIndex_;
};
}
