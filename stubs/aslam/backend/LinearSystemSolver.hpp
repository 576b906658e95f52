#pragma once
#include <iostream>
#include <string>
#include <vector>
#include <Eigen/Core>
namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm;
class LinearSystemSolver {
public:
  LinearSystemSolver();
  virtual ~LinearSystemSolver();
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors, bool useDiagonalConditioner);
  double evaluateError(size_t nThreads, bool useMEstimator);
  virtual void buildSystem(size_t nThreads, bool useMEstimator) = 0;
  virtual bool solveSystem(Eigen::VectorXd& outDx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
  const Eigen::VectorXd& e() const;
  const Eigen::VectorXd& rhs() const;
protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors,
                                                 bool useDiagonalConditioner) = 0;
  Eigen::VectorXd _e;
  Eigen::VectorXd _rhs;
};
} }
