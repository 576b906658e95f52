#pragma once
#include <string>
#include <vector>
#include <Eigen/Core>
namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm;
class LinearSystemSolver {
public:
  LinearSystemSolver() : _e(Eigen::VectorXd::Zero(2)) {}
  virtual ~LinearSystemSolver() {}
  virtual void buildSystem(size_t, bool) = 0;
  virtual bool solveSystem(Eigen::VectorXd& dx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
  void initMatrixStructure(const std::vector<DesignVariable*>& d, const std::vector<ErrorTerm*>& e, bool c) { initMatrixStructureImplementation(d, e, c); }
protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&, bool) = 0;
  Eigen::VectorXd _e;
};
} }
