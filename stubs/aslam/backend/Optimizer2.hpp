#pragma once
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>
namespace sm { class PropertyTree; }
namespace aslam { namespace backend {
struct SolutionReturnValue {
  SolutionReturnValue();
  double JStart;
  double JFinal;
  double dXFinal;
  double dJFinal;
  int iterations;
  int failedIterations;
  bool linearSolverFailure;
};
class Optimizer2 {
public:
  typedef Optimizer2Options Options;
  Optimizer2(const Options& options = Options());
  Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> solver, boost::shared_ptr<TrustRegionPolicy> policy);
  ~Optimizer2();
  void setProblem(boost::shared_ptr<OptimizationProblemBase> problem);
  SolutionReturnValue optimize();
  void initialize();
  void initializeLinearSolver();
  void initializeTrustRegionPolicy();
  Options& options();
  const Options& options() const;
  template<typename L> L* getSolver();
  template<typename L> const L* getSolver() const;
private:
  int _marker;
};
} }
