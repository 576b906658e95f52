#pragma once
#include <boost/shared_ptr.hpp>
#include <aslam/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam/backend/LinearSystemSolver.hpp>
namespace aslam { namespace backend {
struct Optimizer2Options {
  Optimizer2Options();
  double convergenceDeltaJ;
  double convergenceDeltaX;
  int maxIterations;
  bool doSchurComplement;
  bool verbose;
  int numThreadsJacobian;
  int numThreadsError;
  bool linearSolverMaximumFails;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
