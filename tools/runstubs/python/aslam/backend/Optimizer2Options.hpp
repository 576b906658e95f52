#pragma once
#include <boost/shared_ptr.hpp>
namespace sm { class PropertyTree; }
namespace aslam { namespace backend {
class LinearSystemSolver { public: virtual ~LinearSystemSolver() {} };
class TrustRegionPolicy { public: virtual ~TrustRegionPolicy() {} };
struct Optimizer2Options {
  Optimizer2Options() : maxIterations(20), numThreadsJacobian(1) {}
  int maxIterations, numThreadsJacobian;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
