#pragma once
#include <stdexcept>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
namespace aslam { namespace backend {
struct SolutionReturnValue { int iterations; double JStart, JFinal; };
class Optimizer2 {
public:
  Optimizer2(const Optimizer2Options& o = Optimizer2Options()) : _o(o) {}
  Optimizer2(const sm::PropertyTree&, boost::shared_ptr<LinearSystemSolver> s, boost::shared_ptr<TrustRegionPolicy> t) {
    _o.linearSystemSolver = s; _o.trustRegionPolicy = t;
  }
  void setProblem(boost::shared_ptr<OptimizationProblemBase> p) { _p = p; }
  void initializeLinearSolver() {}
  void initializeTrustRegionPolicy() {}
  Optimizer2Options& options() { return _o; }
  const Optimizer2Options& options() const { return _o; }
  template<class T> T* getSolver() { return static_cast<T*>(_o.linearSystemSolver.get()); }
  template<class T> const T* getSolver() const { return static_cast<const T*>(_o.linearSystemSolver.get()); }
  SolutionReturnValue optimize() {
    Script::optimised()++;
    const Outcome o = Script::next();
    Script::order().clear();
    for (size_t i = 0; i < _p->numDesignVariables(); ++i) {
      DesignVariable* dv = _p->designVariable(i);
      Script::order().push_back(dv);
      if (!dv->isActive())
        continue;
      std::vector<double> d(dv->minimalDimensions(), o.move);
      dv->update(&d[0], d.size());
    }
    if (o.fail)
      throw std::runtime_error("scripted failure");
    getSolver<AslamTruncatedSvdSolver>()->take();
    SolutionReturnValue r = {o.iterations, o.JStart, o.JFinal};
    return r;
  }
private:
  Optimizer2Options _o;
  boost::shared_ptr<OptimizationProblemBase> _p;
};
} }
