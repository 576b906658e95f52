"""Planted bugs of the Python bindings."""
E = "incremental_calibration_python/src/IncrementalEstimator.cpp"
SCRIPT = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
I=incremental_calibration
P=incremental_calibration_python
F="-std=c++14 -O0 -w -fPIC -I$I/include -I$here/rt -isystem /usr/include/eigen3 -isystem /usr/include/python3.12"
for s in $P/src/module.cpp $P/src/OptimizationProblem.cpp $P/src/IncrementalEstimator.cpp $P/src/LinearSolver.cpp $here/demo.cpp \\
    $I/src/core/IncrementalEstimator.cpp $I/src/core/IncrementalOptimizationProblem.cpp $I/src/core/OptimizationProblem.cpp; do
  g++ $F -c "$s" -o "$out/$(basename "$(dirname "$s")")-$(basename "$s").o" &
done
wait
mv "$out"/*demo.cpp.o "$out/demo.obj"
g++ -shared "$out"/core-*.o -L_build -lincremental_calibration -o "$out/libcore.so"
g++ -shared "$out"/src-*.o -L"$out" -lcore -L_build -lincremental_calibration -lboost_python312 -o "$out/libincremental_calibration_python.so"
g++ -shared "$out/demo.obj" -L"$out" -lcore -L_build -lincremental_calibration -lboost_python312 -o "$out/base.so"
LD_LIBRARY_PATH=_build:"$out" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$out" timeout 60 /usr/bin/python3.12 "$here/demo.py"
'''
BASE = r'''
#include <boost/python.hpp>
#include "aslam/calibration/core/IncrementalEstimator.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
#include "aslam/calibration/core/OptimizationProblem.h"
#include "aslam/calibration/data-structures/VectorDesignVariable.h"
#include <aslam/backend/Optimizer2.hpp>
using namespace boost::python;
using namespace aslam::backend;
using namespace aslam::calibration;
struct Mat { static PyObject* convert(const Eigen::MatrixXd& m) { return PyFloat_FromDouble(m.size() ? m(0, 0) : -1.0); } };
struct Vec { static PyObject* convert(const Eigen::VectorXd& m) { return PyFloat_FromDouble(m.size() ? m(0) : -1.0); } };
static boost::shared_ptr<DesignVariable> theta;
void run(IncrementalEstimator& e) {
  if (!theta) { theta = boost::make_shared<VectorDesignVariable<2> >(Eigen::Vector2d(0, 0)); theta->setActive(true); }
  Outcome o = Outcome(); o.value[0] = 100; o.value[1] = 200; o.log2sum = 9; o.rankTheta = 2; o.JStart = 5; o.JFinal = 1; Script::next() = o;
  boost::shared_ptr<aslam::calibration::OptimizationProblem> b = boost::make_shared<aslam::calibration::OptimizationProblem>();
  b->addDesignVariable(theta, e.getMargGroupId());
  e.addBatch(b, true);
}
void scaling(IncrementalEstimator& e, bool on) { e.getLinearSolverOptions().columnScaling = on; }
IncrementalEstimator::ReturnValue made() {
  IncrementalEstimator::ReturnValue r; r.rankPsi = 1; r.rankPsiDeficiency = 2; r.rankTheta = 3; r.rankThetaDeficiency = 4; r.svdTolerance = 5; r.qrTolerance = 6;
  r.JStart = 7; r.JFinal = 8; r.numIterations = 9; r.elapsedTime = 10; r.informationGain = 11; return r;
}
BOOST_PYTHON_MODULE(base) {
  class_<LinearSystemSolver, boost::noncopyable>("LinearSystemSolver", no_init);
  class_<OptimizationProblemBase, boost::noncopyable>("OptimizationProblemBase", no_init);
  to_python_converter<Eigen::MatrixXd, Mat>();
  to_python_converter<Eigen::VectorXd, Vec>();
  def("run", run); def("made", made); def("scaling", scaling);
}
'''
PY = '''import base
import libincremental_calibration_python as m
'''


def seed(id, property, needs, breaks, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=BASE, script=SCRIPT, rt="python", extra={"demo.py": PY + body})


SEEDS = [
 seed("M30-field-twin", "C26", "a result whose two rank deficiencies differ",
  "one rank deficiency of the result shows the other one's value",
  [(E, "&IncrementalEstimator::ReturnValue::rankPsiDeficiency)", "&IncrementalEstimator::ReturnValue::rankThetaDeficiency)")],
  """r = base.made()
want = dict(rankPsi=1, rankPsiDeficiency=2, rankTheta=3, rankThetaDeficiency=4, svdTolerance=5, qrTolerance=6, JStart=7, JFinal=8,
            numIterations=9, elapsedTime=10, informationGain=11)
for k, v in want.items():
    assert getattr(r, k) == v, k
"""),
 seed("M31-scaled-by-option", "C26", "column scaling switched off after a batch was solved with it",
  "the accessor of a scaled result returns the unscaled one when scaling is off",
  [(E, "  return ie->getObsBasis(true);", "  return ie->getObsBasis(ie->getLinearSolverOptions().columnScaling);")],
  """e = m.IncrementalEstimator(1)
base.run(e)
assert (e.getObsBasis(), e.getObsBasisScaled()) == (203, 103), (e.getObsBasis(), e.getObsBasisScaled())
base.scaling(e, False)
assert (e.getNobsBasis(), e.getNobsBasisScaled()) == (202, 102)
assert (e.getObsBasis(), e.getObsBasisScaled()) == (203, 103), (e.getObsBasis(), e.getObsBasisScaled())
"""),
 seed("M32-lost-field", "C26", "a script that reads the initial cost of an update",
  "one field of the result is bound under another field's name",
  [(E, '.def_readwrite("JStart", &IncrementalEstimator::ReturnValue::JStart)', '.def_readwrite("JFinal", &IncrementalEstimator::ReturnValue::JStart)')],
  """r = base.made()
assert (r.JStart, r.JFinal) == (7, 8)
"""),
]
