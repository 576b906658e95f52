"""Planted bugs of the estimator and the problems, written from the property texts."""
import os
I = "incremental_calibration/"
EST = I + "src/core/IncrementalEstimator.cpp"
INC = I + "src/core/IncrementalOptimizationProblem.cpp"
PRO = I + "src/core/OptimizationProblem.cpp"
VDV = I + "include/aslam/calibration/data-structures/VectorDesignVariable.tpp"
SCRIPT = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
I=incremental_calibration
g++ -std=c++14 -O0 -w -I$I/include -I"$here/rt" -isystem /usr/include/eigen3 "$here/demo.cpp" \\
  $I/src/core/IncrementalEstimator.cpp $I/src/core/IncrementalOptimizationProblem.cpp $I/src/core/OptimizationProblem.cpp \\
  -L_build -lincremental_calibration -o "$out/demo"
LD_LIBRARY_PATH=_build timeout 60 "$out/demo"
'''
HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include "aslam/calibration/core/IncrementalEstimator.h"
#include "aslam/calibration/core/IncrementalOptimizationProblem.h"
#include "aslam/calibration/core/OptimizationProblem.h"
#include "aslam/calibration/data-structures/VectorDesignVariable.h"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
#include "aslam/calibration/exceptions/InvalidOperationException.h"
#include <aslam/backend/Optimizer2.hpp>
using namespace aslam::calibration;
using namespace aslam::backend;
typedef VectorDesignVariable<2> Dv;
typedef boost::shared_ptr<Dv> DvP;
typedef boost::shared_ptr<aslam::calibration::OptimizationProblem> Batch;
#define NEED(x) do { if (!(x)) { std::printf("broken: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
static DvP var(double x) { DvP d = boost::make_shared<Dv>(Eigen::Vector2d(x, x)); d->setActive(true); return d; }
static Batch batch() { return boost::make_shared<aslam::calibration::OptimizationProblem>(); }
static Outcome good(double s, std::ptrdiff_t rank) {
  Outcome o = Outcome(); o.value[0] = s + 10; o.value[1] = s; o.log2sum = s; o.svdTol = s; o.qrTol = s; o.flops = s;
  o.rankTheta = rank; o.rankPsi = 7; o.peak = 1; o.mem = 1; o.iterations = 3; o.JStart = 10; o.JFinal = 1; o.move = 1; return o;
}
'''


def demo(body):
    return HEAD + "int main() {\n" + body + "\n  return 0;\n}\n"


def seed(id, property, needs, breaks, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo(body), script=SCRIPT, rt="core")


SEEDS = [
 seed("M01-stale-save", "C09", "three saves with a change between them; a variable saved before keeps its old recorded value",
  "saving skips the variables that already have a recorded value, so a later restore brings back an older value",
  [(INC, """          it != _designVariablesCounts.cend(); ++it)
        it->first->getParameters(
          _designVariablesBackup[const_cast<DesignVariable*>(it->first)]);""",
   """          it != _designVariablesCounts.cend(); ++it) {
        DesignVariable* const dv = const_cast<DesignVariable*>(it->first);
        if (_designVariablesBackup.find(dv) != _designVariablesBackup.end())
          continue;
        dv->getParameters(_designVariablesBackup[dv]);
      }""")],
  """  IncrementalOptimizationProblem p; Batch b = batch(); DvP d = var(1); b->addDesignVariable(d, 0); p.add(b);
  p.saveDesignVariables(); d->setValue(Eigen::Vector2d(5, 5)); p.restoreDesignVariables(); NEED(d->getValue()(0) == 1);
  d->setValue(Eigen::Vector2d(3, 3)); p.saveDesignVariables(); d->setValue(Eigen::Vector2d(9, 9)); p.restoreDesignVariables();
  NEED(d->getValue()(0) == 3);"""),
 seed("M02-gain-baseline", "C01", "a rejected batch followed by another batch whose gain is judged",
  "the reference for the information gain moves although the batch was rejected",
  [(EST, "      ret.informationGain = 0.5 * (svLog2Sum - _svLog2Sum);\n",
    "      ret.informationGain = 0.5 * (svLog2Sum - _svLog2Sum);\n      if (solutionValid)\n        _svLog2Sum = svLog2Sum;\n"),
   (EST, "        _informationGain = ret.informationGain;\n        _svLog2Sum = svLog2Sum;\n", "        _informationGain = ret.informationGain;\n")],
  """  IncrementalEstimator e(1); e.getOptions().infoGainDelta = 1.0;
  DvP t = var(0);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); Script::next() = good(10, 2); NEED(e.addBatch(b1).batchAccepted);
  Batch b2 = batch(); b2->addDesignVariable(t, 1); Script::next() = good(11.5, 2); NEED(!e.addBatch(b2).batchAccepted);
  Batch b3 = batch(); b3->addDesignVariable(t, 1); Script::next() = good(13, 2); IncrementalEstimator::ReturnValue r = e.addBatch(b3);
  NEED(r.batchAccepted); NEED(r.informationGain == 1.5);"""),
 seed("M03-rank-bypass", "C02", "validity checking enabled, an invalid solution whose rank rises",
  "a rise of the rank keeps the batch even when the solution is not valid",
  [(EST, """      if (((ret.informationGain > _options.infoGainDelta ||
          ret.rankTheta > _rankTheta) && solutionValid) || force) {""",
   """      const bool informative =
        ret.informationGain > _options.infoGainDelta && solutionValid;
      if (informative || ret.rankTheta > _rankTheta || force) {""")],
  """  IncrementalEstimator e(1); e.getOptions().checkValidity = true;
  DvP t = var(0);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); Script::next() = good(10, 2); NEED(e.addBatch(b1).batchAccepted);
  Batch b2 = batch(); b2->addDesignVariable(t, 1); Script::next() = good(30, 3); Script::next().JFinal = 20; NEED(!e.addBatch(b2).batchAccepted);"""),
 seed("M04-scaled-left", "C03", "column scaling switched off after a batch was solved with it, then a re-optimisation",
  "one scaled result of an earlier solve stays published although scaling is off",
  [(EST, """        _sigma2ThetaScaled.resize(0, 0);
        _sigma2ThetaObsScaled.resize(0, 0);
""", """        _sigma2ThetaScaled.resize(0, 0);
""")],
  """  IncrementalEstimator e(1);
  DvP t = var(0);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); Script::next() = good(10, 2); NEED(e.addBatch(b1).batchAccepted);
  NEED(e.getSigma2ThetaObs(true).size() == 1);
  e.getLinearSolverOptions().columnScaling = false; Script::next() = good(12, 2); IncrementalEstimator::ReturnValue r = e.reoptimize();
  NEED(e.getSigma2Theta(true).size() == 0); NEED(e.getSigma2ThetaObs(true).size() == 0); NEED(r.sigma2ThetaObsScaled.size() == 0);"""),
 seed("M05-order-once", "C04", "a second batch that brings a group of its own",
  "the calibration group is moved to the end only when the first batch is added",
  [(EST, """        if (*margGroupIt != groupsOrdering.back()) {
          std::swap""", """        if (*margGroupIt != groupsOrdering.back() &&
            _problem->getNumOptimizationProblems() < 2) {
          std::swap""")],
  """  IncrementalEstimator e(1);
  DvP t = var(0), x = var(1), y = var(2);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); b1->addDesignVariable(x, 0); Script::next() = good(10, 2); NEED(e.addBatch(b1).batchAccepted);
  NEED(Script::order().back() == t.get());
  Batch b2 = batch(); b2->addDesignVariable(t, 1); b2->addDesignVariable(y, 2); Script::next() = good(20, 2); e.addBatch(b2);
  NEED(Script::order().back() == t.get()); NEED(Script::margin() == 4);"""),
 seed("M06-group-popped", "C06", "a batch removed although a later one brought another group",
  "when a group empties the last group of the ordering goes instead of the one that emptied",
  [(INC, """            auto it = std::find(_groupsOrdering.begin(), _groupsOrdering.end(),
              groupId);
            _groupsOrdering.erase(it);
""", """            _groupsOrdering.pop_back();
""")],
  """  IncrementalOptimizationProblem p; Batch b1 = batch(), b2 = batch(); DvP x = var(1), y = var(2);
  b1->addDesignVariable(x, 3); b2->addDesignVariable(y, 4); p.add(b1); p.add(b2);
  Batch b3 = batch(); DvP z = var(3); b3->addDesignVariable(z, 5); p.add(b3); p.remove(b3); NEED(p.getGroupsOrdering().size() == 2);
  NEED(p.getGroupsOrdering()[1] == 4);
  p.remove(b1); NEED(p.getGroupsOrdering().size() == 1); NEED(p.getGroupsOrdering()[0] == 4); NEED(p.designVariable(0) == y.get());"""),
 seed("M07-membership-last", "C05", "a residual that is in an earlier batch but not in the last one",
  "only the batch added last is consulted about the residuals in the problem",
  [(INC, """      for (auto it = _optimizationProblems.cbegin();
          it != _optimizationProblems.cend(); ++it)
        if ((*it)->isErrorTermInProblem(errorTerm))
          return true;
      return false;""", """      if (_optimizationProblems.empty())
        return false;
      return _optimizationProblems.back()->isErrorTermInProblem(errorTerm);""")],
  """  IncrementalOptimizationProblem p; Batch b1 = batch(), b2 = batch();
  boost::shared_ptr<ErrorTerm> e1 = boost::make_shared<ErrorTerm>(), e2 = boost::make_shared<ErrorTerm>();
  b1->addErrorTerm(e1); b2->addErrorTerm(e2); p.add(b1); NEED(p.isErrorTermInProblem(e1.get())); p.add(b2);
  NEED(p.isErrorTermInProblem(e2.get())); NEED(p.isErrorTermInProblem(e1.get())); NEED(p.errorTerm(0) == e1.get());"""),
 seed("M08-restore-current", "C09", "a variable added between the save and the restore",
  "restoring walks the variables of the problem, so one without a recorded value is given an empty one",
  [(INC, """      for (auto it = _designVariablesBackup.cbegin();
          it != _designVariablesBackup.cend(); ++it)
        it->first->setParameters(_designVariablesBackup[it->first]);""",
   """      for (auto it = _designVariablesCounts.cbegin();
          it != _designVariablesCounts.cend(); ++it) {
        DesignVariable* const dv = const_cast<DesignVariable*>(it->first);
        dv->setParameters(_designVariablesBackup[dv]);
      }""")],
  """  IncrementalOptimizationProblem p; Batch b1 = batch(), b2 = batch(); DvP x = var(1), y = var(2);
  b1->addDesignVariable(x, 3); b2->addDesignVariable(y, 4); p.add(b1); p.saveDesignVariables(); x->setValue(Eigen::Vector2d(8, 8)); p.add(b2);
  try { p.restoreDesignVariables(); } catch (const std::exception& e) { NEED(!"restore refused"); }
  NEED(x->getValue()(0) == 1); NEED(y->getValue()(0) == 2);"""),
 seed("M09-old-kept", "C10", "the same value set twice, then a revert",
  "setting raw parameters equal to the current ones leaves the kept value of an earlier change in place",
  [(VDV, """          "dimensions must match", __FILE__, __LINE__, __PRETTY_FUNCTION__);
      _oldValue = _value;
      _value = value;""", """          "dimensions must match", __FILE__, __LINE__, __PRETTY_FUNCTION__);
      if (value == _value)
        return;
      _oldValue = _value;
      _value = value;""")],
  """  Dv d(Eigen::Vector2d(1, 1)); d.setValue(Eigen::Vector2d(2, 2)); Eigen::MatrixXd m(2, 1); m << 2, 2; d.setParameters(m); d.revertUpdate();
  NEED(d.getValue()(0) == 2);"""),
 seed("M10-order-partial", "C08", "an ordering whose last entry is unknown or repeated",
  "the new ordering is written while it is being checked",
  [(PRO, """        groupsLookup.insert(*it);
      }
      _groupsOrdering = groupsOrdering;""", """        groupsLookup.insert(*it);
        _groupsOrdering[groupsLookup.size() - 1] = *it;
      }""")],
  """  Batch p = batch(); DvP x = var(1), y = var(2); p->addDesignVariable(x, 3); p->addDesignVariable(y, 4);
  std::vector<size_t> o; o.push_back(4); o.push_back(4); bool refused = false;
  try { p->setGroupsOrdering(o); } catch (const std::exception&) { refused = true; } NEED(refused);
  NEED(p->getGroupsOrdering()[0] == 3); NEED(p->getGroupsOrdering()[1] == 4); NEED(p->designVariable(0) == x.get());
  o[1] = 3; p->setGroupsOrdering(o); NEED(p->designVariable(0) == y.get());"""),
 seed("M11-shared-erased", "C06", "a variable used by two batches, one of them removed after a save",
  "the recorded value of a variable another batch still uses is dropped with the batch",
  [(INC, """        _designVariablesCounts[dv].first--;
        if""", """        _designVariablesBackup.erase(const_cast<DesignVariable*>(dv));
        _designVariablesCounts[dv].first--;
        if"""),
   (INC, """          _designVariablesBackup.erase(const_cast<DesignVariable*>(dv));
        }
      }""", """        }
      }""")],
  """  IncrementalOptimizationProblem p; Batch b1 = batch(), b2 = batch(); DvP x = var(1);
  b1->addDesignVariable(x, 3); b2->addDesignVariable(x, 3); p.add(b1); p.add(b2); p.saveDesignVariables(); x->setValue(Eigen::Vector2d(8, 8));
  p.remove(b2); p.restoreDesignVariables(); NEED(x->getValue()(0) == 1);"""),
 seed("M12-margin-stale", "C04", "re-optimisation after a batch with other variables was removed",
  "a re-optimisation keeps the split of the last addition",
  [(EST, """      linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(JCols - dim));

      // optimize
      aslam::backend::SolutionReturnValue srv = _optimizer->optimize();

      // grep the scaled linear""", """      if (linearSolver->getMargStartIndex() <= 0)
        linearSolver->setMargStartIndex(
          static_cast<std::ptrdiff_t>(JCols - dim));

      // optimize
      aslam::backend::SolutionReturnValue srv = _optimizer->optimize();

      // grep the scaled linear""")],
  """  IncrementalEstimator e(1);
  DvP t = var(0), x = var(1), y = var(2);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); b1->addDesignVariable(x, 0); Script::next() = good(10, 2); NEED(e.addBatch(b1).batchAccepted);
  NEED(Script::margin() == 2);
  Batch b2 = batch(); b2->addDesignVariable(t, 1); b2->addDesignVariable(y, 0); Script::next() = good(20, 2); NEED(e.addBatch(b2).batchAccepted);
  NEED(Script::margin() == 4); Script::next() = good(20, 2); e.removeBatch(b2); NEED(Script::margin() == 2);"""),
 seed("M13-iteration-limit", "C02", "validity checking enabled and a limit of iterations changed after construction",
  "the iteration limit in force is not the one compared with",
  [(EST, """      if (_options.checkValidity && (srv.iterations ==
          _optimizer->options().maxIterations || srv.JFinal >= srv.JStart))""",
   """      const OptimizerOptions limits;
      if (_options.checkValidity && (srv.iterations ==
          limits.maxIterations || srv.JFinal >= srv.JStart))""")],
  """  IncrementalEstimator e(1); e.getOptions().checkValidity = true; e.getOptimizerOptions().maxIterations = 5;
  DvP t = var(0);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); Script::next() = good(10, 2); Script::next().iterations = 5; NEED(!e.addBatch(b1).batchAccepted);
  Script::next().iterations = 4; NEED(e.addBatch(b1).batchAccepted);"""),
 seed("M14-first-batch-left", "C01", "the first batch is rejected",
  "a rejected first batch stays in the problem",
  [(EST, """        // kick out the problem from the container
        _problem->remove(problem);

        // restore the linear solver
        if (_problem->getNumOptimizationProblems() > 0)
          restoreLinearSolver();""", """        if (_problem->getNumOptimizationProblems() > 1) {
          // kick out the problem from the container
          _problem->remove(problem);

          // restore the linear solver
          restoreLinearSolver();
        }""")],
  """  IncrementalEstimator e(1); e.getOptions().checkValidity = true;
  DvP t = var(0);
  Batch b1 = batch(); b1->addDesignVariable(t, 1); Script::next() = good(10, 2); Script::next().JFinal = 20; NEED(!e.addBatch(b1).batchAccepted);
  NEED(e.getNumBatches() == 0); NEED(t->getValue()(0) == 0);"""),
]
