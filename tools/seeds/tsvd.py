"""Planted bugs of the solver adapter."""
F = "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"
SCRIPT = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
I=aslam_tsvd_solver
g++ -std=c++14 -O0 -w -I$I/include -I"$here/rt" -isystem /usr/include/eigen3 -isystem /usr/include/suitesparse "$here/demo.cpp" $I/src/aslam-tsvd-solver.cc \\
  -lcholmod -lglog -o "$out/demo"
timeout 60 "$out/demo"
'''
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <iostream>
#include <sstream>
#include <Eigen/Core>
#include <cholmod.h>
#define private public
#include "aslam-tsvd-solver/aslam-tsvd-solver.h"
#undef private
#include <sm/PropertyTree.hpp>
using namespace aslam::backend;
#define NEED(x) do { if (!(x)) { std::printf("broken: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
int main() {
'''


def seed(id, property, needs, breaks, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=HEAD + body + "\n  return 0;\n}\n", script=SCRIPT, rt="tsvd")


SEEDS = [
 seed("M20-marginal-raw", "C19", "an analysis of the marginal system that raises",
  "the transposed matrix is released only when the analysis returns",
  [(F, """  truncated_svd_solver::SelfFreeingCholmodPtr<cholmod_sparse> J_CS(
      cholmod_l_transpose(&Jt_CS, 1, &cholmod_), cholmod_);
  if (J_CS == nullptr) {
    return false;
  }
  truncated_svd_solver::TruncatedSvdSolver::analyzeMarginal(
      J_CS, margStartIndex_);
  return true;""", """  cholmod_sparse* J_CS = cholmod_l_transpose(&Jt_CS, 1, &cholmod_);
  if (J_CS == nullptr) {
    return false;
  }
  truncated_svd_solver::TruncatedSvdSolver::analyzeMarginal(
      J_CS, margStartIndex_);
  cholmod_l_free_sparse(&J_CS, &cholmod_);
  return true;""")],
  """  AslamTruncatedSvdSolver s; s.analyzeMarginal(); const size_t before = s.held(); NEED(s.analyzeMarginal()); NEED(s.held() == before);
  s.fails = true; try { s.analyzeMarginal(); NEED(!"returned"); } catch (const std::exception&) {} NEED(s.held() == before);"""),
 seed("M21-failure-hidden", "C19", "a matrix cholmod cannot transpose",
  "the failed analysis of the marginal system is reported as done",
  [(F, """  if (J_CS == nullptr) {
    return false;
  }
  truncated_svd_solver::TruncatedSvdSolver::analyzeMarginal(
      J_CS, margStartIndex_);
  return true;""", """  if (J_CS != nullptr) {
    truncated_svd_solver::TruncatedSvdSolver::analyzeMarginal(
        J_CS, margStartIndex_);
  }
  return true;""")],
  """  AslamTruncatedSvdSolver s; NEED(s.analyzeMarginal()); NEED(s.seen == 1);
  s.jacobian_builder_.J_transpose().broken = true; NEED(!s.analyzeMarginal()); NEED(s.seen == 1);"""),
 seed("M22-solver-key", "C24", "a configuration that gives the two tolerances different values",
  "the option for the QR tolerance is read from the entry of the SVD tolerance",
  [(F, 'config.getDouble("qrTol", tsvd_options.qrTol)', 'config.getDouble("svdTol", tsvd_options.qrTol)')],
  """  sm::PropertyTree t; t.v["svdTol"] = 0.5; t.v["qrTol"] = 0.25; AslamTruncatedSvdSolver s(t);
  NEED(s.getOptions().svdTol == 0.5); NEED(s.getOptions().qrTol == 0.25);"""),
]
