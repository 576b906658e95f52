"""Planted bugs of the simulation of wheel speeds and poses."""
D = "incremental_calibration_examples/incremental_calibration_examples_time_delay"
F = D + "/src/simulation/simulationEngine.cpp"
SCRIPT = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
T=incremental_calibration_examples/incremental_calibration_examples_time_delay
I=incremental_calibration
g++ -std=c++14 -O1 -w -I$T/include -I$I/include -I"$here/rt" -isystem /usr/include/eigen3 "$here/demo.cpp" $T/src/simulation/simulationEngine.cpp \\
  $T/src/simulation/SimulationParams.cpp $T/src/simulation/TrajectoryParams.cpp -L_build -lincremental_calibration -o "$out/demo"
LD_LIBRARY_PATH=_build timeout 60 "$out/demo"
'''
HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/timing/NsecTimeUtilities.hpp>
#include "aslam/calibration/time-delay/simulation/simulationEngine.h"
#include "aslam/calibration/time-delay/simulation/SimulationData.h"
#include "aslam/calibration/time-delay/simulation/SimulationParams.h"
using namespace aslam::calibration;
using sm::kinematics::Transformation;
#define NEED(x) do { if (!(x)) { std::printf("broken: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * std::max(1.0, std::fabs(a)); }
int main() {
'''


def seed(id, needs, breaks, edits, body):
    return dict(id=id, property="C33", needs=needs, breaks=breaks, edits=edits, demo=HEAD + body + "\n  return 0;\n}\n", script=SCRIPT, rt="sim")


SEEDS = [
 seed("N01-wheel-noise-twin", "wheels of different accuracy",
  "the noise of the right wheel has the variance of the left one",
  [(F, "const NormalDistribution<1> rwDist(0, params.sigma2_r);", "const NormalDistribution<1> rwDist(0, params.sigma2_l);")],
  """  SimulationParams p;
  p.dt = 0.125;
  p.T = 40;
  p.sigma2_l = 1.0;
  p.sigma2_r = 1e-12;
  p.k_l = p.k_r = 1;
  SimulationData d;
  simulate(p, d);
  NEED(d.rwData.size() == d.rwData_n.size() && d.lwData.size() == d.lwData_n.size() && d.lwData.size() > 100);
  double l = 0, r = 0;
  for (size_t i = 0; i < d.rwData.size(); ++i) {
    r = std::max(r, std::fabs(double(d.rwData_n[i].second.value - d.rwData[i].second.value)));
    l = std::max(l, std::fabs(double(d.lwData_n[i].second.value - d.lwData[i].second.value)));
  }
  NEED(r < 1e-3);
  NEED(l > 0.5 && l < 8);"""),
 seed("N02-noisy-delay", "sensors with different delays",
  "the noisy measurements of the right wheel carry the delay of the left one",
  [(F, """        data.rwData_n.push_back(std::make_pair(timestamp +
          secToNsec(params.t_r), rw));""", """        data.rwData_n.push_back(std::make_pair(timestamp +
          secToNsec(params.t_l), rw));""")],
  """  SimulationParams p;
  p.dt = 0.125;
  p.T = 2;
  p.t_l = 0.25;
  p.t_r = 0.0625;
  SimulationData d;
  simulate(p, d);
  NEED(d.rwData.size() == d.rwData_n.size() && d.rwData.size() == d.lwData_n.size() && d.rwData.size() > 3);
  for (size_t i = 0; i < d.rwData.size(); ++i) {
    NEED(d.rwData[i].first == d.rwData_n[i].first);
    NEED(d.lwData[i].first == d.lwData_n[i].first);
    NEED(d.lwData_n[i].first - d.rwData_n[i].first == sm::timing::secToNsec(0.1875));
  }"""),
 seed("N03-slow-turn", "a rotation slower than a degree per second",
  "slow rotations are dropped by the integration of the motion",
  [(F, "if (v_om_wv_km1_norm2 > std::numeric_limits<double>::epsilon()) {", "if (v_om_wv_km1_norm2 > 1e-2) {")],
  """  Transformation x;
  const Eigen::Vector3d v(1, 0, 0);
  for (int i = 0; i < 1000; ++i)
    x = integrateMotionModel(x, v, Eigen::Vector3d(0, 0, 0.005), 0.1);
  NEED(near(std::atan2(x.C()(1, 0), x.C()(0, 0)), 0.5, 1e-6));
  x = integrateMotionModel(Transformation(), v, Eigen::Vector3d(0, 0, 1.5), 0.5);
  NEED(near(std::atan2(x.C()(1, 0), x.C()(0, 0)), 0.75, 1e-6));
  NEED(near(x.t()(0), 0.5) && near(x.t()(1), 0));"""),
 seed("N04-turned-sensor", "a pose sensor that is turned and displaced",
  "the orientation of the pose sensor is composed in the wrong order",
  [(F, "data.trajectory.w_T_v.back().C() * params.v_T_p.C());", "params.v_T_p.C() * data.trajectory.w_T_v.back().C());")],
  """  SimulationParams p;
  p.dt = 0.125;
  p.T = 20;
  p.trajectoryParams.f = 0.1;
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = (Eigen::AngleAxisd(0.4, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(-0.7, Eigen::Vector3d::UnitZ())).toRotationMatrix();
  T.topRightCorner<3, 1>() = Eigen::Vector3d(0.3, -0.2, 0.9);
  p.v_T_p = Transformation(T);
  SimulationData d;
  simulate(p, d);
  NEED(d.poseData.size() + 1 == d.trajectory.w_T_v.size() && d.poseData.size() > 100);
  for (size_t i = 0; i < d.poseData.size(); ++i) {
    const Eigen::Matrix4d S = d.trajectory.w_T_v[i + 1].T() * T;
    const auto& m = d.poseData[i].second;
    NEED((m.w_r_wp - S.topRightCorner<3, 1>()).norm() < 1e-9);
    const Eigen::Matrix3d C = (Eigen::AngleAxisd(m.w_R_p(0), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(m.w_R_p(1), Eigen::Vector3d::UnitY()) *
      Eigen::AngleAxisd(m.w_R_p(2), Eigen::Vector3d::UnitX())).toRotationMatrix();
    NEED((C - S.topLeftCorner<3, 3>()).norm() < 1e-9);
  }"""),
]
