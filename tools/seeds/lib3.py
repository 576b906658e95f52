"""Planted bugs in the library, third batch."""
D = "incremental_calibration/include/aslam/calibration/statistics/"
HEAD = """#include <cmath>
#include <vector>
#include <stdexcept>
#include <algorithm>
#include <Eigen/Core>
#include "aslam/calibration/statistics/Randomizer.h"
#include "aslam/calibration/statistics/NormalDistribution.h"
#include "aslam/calibration/statistics/UniformDistribution.h"
using namespace aslam::calibration;
int main() {
"""


def seed(id, property, needs, breaks, edits, body):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=HEAD + body + "\n  return 0;\n}\n")


SEEDS = [
 seed("L13-gamma-boost", "C32", "a shape above one that is not an integer",
  "the rejection constant of the fractional part is computed from the whole shape",
  [(D + "Randomizer.tpp", "double b = (M_E + fractionalPart) / M_E;", "double b = (M_E + shape) / M_E;")],
  """  Randomizer<double> r(1.0); const int n = 200000; const double shapes[] = {1.5, 2.3, 3.9, 0.5};
  for (double k : shapes) {
    double a = 0; for (int i = 0; i < n; ++i) a += r.sampleGamma(k, 2.0);
    if (std::fabs(a / n - k / 2) > 0.02) return 1;
  }"""),
 seed("L14-categorical-sum", "C32", "four categories or more",
  "the cumulative probability forgets all but the last two categories",
  [(D + "Randomizer.tpp", "          sum += probabilities(i);", "          sum = probabilities(i) + probabilities(i - 1);")],
  """  Randomizer<double, 4> r(2.0); const int n = 200000; int c[4] = {0, 0, 0, 0};
  Eigen::Matrix<double, 4, 1> p; p << 0.4, 0.1, 0.2, 0.3;
  for (int i = 0; i < n; ++i) c[r.sampleCategorical(p)]++;
  for (int i = 0; i < 4; ++i) if (std::fabs(c[i] / (double)n - p(i)) > 0.01) return 1;"""),
 seed("L15-normal-upper", "C32", "correlated components of different variances",
  "samples are transformed with the transposed factor of the covariance",
  [(D + "NormalDistributionMv.tpp", "mTransformation.matrixL() * sample", "mTransformation.matrixU() * sample")],
  """  Eigen::Matrix2d C; C << 4, 1.5, 1.5, 1; NormalDistribution<2> d(Eigen::Vector2d(1, -1), C);
  const int n = 200000; double a = 0, b = 0, c = 0;
  for (int i = 0; i < n; ++i) { Eigen::Vector2d x = d.getSample() - d.getMean(); a += x(0) * x(0); b += x(0) * x(1); c += x(1) * x(1); }
  if (std::fabs(a / n - 4) > 0.2 || std::fabs(b / n - 1.5) > 0.1 || std::fabs(c / n - 1) > 0.05) return 1;"""),
 seed("L16-nearly-symmetric", "C11", "a covariance whose off-diagonal elements differ slightly",
  "covariances are accepted that are symmetric only up to a thousandth",
  [(D + "NormalDistributionMv.tpp", "if (covariance.transpose() != covariance)", "if (!covariance.transpose().isApprox(covariance, 1e-3))")],
  """  Eigen::Matrix2d C; C << 2, 0.5, 0.5001, 1;
  NormalDistribution<2> d; const Eigen::Matrix2d before = d.getCovariance(); bool refused = false;
  try { d.setCovariance(C); } catch (const std::exception&) { refused = true; }
  if (!refused || d.getCovariance() != before) return 1;"""),
 seed("L18-support-area", "C12", "a second support set on the same distribution",
  "the area of the support is computed from the previous lower end",
  [(D + "UniformDistributionMv.tpp", "      mMinSupport = minSupport;\n      mMaxSupport = maxSupport;\n      mSupportArea = Traits::template getSupportArea<X, true>(minSupport,\n        maxSupport);",
    "      mSupportArea = Traits::template getSupportArea<X, true>(mMinSupport,\n        maxSupport);\n      mMinSupport = minSupport;\n      mMaxSupport = maxSupport;")],
  """  typedef UniformDistribution<double, 2> U; U u(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 1));
  u.setSupport(Eigen::Vector2d(1, 2), Eigen::Vector2d(3, 3));
  if (std::fabs(u.pdf(Eigen::Vector2d(2, 2.5)) - 0.5) > 1e-12) return 1;"""),
]
