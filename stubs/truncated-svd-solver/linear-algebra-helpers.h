#pragma once
#include <Eigen/Core>
namespace truncated_svd_solver {
void calculateNorm();
}
