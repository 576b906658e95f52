#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
Eigen::Vector4d toHomogeneous(const Eigen::Vector3d& v);
Eigen::Vector3d fromHomogeneous(const Eigen::Vector4d& v);
} }
