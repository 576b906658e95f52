#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
Eigen::Matrix4d rt2Transform(const Eigen::Matrix3d& C, const Eigen::Vector3d& t);
Eigen::Vector3d transform2rho(const Eigen::Matrix4d& T);
Eigen::Matrix3d transform2C(const Eigen::Matrix4d& T);
} }
