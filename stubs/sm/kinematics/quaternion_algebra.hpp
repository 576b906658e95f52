#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
Eigen::Vector4d r2quat(const Eigen::Matrix3d& C);
Eigen::Matrix3d quat2r(const Eigen::Vector4d& q);
Eigen::Vector4d quatInv(const Eigen::Vector4d& q);
Eigen::Vector4d qplus(const Eigen::Vector4d& q, const Eigen::Vector4d& p);
Eigen::Vector4d axisAngle2quat(const Eigen::Vector3d& a);
Eigen::Vector3d quat2AxisAngle(const Eigen::Vector4d& q);
Eigen::Vector4d quatIdentity();
Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v);
Eigen::Vector4d qexp(const Eigen::Vector3d& dx);
Eigen::Vector3d qlog(const Eigen::Vector4d& q);
} }
