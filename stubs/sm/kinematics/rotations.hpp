#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
double angleMod(double radians);
Eigen::Matrix3d Rx(double radians);
Eigen::Matrix3d Ry(double radians);
Eigen::Matrix3d Rz(double radians);
Eigen::Matrix3d rph2R(double x, double y, double z);
Eigen::Matrix3d rph2R(const Eigen::VectorXd& x);
Eigen::Vector3d R2rph(const Eigen::Matrix3d& C);
Eigen::Matrix3d crossMx(double x, double y, double z);
Eigen::Matrix3d crossMx(const Eigen::Vector3d& x);
} }
