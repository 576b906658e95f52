#pragma once
#include <cmath>
#include <Eigen/Geometry>
namespace sm { namespace kinematics {
class EulerAnglesYawPitchRoll {
public:
  EulerAnglesYawPitchRoll() {}
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p) const {
    return (Eigen::AngleAxisd(p(0), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p(1), Eigen::Vector3d::UnitY()) *
            Eigen::AngleAxisd(p(2), Eigen::Vector3d::UnitX())).toRotationMatrix();
  }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    return Eigen::Vector3d(std::atan2(C(1, 0), C(0, 0)), std::atan2(-C(2, 0), std::hypot(C(2, 1), C(2, 2))), std::atan2(C(2, 1), C(2, 2)));
  }
};
} }
