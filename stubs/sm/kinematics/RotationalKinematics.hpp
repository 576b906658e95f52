#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
class RotationalKinematics {
public:
  virtual ~RotationalKinematics();
  virtual Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& parameters, Eigen::Matrix3d* S = 0) const = 0;
  virtual Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& rotationMatrix) const = 0;
  virtual Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& parameters) const = 0;
};
} }
