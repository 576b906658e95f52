#pragma once
#include <sm/kinematics/RotationalKinematics.hpp>
#include <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics {
class EulerAnglesYawPitchRoll : public RotationalKinematics {
public:
  EulerAnglesYawPitchRoll();
  virtual ~EulerAnglesYawPitchRoll();
  virtual Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& parameters, Eigen::Matrix3d* S = 0) const;
  virtual Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& rotationMatrix) const;
  virtual Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& parameters) const;
  Eigen::Vector3d angularVelocityAndJacobian(const Eigen::Vector3d& p, const Eigen::Vector3d& pdot,
                                             Eigen::Matrix<double, 3, 6>* Jacobian) const;
};
} }
