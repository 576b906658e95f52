#pragma once
#include <sm/kinematics/quaternion_algebra.hpp>
namespace sm { namespace kinematics {
class Transformation {
  Eigen::Vector4d q_;
  Eigen::Vector3d t_;
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : q_(0, 0, 0, 1), t_(0, 0, 0) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  Transformation(const Eigen::Matrix4d& T) : q_(r2quat(T.topLeftCorner<3, 3>())), t_(T.topRightCorner<3, 1>()) {}
  const Eigen::Vector4d& q() const { return q_; }
  const Eigen::Vector3d& t() const { return t_; }
  Eigen::Matrix3d C() const { return quat2r(q_); }
  Eigen::Matrix4d T() const { Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = C(); T.topRightCorner<3, 1>() = t_; return T; }
  Transformation inverse() const { return Transformation(quatInv(q_), -(C().transpose() * t_)); }
  Transformation operator*(const Transformation& o) const { return Transformation(qplus(q_, o.q_), t_ + C() * o.t_); }
};
} }
