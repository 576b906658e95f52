#pragma once
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace sm { namespace kinematics {
// quaternions [x y z w] with quat2r(qplus(a, b)) = quat2r(a) * quat2r(b)
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) {
  return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix().transpose();
}
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) {
  const Eigen::Quaterniond q(Eigen::Matrix3d(C.transpose()));
  return Eigen::Vector4d(q.x(), q.y(), q.z(), q.w());
}
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) { return Eigen::Vector4d(-q(0), -q(1), -q(2), q(3)); }
inline Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v) { return quat2r(q) * v; }
inline Eigen::Vector4d qplus(const Eigen::Vector4d& a, const Eigen::Vector4d& b) {
  const Eigen::Quaterniond x(a(3), a(0), a(1), a(2)), y(b(3), b(0), b(1), b(2));
  const Eigen::Quaterniond p = y * x;
  return Eigen::Vector4d(p.x(), p.y(), p.z(), p.w());
}
} }
