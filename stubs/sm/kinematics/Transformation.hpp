#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
class Transformation {
public:
  Transformation();
  Transformation(const Eigen::Matrix4d& T);
  Transformation(const Eigen::Vector4d& q_a_b, const Eigen::Vector3d& a_t_b_a);
  Transformation(const Transformation&);
  Transformation& operator=(const Transformation&);
  virtual ~Transformation();
  Eigen::Matrix4d T() const;
  Eigen::Matrix3d C() const;
  const Eigen::Vector3d& t() const;
  const Eigen::Vector4d& q() const;
  Transformation inverse() const;
  Transformation operator*(const Transformation& rhs) const;
  Eigen::Vector3d operator*(const Eigen::Vector3d& rhs) const;
private:
  Eigen::Vector4d _q_a_b;
  Eigen::Vector3d _t_a_b_a;
};
} }
