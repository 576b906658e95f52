#pragma once
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/RotationExpression.hpp>
namespace aslam { namespace backend {
class RotationQuaternion : public DesignVariable {
public:
  RotationQuaternion(const Eigen::Vector4d& q);
  RotationQuaternion(const Eigen::Matrix3d& C);
  virtual ~RotationQuaternion();
  Eigen::Matrix3d toRotationMatrix() const;
  const Eigen::Vector4d& getQuaternion() const;
  RotationExpression toExpression() const;
  void set(const Eigen::Vector4d& q);
protected:
  virtual int minimalDimensionsImplementation() const;
  virtual void updateImplementation(const double* dp, int size);
  virtual void revertUpdateImplementation();
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value);
private:
  Eigen::Vector4d _q;
};
} }
