#pragma once
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/EuclideanExpression.hpp>
namespace aslam { namespace backend {
class RotationQuaternion;
class RotationExpression {
public:
  RotationExpression();
  RotationExpression(const Eigen::Matrix3d& C);
  RotationExpression(boost::shared_ptr<RotationQuaternion> dv);
  RotationExpression(const RotationExpression&);
  RotationExpression& operator=(const RotationExpression&);
  virtual ~RotationExpression();
  Eigen::Matrix3d toRotationMatrix() const;
  void evaluateJacobians(JacobianContainer& outJacobians) const;
  void evaluateJacobians(JacobianContainer& outJacobians, const Eigen::MatrixXd& applyChainRule) const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
  RotationExpression inverse() const;
  RotationExpression operator*(const RotationExpression& r) const;
  EuclideanExpression operator*(const EuclideanExpression& p) const;
private:
  int _root;
};
} }
