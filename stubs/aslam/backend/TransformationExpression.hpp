#pragma once
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/RotationExpression.hpp>
#include <aslam/backend/EuclideanExpression.hpp>
namespace aslam { namespace backend {
class TransformationExpressionNode;
class TransformationExpression {
public:
  TransformationExpression();
  TransformationExpression(const Eigen::Matrix4d& T);
  TransformationExpression(const RotationExpression& rotation, const EuclideanExpression& translation);
  TransformationExpression(const TransformationExpression&);
  TransformationExpression& operator=(const TransformationExpression&);
  virtual ~TransformationExpression();
  Eigen::Matrix4d toTransformationMatrix() const;
  void evaluateJacobians(JacobianContainer& outJacobians) const;
  void evaluateJacobians(JacobianContainer& outJacobians, const Eigen::MatrixXd& applyChainRule) const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
  TransformationExpression inverse() const;
  TransformationExpression operator*(const TransformationExpression& r) const;
  EuclideanExpression operator*(const EuclideanExpression& p) const;
  RotationExpression toRotationExpression() const;
  EuclideanExpression toEuclideanExpression() const;
  boost::shared_ptr<TransformationExpressionNode> root() const;
private:
  boost::shared_ptr<TransformationExpressionNode> _root;
};
} }
