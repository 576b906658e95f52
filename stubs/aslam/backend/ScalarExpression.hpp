#pragma once
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class Scalar;
class ScalarExpression {
public:
  ScalarExpression();
  ScalarExpression(double value);
  ScalarExpression(boost::shared_ptr<Scalar> dv);
  ScalarExpression(const ScalarExpression&);
  ScalarExpression& operator=(const ScalarExpression&);
  virtual ~ScalarExpression();
  double toScalar() const;
  double toValue() const;
  double evaluate() const;
  void evaluateJacobians(JacobianContainer& outJacobians) const;
  void evaluateJacobians(JacobianContainer& outJacobians, const Eigen::MatrixXd& applyChainRule) const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
  ScalarExpression operator+(const ScalarExpression&) const;
  ScalarExpression operator-(const ScalarExpression&) const;
  ScalarExpression operator*(const ScalarExpression&) const;
private:
  int _root;
};
} }
