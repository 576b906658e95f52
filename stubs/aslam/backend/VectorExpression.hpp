#pragma once
#include <set>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
template<int D>
class VectorExpression {
public:
  typedef Eigen::Matrix<double, D, 1> vector_t;
  typedef vector_t value_t;
  VectorExpression();
  VectorExpression(const VectorExpression&);
  VectorExpression& operator=(const VectorExpression&);
  virtual ~VectorExpression();
  vector_t evaluate() const;
  vector_t value() const;
  vector_t toValue() const;
  void evaluateJacobians(JacobianContainer& outJacobians) const;
  void evaluateJacobians(JacobianContainer& outJacobians, const Eigen::MatrixXd& applyChainRule) const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
private:
  int _root;
};
} }
