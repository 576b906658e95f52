#pragma once
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/VectorExpression.hpp>
#include <aslam/backend/ScalarExpression.hpp>
namespace aslam { namespace backend {
class EuclideanPoint;
class EuclideanExpression {
public:
  typedef Eigen::Vector3d vector_t;
  EuclideanExpression();
  EuclideanExpression(const Eigen::Vector3d& p);
  EuclideanExpression(boost::shared_ptr<EuclideanPoint> dv);
  EuclideanExpression(EuclideanPoint* dv);
  EuclideanExpression(const VectorExpression<3>& e);
  EuclideanExpression(const EuclideanExpression&);
  EuclideanExpression& operator=(const EuclideanExpression&);
  virtual ~EuclideanExpression();
  Eigen::Vector3d toEuclidean() const;
  Eigen::Vector3d toValue() const;
  Eigen::Vector3d evaluate() const;
  void evaluateJacobians(JacobianContainer& outJacobians) const;
  void evaluateJacobians(JacobianContainer& outJacobians, const Eigen::MatrixXd& applyChainRule) const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
  EuclideanExpression cross(const EuclideanExpression& p) const;
  EuclideanExpression operator+(const EuclideanExpression& p) const;
  EuclideanExpression operator-(const EuclideanExpression& p) const;
  EuclideanExpression operator-() const;
  EuclideanExpression operator*(const ScalarExpression& s) const;
private:
  int _root;
};
} }
