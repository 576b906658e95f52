#pragma once
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/GenericScalarExpression.hpp>
namespace aslam { namespace backend {
template<typename S>
class GenericScalar : public DesignVariable {
public:
  typedef S Scalar;
  typedef GenericScalarExpression<S> Expression;
  GenericScalar(const S& p);
  virtual ~GenericScalar();
  S toScalar() const;
  const S& getValue() const;
  Expression toExpression() const;
  Eigen::MatrixXd getParameters() const;
protected:
  virtual int minimalDimensionsImplementation() const;
  virtual void updateImplementation(const double* dp, int size);
  virtual void revertUpdateImplementation();
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value);
private:
  S _p;
};
} }
