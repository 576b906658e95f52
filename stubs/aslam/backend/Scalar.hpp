#pragma once
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ScalarExpression.hpp>
namespace aslam { namespace backend {
class Scalar : public DesignVariable {
public:
  Scalar(const double& p);
  virtual ~Scalar();
  double toScalar() const;
  ScalarExpression toExpression() const;
  Eigen::MatrixXd getParameters() const;
protected:
  virtual int minimalDimensionsImplementation() const;
  virtual void updateImplementation(const double* dp, int size);
  virtual void revertUpdateImplementation();
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value);
private:
  double _p;
};
} }
