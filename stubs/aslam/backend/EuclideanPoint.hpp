#pragma once
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/EuclideanExpression.hpp>
namespace aslam { namespace backend {
class EuclideanPoint : public DesignVariable {
public:
  EuclideanPoint(const Eigen::Vector3d& p);
  virtual ~EuclideanPoint();
  const Eigen::Vector3d& toEuclidean() const;
  const Eigen::Vector3d& getValue() const;
  EuclideanExpression toExpression() const;
  void set(const Eigen::Vector3d& p);
protected:
  virtual int minimalDimensionsImplementation() const;
  virtual void updateImplementation(const double* dp, int size);
  virtual void revertUpdateImplementation();
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value);
private:
  Eigen::Vector3d _p;
};
} }
