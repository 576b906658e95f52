#pragma once
#include <vector>
#include <set>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <Eigen/LU>
#include <Eigen/Geometry>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class MEstimator { public: virtual ~MEstimator(); virtual double getWeight(double) const = 0; };
class ErrorTerm {
public:
  ErrorTerm(int dimensions = 0);
  ErrorTerm(const ErrorTerm&);
  ErrorTerm& operator=(const ErrorTerm&);
  virtual ~ErrorTerm();
  size_t dimension() const;
  size_t rowBase() const;
  void setRowBase(size_t base);
  size_t numDesignVariables() const;
  DesignVariable* designVariable(size_t i);
  const DesignVariable* designVariable(size_t i) const;
  const std::vector<DesignVariable*>& designVariables() const;
  double evaluateError();
  double getRawSquaredError() const;
  double getWeightedSquaredError() const;
  double getSquaredError() const;
  void evaluateJacobians(JacobianContainer& J);
  template<typename P> void setMEstimatorPolicy(const P& p);
protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer& J) = 0;
  void setDesignVariables(DesignVariable* dv);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4, DesignVariable* dv5);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4, DesignVariable* dv5,
                          DesignVariable* dv6);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4, DesignVariable* dv5,
                          DesignVariable* dv6, DesignVariable* dv7);
  void setDesignVariables(DesignVariable* dv1, DesignVariable* dv2, DesignVariable* dv3, DesignVariable* dv4, DesignVariable* dv5,
                          DesignVariable* dv6, DesignVariable* dv7, DesignVariable* dv8);
  void setDesignVariables(const std::vector<DesignVariable*>& dvs);
  template<typename It> void setDesignVariablesIterator(It begin, It end);
private:
  int _marker;
};
class ScalarNonSquaredErrorTerm { public: virtual ~ScalarNonSquaredErrorTerm(); };
template<int C>
class ErrorTermFs : public ErrorTerm {
public:
  enum { Dimension = C };
  typedef Eigen::Matrix<double, C, C> inverse_covariance_t;
  typedef Eigen::Matrix<double, C, 1> error_t;
  ErrorTermFs();
  ErrorTermFs(const ErrorTermFs&);
  ErrorTermFs& operator=(const ErrorTermFs&);
  virtual ~ErrorTermFs();
  const error_t& error() const;
  template<typename D> void setInvR(const Eigen::MatrixBase<D>& invR);
  const inverse_covariance_t invR() const;
  template<typename D> void setSqrtInvR(const Eigen::MatrixBase<D>& m);
protected:
  template<typename D> void setError(const Eigen::MatrixBase<D>& e);
  double evaluateChiSquaredError() const;
private:
  error_t _error;
  inverse_covariance_t _sqrtInvR;
};
} }
