// Declarations only: the parts of aslam_backend this repository relies on.
#pragma once
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <Eigen/Core>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class DesignVariable {
public:
  typedef std::set<DesignVariable*> set_t;
  DesignVariable();
  DesignVariable(const DesignVariable&);
  DesignVariable& operator=(const DesignVariable&);
  virtual ~DesignVariable();
  int minimalDimensions() const;
  void update(const double* dp, int size);
  void revertUpdate();
  bool isActive() const;
  void setActive(bool active);
  int blockIndex() const;
  void setBlockIndex(int idx);
  int columnBase() const;
  void setColumnBase(int base);
  double scaling() const;
  void setScaling(double);
  void getParameters(Eigen::MatrixXd& value) const;
  void setParameters(const Eigen::MatrixXd& value);
  void minimalDifference(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out) const;
protected:
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual void revertUpdateImplementation() = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
  virtual void minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out) const;
  virtual void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out, Eigen::MatrixXd& J) const;
private:
  int _blockIndex;
  int _columnBase;
  bool _isActive;
};
} }
