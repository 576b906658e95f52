// Minimal working stand-in for the part of aslam_backend the demonstrations use.
#pragma once
#include <set>
#include <vector>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
namespace aslam { namespace backend {
class DesignVariable {
public:
  DesignVariable() : _block(-1), _column(-1), _active(false) {}
  virtual ~DesignVariable() {}
  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  void update(const double* dp, int size) { updateImplementation(dp, size); }
  void revertUpdate() { revertUpdateImplementation(); }
  void getParameters(Eigen::MatrixXd& value) const { getParametersImplementation(value); }
  void setParameters(const Eigen::MatrixXd& value) { setParametersImplementation(value); }
  void minimalDifference(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out) const { minimalDifferenceImplementation(xHat, out); }
  bool isActive() const { return _active; }
  void setActive(bool a) { _active = a; }
  int blockIndex() const { return _block; }
  void setBlockIndex(int i) { _block = i; }
  int columnBase() const { return _column; }
  void setColumnBase(int c) { _column = c; }
protected:
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual void revertUpdateImplementation() = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
  virtual void minimalDifferenceImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&) const {}
  virtual void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&, Eigen::MatrixXd&) const {}
private:
  int _block, _column;
  bool _active;
};
} }
