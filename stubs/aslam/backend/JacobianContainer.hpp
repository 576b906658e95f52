#pragma once
#include <Eigen/Core>
namespace aslam { namespace backend {
class DesignVariable;
class JacobianContainer {
public:
  explicit JacobianContainer(int rows);
  ~JacobianContainer();
  void add(DesignVariable* dv, const Eigen::MatrixXd& J);
  void add(DesignVariable* dv);
  void clear();
  int rows() const;
private:
  int _rows;
};
} }
