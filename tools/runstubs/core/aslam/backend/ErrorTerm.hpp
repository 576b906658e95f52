#pragma once
#include <vector>
#include <aslam/backend/DesignVariable.hpp>
namespace aslam { namespace backend {
class ErrorTerm {
public:
  explicit ErrorTerm(size_t dim = 1) : _dim(dim), _row(0) {}
  virtual ~ErrorTerm() {}
  size_t dimension() const { return _dim; }
  size_t rowBase() const { return _row; }
  void setRowBase(size_t r) { _row = r; }
  size_t numDesignVariables() const { return _dvs.size(); }
  DesignVariable* designVariable(size_t i) { return _dvs[i]; }
  const DesignVariable* designVariable(size_t i) const { return _dvs[i]; }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  void use(DesignVariable* dv) { _dvs.push_back(dv); }
private:
  size_t _dim, _row;
  std::vector<DesignVariable*> _dvs;
};
class ScalarNonSquaredErrorTerm { public: virtual ~ScalarNonSquaredErrorTerm() {} };
} }
