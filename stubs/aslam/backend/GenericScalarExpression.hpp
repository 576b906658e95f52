#pragma once
#include <boost/shared_ptr.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ScalarExpression.hpp>
namespace aslam { namespace backend {
template<typename S> class GenericScalar;
template<typename S>
class GenericScalarExpression {
public:
  typedef S Scalar;
  GenericScalarExpression(S s);
  template<typename T> GenericScalarExpression(T s);
  GenericScalarExpression(GenericScalar<S>* dv);
  GenericScalarExpression(const GenericScalarExpression&);
  GenericScalarExpression& operator=(const GenericScalarExpression&);
  virtual ~GenericScalarExpression();
  S toScalar() const;
  S evaluate() const;
  void getDesignVariables(DesignVariable::set_t& designVariables) const;
  GenericScalarExpression operator+(const GenericScalarExpression&) const;
  GenericScalarExpression operator-(const GenericScalarExpression&) const;
private:
  int _root;
};
} }
