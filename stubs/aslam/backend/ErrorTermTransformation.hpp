#pragma once
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/TransformationExpression.hpp>
#include <sm/kinematics/Transformation.hpp>
namespace aslam { namespace backend {
class ErrorTermTransformation : public ErrorTermFs<6> {
public:
  ErrorTermTransformation(TransformationExpression T, sm::kinematics::Transformation prior, const Eigen::Matrix<double, 6, 6>& N);
  ErrorTermTransformation(TransformationExpression T, sm::kinematics::Transformation prior, double weightRotation, double weightTranslation);
  virtual ~ErrorTermTransformation();
protected:
  virtual double evaluateErrorImplementation();
  virtual void evaluateJacobiansImplementation(JacobianContainer& J);
};
} }
