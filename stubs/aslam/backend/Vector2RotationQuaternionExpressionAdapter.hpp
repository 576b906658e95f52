#pragma once
#include <aslam/backend/VectorExpression.hpp>
#include <aslam/backend/RotationExpression.hpp>
namespace aslam { namespace backend {
class Vector2RotationQuaternionExpressionAdapter {
public:
  static RotationExpression adapt(const VectorExpression<4>& vectorExpression);
};
} }
