#pragma once
#include <cstddef>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/VectorExpression.hpp>
#include <aslam/backend/GenericScalarExpression.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
namespace aslam { namespace splines {
template<typename TConf>
class OPTBSpline {
public:
  class BSpline {
  public:
    typedef typename TConf::TimePolicy::time_t time_t;
    enum { Dim = TConf::Dim };
    typedef Eigen::Matrix<double, Dim, 1> point_t;
    typedef aslam::backend::VectorExpression<Dim> expression_t;
    typedef aslam::backend::FixedPointNumber<time_t, (long)1000000000> Time;
    typedef aslam::backend::GenericScalarExpression<Time> TimeExpression;
    template<int I>
    class ExpressionFactory {
    public:
      expression_t getValueExpression(int derivativeOrder = 0) const;
      aslam::backend::VectorExpression<3> getAngularVelocityExpression() const;
      aslam::backend::VectorExpression<3> getAngularAccelerationExpression() const;
    private:
      int _i;
    };
    BSpline(const TConf& conf = TConf());
    BSpline(const BSpline&);
    BSpline& operator=(const BSpline&);
    ~BSpline();
    template<int I> ExpressionFactory<I> getExpressionFactoryAt(time_t t) const;
    template<int I> ExpressionFactory<I> getExpressionFactoryAt(const TimeExpression& t, time_t lower, time_t upper) const;
    time_t getMinTime() const;
    time_t getMaxTime() const;
    std::size_t numDesignVariables() const;
    aslam::backend::DesignVariable* designVariable(std::size_t i);
  private:
    int _s;
  };
};
} }
