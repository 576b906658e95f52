#pragma once
#include <Eigen/Core>
namespace bsplines {
template<typename TConf>
class PlainBSpline {
public:
  typedef typename TConf::TimePolicy::time_t time_t;
  enum { Dim = TConf::Dim };
  typedef Eigen::Matrix<double, Dim, 1> point_t;
  template<int I>
  class Evaluator {
  public:
    point_t eval() const;
    point_t evalD(int derivativeOrder) const;
    Eigen::Vector3d evalAngularVelocity() const;
  private:
    int _i;
  };
  PlainBSpline(const TConf& conf = TConf());
  PlainBSpline(const PlainBSpline&);
  PlainBSpline& operator=(const PlainBSpline&);
  ~PlainBSpline();
  template<int I> Evaluator<I> getEvaluatorAt(time_t t) const;
  time_t getMinTime() const;
  time_t getMaxTime() const;
private:
  int _s;
};
}
