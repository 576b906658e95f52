#pragma once
#include <vector>
#include <Eigen/Core>
namespace bsplines {
template<typename TSpline>
class BSplineFitter {
public:
  typedef typename TSpline::time_t time_t;
  typedef typename TSpline::point_t point_t;
  static void initUniformSpline(TSpline& spline, const std::vector<time_t>& times, const std::vector<point_t>& interpolationPoints,
                                int numSegments, double lambda);
};
}
