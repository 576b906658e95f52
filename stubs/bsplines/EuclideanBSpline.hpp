#pragma once
#include <Eigen/Core>
#include <bsplines/NsecTimePolicy.hpp>
#include <bsplines/PlainBSpline.hpp>
namespace bsplines {
struct EuclideanManifoldConf { EuclideanManifoldConf(int dimension = 3); int _d; };
template<int N, int D, typename TP>
struct EuclideanBSplineConf {
  typedef EuclideanManifoldConf ManifoldConf;
  typedef TP TimePolicy;
  enum { Dim = D };
  EuclideanBSplineConf(const ManifoldConf& c = ManifoldConf(), int splineOrder = 4);
  int _order;
};
template<int N, int D, typename TP>
struct EuclideanBSpline { typedef EuclideanBSplineConf<N, D, TP> CONF; typedef PlainBSpline<CONF> TYPE; };
}
