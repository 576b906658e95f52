#pragma once
#include <Eigen/Core>
#include <bsplines/NsecTimePolicy.hpp>
#include <bsplines/PlainBSpline.hpp>
namespace bsplines {
struct UnitQuaternionManifoldConf { UnitQuaternionManifoldConf(); };
template<int N, typename TP>
struct UnitQuaternionBSplineConf {
  typedef UnitQuaternionManifoldConf ManifoldConf;
  typedef TP TimePolicy;
  enum { Dim = 4 };
  UnitQuaternionBSplineConf(const ManifoldConf& c = ManifoldConf(), int splineOrder = 4);
  int _order;
};
template<int N, typename TP>
struct UnitQuaternionBSpline { typedef UnitQuaternionBSplineConf<N, TP> CONF; typedef PlainBSpline<CONF> TYPE; };
}
