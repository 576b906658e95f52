#pragma once
#include <sm/timing/NsecTimeUtilities.hpp>
namespace bsplines {
struct NsecTimePolicy {
  typedef sm::timing::NsecTime time_t;
  typedef sm::timing::NsecTime duration_t;
  static sm::timing::NsecTime getOne();
  static sm::timing::NsecTime getZero();
};
}
