#pragma once
#include <cmath>
#include <cstdint>
namespace sm { namespace timing {
typedef int64_t NsecTime;
inline NsecTime secToNsec(double s) { return std::llround(s * 1e9); }
inline double nsecToSec(NsecTime t) { return t * 1e-9; }
} }
