#pragma once
#include <stddef.h>
#include <cstdint>
namespace sm { namespace timing {
typedef std::int64_t NsecTime;
double nsecToSec(const NsecTime& t);
NsecTime secToNsec(const double& t);
NsecTime nsecNow();
} }
