#pragma once
#include <aslam/backend/Optimizer2Options.hpp>
namespace aslam { namespace backend {
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy {};
} }
