#pragma once
#include <boost/shared_ptr.hpp>
namespace aslam { namespace backend {
class TrustRegionPolicy { public: TrustRegionPolicy(); virtual ~TrustRegionPolicy(); private: int _marker; };
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy { public: GaussNewtonTrustRegionPolicy(); virtual ~GaussNewtonTrustRegionPolicy(); };
} }
