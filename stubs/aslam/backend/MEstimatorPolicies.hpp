#pragma once
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
class BlakeZissermanMEstimator : public MEstimator { public: BlakeZissermanMEstimator(double, double, double); virtual double getWeight(double) const; private: double _e; };
} }
