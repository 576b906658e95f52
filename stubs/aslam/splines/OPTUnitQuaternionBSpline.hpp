#pragma once
#include <aslam/splines/OPTBSpline.hpp>
