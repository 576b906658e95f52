#pragma once
#include <boost/python.hpp>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
