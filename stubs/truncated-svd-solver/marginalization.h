#pragma once
#include <cstddef>
#include <cholmod.h>
#include <Eigen/Core>
