// stand-in: the integrator only passes a pointer to this type on
#pragma once
#include "eigen3/Eigen/Eigen"
#include <cassert>
#include <cstring>
namespace dso { struct IntegrationParameters { void *user = nullptr; }; }
