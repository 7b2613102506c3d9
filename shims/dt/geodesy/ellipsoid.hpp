#pragma once
#include "geodesy.hpp"
