#pragma once
#include "datetime_read.hpp"
