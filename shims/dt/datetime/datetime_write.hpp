#pragma once
#include "dtcalendar.hpp"
