// stand-in for the absent celgeo library (only what the headers need)
#pragma once
#include "../matvec/matvec.hpp"
