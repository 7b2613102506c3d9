// stand-in for the absent gcem library: constant-expression functions of the compiler
#pragma once
namespace gcem {
constexpr double sin(double x) { return __builtin_sin(x); }
constexpr double cos(double x) { return __builtin_cos(x); }
constexpr double tan(double x) { return __builtin_tan(x); }
constexpr double asin(double x) { return __builtin_asin(x); }
}
