#pragma once
#include <cmath>
namespace dso {
constexpr double DPI = 3.14159265358979323846, D2PI = 2 * DPI;
template <class T = double> constexpr T rad2deg(T r) { return r * 180 / DPI; }
template <class T = double> constexpr T deg2rad(T d) { return d * DPI / 180; }
template <class T = double> constexpr T rad2sec(T r) { return r * 180 / DPI * 3600; }
template <class T = double> constexpr T arcsec2rad(T r) { return r / 3600 * DPI / 180; }
template <class T = double> constexpr T sec2rad(T r) { return r / 3600 * DPI / 180; }
enum class AngleUnit { Radians, Degrees };
template <class T, AngleUnit U> T norm_angle(T a) { const T full = U == AngleUnit::Radians ? (T)D2PI : (T)360; const T r = std::fmod(a, full); return r < 0 ? r + full : r; }
}
