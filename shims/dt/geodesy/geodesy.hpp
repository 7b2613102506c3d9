// stand-in: conversion of cartesian to geodetic coordinates (GRS80), closed form iteration
#pragma once
#include "units.hpp"
#include "eigen3/Eigen/Eigen"
namespace dso {
enum class ellipsoid : char { grs80, wgs84, pz90 };
template <ellipsoid E> struct ellipsoid_traits {};
template <> struct ellipsoid_traits<ellipsoid::grs80> { static constexpr double a = 6378137., f = 1 / 298.257222101; };
template <ellipsoid E> inline void car2ell_(double x, double y, double z, double &lat, double &lon, double &h) {
  const double a = 6378137., f = E == ellipsoid::grs80 ? 1 / 298.257222101 : 1 / 298.257223563, e2 = f * (2 - f);
  lon = std::atan2(y, x);
  const double p = std::sqrt(x * x + y * y);
  lat = std::atan2(z, p * (1 - e2));
  for (int i = 0; i < 12; i++) { const double n = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat)); h = p / std::cos(lat) - n; lat = std::atan2(z, p * (1 - e2 * n / (n + h))); }
}
template <ellipsoid E> inline Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &r) {
  Eigen::Matrix<double, 3, 1> o; double la, lo, h; car2ell_<E>(r(0), r(1), r(2), la, lo, h); o << lo, la, h; return o;
}
}
