// stand-in: SOFA-like routines; the matrices are the published formulas, the
// precession-nutation series are smooth functions of similar size
#pragma once
#include "iersc.hpp"
#include "eigen3/Eigen/Eigen"
#include <cmath>
namespace iers2010 { namespace sofa {
typedef Eigen::Matrix<double, 3, 3> M3;
inline M3 rx(double a) { M3 m; m << 1, 0, 0, 0, std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a); return m; }
inline M3 ry(double a) { M3 m; m << std::cos(a), 0, -std::sin(a), 0, 1, 0, std::sin(a), 0, std::cos(a); return m; }
inline M3 rz(double a) { M3 m; m << std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a), 0, 0, 0, 1; return m; }
inline double cent(double d1, double d2) { return ((d1 - 2451545.) + d2) / 36525.; }
inline void xy06(double d1, double d2, double &x, double &y) {
  const double t = cent(d1, d2);
  x = (-0.016617 + 2004.191898 * t - 0.4297829 * t * t - 6.844318 * std::sin(-33.757 * t + 2.1824)) * DAS2R;
  y = (-0.006951 - 0.025896 * t - 22.4072747 * t * t + 9.205236 * std::cos(-33.757 * t + 2.1824)) * DAS2R;
}
inline double s06(double d1, double d2, double x, double y) { const double t = cent(d1, d2); return (94e-6 + 3808.65e-6 * t) * DAS2R - x * y / 2; }
inline M3 c2ixys_e(double x, double y, double s) { const double r2 = x * x + y * y, e = r2 > 0 ? std::atan2(y, x) : 0, d = std::atan(std::sqrt(r2 / (1 - r2))); return rz(-(e + s)) * ry(d) * rz(e); }
inline double era00(double d1, double d2) {
  const double t = d1 + (d2 - 2451545.), f = std::fmod(d1, 1.) + std::fmod(d2, 1.);
  double a = std::fmod(D2PI * (f + 0.7790572732640 + 0.00273781191135448 * t), D2PI);
  return a < 0 ? a + D2PI : a;
}
inline double sp00(double d1, double d2) { return -47e-6 * cent(d1, d2) * DAS2R; }
inline M3 pom00_e(double xp, double yp, double sp) { return rx(-yp) * ry(-xp) * rz(sp); }
// fundamental arguments (IERS 2003), t in centuries since J2000
inline double fal03(double t) { return std::fmod(485868.249036 + t * (1717915923.2178 + t * (31.8792 + t * (0.051635 + t * -0.00024470))), TURNAS) * DAS2R; }
inline double falp03(double t) { return std::fmod(1287104.793048 + t * (129596581.0481 + t * (-0.5532 + t * (0.000136 + t * -0.00001149))), TURNAS) * DAS2R; }
inline double faf03(double t) { return std::fmod(335779.526232 + t * (1739527262.8478 + t * (-12.7512 + t * (-0.001037 + t * 0.00000417))), TURNAS) * DAS2R; }
inline double fad03(double t) { return std::fmod(1072260.703692 + t * (1602961601.2090 + t * (-6.3706 + t * (0.006593 + t * -0.00003169))), TURNAS) * DAS2R; }
} }
