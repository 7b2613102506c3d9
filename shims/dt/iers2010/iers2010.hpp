// stand-in for the (absent) IERS 2010 library: Lagrange interpolation in a
// table and smooth functions of the epoch where the library has tidal series
#pragma once
#include <cmath>
#include <cstdio>
namespace iers2010 {
namespace interp {
// window of order+1 points around the epoch; index < 0: search, else start there
inline int lagint(const double *x, const double *y, int n, double xint, double &yout, int &index, int order = 3) {
  if (n < 1 || !(xint >= x[0]) || !(xint <= x[n - 1])) return 1;
  int i = index < 0 || index >= n ? 0 : index;
  if (x[i] > xint) i = 0;
  while (i + 1 < n && x[i + 1] <= xint) i++;
  index = i;
  int m = order + 1 > n ? n : order + 1, lo = i - (m - 1) / 2;
  if (lo > n - m) lo = n - m;
  if (lo < 0) lo = 0;
  double s = 0;
  for (int a = lo; a < lo + m; a++) {
    double t = y[a];
    for (int b = lo; b < lo + m; b++) if (b != a) t *= (xint - x[b]) / (x[a] - x[b]);
    s += t;
  }
  yout = s;
  return 0;
}
inline int pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod) {
  double a = t * 36525. * 12.57; cx = 3e-4 * std::sin(a); cy = 2e-4 * std::cos(1.3 * a); cdut = 2e-5 * std::sin(1.7 * a); clod = 1e-4 * std::cos(1.1 * a); return 0;
}
inline int pm_gravi(double t, double &cx, double &cy) { double a = t * 36525. * 6.3; cx = 1e-5 * std::cos(a); cy = 1.5e-5 * std::sin(a); return 0; }
} // namespace interp
inline int rg_zont2(double t, double &dut1, double &dlod, double &domega) {
  double a = t * 36525. * .46; dut1 = 1e-3 * std::sin(a); dlod = -4e-4 * std::cos(a); domega = 1e-13 * std::cos(a); return 0;
}
} // namespace iers2010
