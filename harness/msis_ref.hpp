// An independent evaluation of NRLMSISE-00, written down from the published model (Picone et al. 2002; the formulation of the
// distributed Fortran and C codes), with this library's constants for gravity and the gas constant. Switches are numbered as
// published (1..23).
#pragma once
#include "msis_tables.hpp"
#include <algorithm>
#include <cmath>
namespace msis {
struct In { int doy; double sec, alt, lat, lon, lst, f107A, f107, ap, a[7]; double sw[25], swc[25]; bool meters; };
struct Res { double d[9], t[2]; };
static const double RG = 1.380648813 * 6.0221407818 * 100., DR = 1.72142e-2, HR = .2618, SR = 7.2722e-5, DEG = 3.14159265358979323846 / 180.;
class Model {
  In in; double L[4][9]; double gsurf, re, dfa, apdf = 0, apt = 0; double tn1[5], tg1[2], tn2[4], tg2[2], tn3[5], tg3[2], dm28 = 0;
  double zn1[5] = {pdl[1][15], 110, 100, 90, 72.5};
  const double zn2[4] = {72.5, 55, 45, 32.5}, zn3[5] = {32.5, 20, 15, 10, 0};
  double sw(int i) const { return in.sw[i - 1]; }
  double swc(int i) const { return in.swc[i - 1]; }
  double zeta(double z, double zl) const { return (z - zl) * (re + zl) / (re + z); }
  double grav(double z) const { double q = 1 + z / re; return gsurf / (q * q); }
  // natural cubic pieces with given end slopes: nodes x, values y, second derivatives m
  static void moments(const double *x, const double *y, int n, double y0, double y1, double *m) {
    double lo[8], di[8], up[8], rh[8];
    for (int i = 0; i < n; i++) {
      if (i == 0) { double h = x[1] - x[0]; lo[0] = 0; di[0] = h / 3; up[0] = h / 6; rh[0] = (y[1] - y[0]) / h - y0; }
      else if (i == n - 1) { double h = x[i] - x[i - 1]; lo[i] = h / 6; di[i] = h / 3; up[i] = 0; rh[i] = y1 - (y[i] - y[i - 1]) / h; }
      else { double h = x[i] - x[i - 1], k = x[i + 1] - x[i]; lo[i] = h / 6; di[i] = (h + k) / 3; up[i] = k / 6; rh[i] = (y[i + 1] - y[i]) / k - (y[i] - y[i - 1]) / h; }
    }
    for (int i = 1; i < n; i++) { double w = lo[i] / di[i - 1]; di[i] -= w * up[i - 1]; rh[i] -= w * rh[i - 1]; }
    m[n - 1] = rh[n - 1] / di[n - 1];
    for (int i = n - 2; i >= 0; i--) m[i] = (rh[i] - up[i] * m[i + 1]) / di[i];
  }
  static double piece(const double *x, const double *y, const double *m, int i, double q) { double h = x[i + 1] - x[i], a = (x[i + 1] - q) / h, b = (q - x[i]) / h; return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6; }
  static double value(const double *x, const double *y, const double *m, int n, double q) { int i = 0; while (i < n - 2 && q >= x[i + 1]) i++; return piece(x, y, m, i, q); }
  static double integral(const double *x, const double *y, const double *m, int n, double q) { // Simpson's rule is exact for cubics
    double s = 0;
    for (int i = 0; i < n - 1; i++) { if (i && !(q > x[i])) break; double e = i < n - 2 ? std::min(q, x[i + 1]) : q; s += (e - x[i]) / 6 * (piece(x, y, m, i, x[i]) + 4 * piece(x, y, m, i, (x[i] + e) / 2) + piece(x, y, m, i, e)); }
    return s;
  }
  static double g0(double a, const double *p) { double k = std::fabs(p[24]) < 1e-4 && p[24] < 1e-4 ? 1e-4 : std::fabs(p[24]); return a - 4 + (p[25] - 1) * (a - 4 + (std::exp(-k * (a - 4)) - 1) / k); }
  static double sg(double ex, const double *p, const double *a) {
    double num = g0(a[1], p), e = ex; for (int i = 2; i <= 4; i++, e *= ex) num += g0(a[i], p) * e;
    num += (g0(a[5], p) * std::pow(ex, 4.) + g0(a[6], p) * std::pow(ex, 12.)) * (1 - std::pow(ex, 8.)) / (1 - ex);
    return num / (1 + (1 - std::pow(ex, 19.)) / (1 - ex) * std::sqrt(ex));
  }
  void legendre() {
    double c = std::sin(in.lat * DEG), s = std::cos(in.lat * DEG);
    for (auto &r : L) for (double &v : r) v = 0;
    for (int m = 0; m < 4; m++) {
      double pmm = 1; for (int k = 1; k <= m; k++) pmm *= (2 * k - 1) * s;
      L[m][m] = pmm; L[m][m + 1] = c * (2 * m + 1) * pmm;
      for (int l = m + 2; l < 9; l++) L[m][l] = ((2 * l - 1) * c * L[m][l - 1] - (l + m - 1) * L[m][l - 2]) / (l - m);
    }
  }
  double globe(const double *p) {
    double t[15] = {0}, doy = in.doy, c32 = std::cos(DR * (doy - p[31])), c18 = std::cos(2 * DR * (doy - p[17])), c14 = std::cos(DR * (doy - p[13])), c39 = std::cos(2 * DR * (doy - p[38]));
    double df = in.f107 - in.f107A; dfa = in.f107A - 150; double h = HR * in.lst, fl = p[19] * df + p[20] * df * df, w5 = swc(5) * c14;
    t[1] = p[19] * df * (1 + p[59] * dfa) + p[20] * df * df + p[21] * dfa + p[29] * dfa * dfa;
    double f1 = 1 + (p[47] * dfa + fl) * swc(1), f2 = 1 + (p[49] * dfa + fl) * swc(1);
    t[2] = p[1] * L[0][2] + p[2] * L[0][4] + p[22] * L[0][6] + p[14] * L[0][2] * dfa * swc(1) + p[26] * L[0][1];
    t[3] = p[18] * c32; t[4] = (p[15] + p[16] * L[0][2]) * c18; t[5] = f1 * (p[9] * L[0][1] + p[10] * L[0][3]) * c14; t[6] = p[37] * L[0][1] * c39;
    t[7] = f2 * ((p[3] * L[1][1] + p[4] * L[1][3] + p[27] * L[1][5] + p[11] * L[1][2] * w5) * std::cos(h) + (p[6] * L[1][1] + p[7] * L[1][3] + p[28] * L[1][5] + p[12] * L[1][2] * w5) * std::sin(h));
    t[8] = f2 * ((p[5] * L[2][2] + p[41] * L[2][4] + (p[23] * L[2][3] + p[35] * L[2][5]) * w5) * std::cos(2 * h) + (p[8] * L[2][2] + p[42] * L[2][4] + (p[33] * L[2][3] + p[36] * L[2][5]) * w5) * std::sin(2 * h));
    t[14] = f2 * ((p[39] * L[3][3] + (p[93] * L[3][4] + p[46] * L[3][6]) * w5) * std::sin(3 * h) + (p[40] * L[3][3] + (p[94] * L[3][4] + p[48] * L[3][6]) * w5) * std::cos(3 * h));
    bool arr = sw(9) < 0;
    if (arr) {
      if (p[51] != 0) {
        double e = std::min(std::exp(-10800 * std::fabs(p[51]) / (1 + p[138] * (45 - std::fabs(in.lat)))), .99999); apt = sg(e, p, in.a);
        t[9] = apt * (p[50] + p[96] * L[0][2] + p[54] * L[0][4] + (p[125] * L[0][1] + p[126] * L[0][3] + p[127] * L[0][5]) * w5 + (p[128] * L[1][1] + p[129] * L[1][3] + p[130] * L[1][5]) * swc(7) * std::cos(HR * (in.lst - p[131])));
      }
    } else {
      double ad = in.ap - 4, k = p[43] < 0 ? 1e-5 : p[43]; apdf = ad + (p[44] - 1) * (ad + (std::exp(-k * ad) - 1) / k);
      if (sw(9) != 0) t[9] = apdf * (p[32] + p[45] * L[0][2] + p[34] * L[0][4] + (p[100] * L[0][1] + p[101] * L[0][3] + p[102] * L[0][5]) * w5 + (p[121] * L[1][1] + p[122] * L[1][3] + p[123] * L[1][5]) * swc(7) * std::cos(HR * (in.lst - p[124])));
    }
    if (sw(10) != 0 && in.lon > -1000) {
      double g = in.lon * DEG;
      t[11] = (1 + p[80] * dfa * swc(1)) * ((p[64] * L[1][2] + p[65] * L[1][4] + p[66] * L[1][6] + p[103] * L[1][1] + p[104] * L[1][3] + p[105] * L[1][5] + w5 * (p[109] * L[1][1] + p[110] * L[1][3] + p[111] * L[1][5])) * std::cos(g)
            + (p[90] * L[1][2] + p[91] * L[1][4] + p[92] * L[1][6] + p[106] * L[1][1] + p[107] * L[1][3] + p[108] * L[1][5] + w5 * (p[112] * L[1][1] + p[113] * L[1][3] + p[114] * L[1][5])) * std::sin(g));
      t[12] = (1 + p[95] * L[0][1]) * (1 + p[81] * dfa * swc(1)) * (1 + p[119] * L[0][1] * w5) * (p[68] * L[0][1] + p[69] * L[0][3] + p[70] * L[0][5]) * std::cos(SR * (in.sec - p[71]))
            + swc(11) * (p[76] * L[2][3] + p[77] * L[2][5] + p[78] * L[2][7]) * std::cos(SR * (in.sec - p[79]) + 2 * g) * (1 + p[137] * dfa * swc(1));
      if (arr) { if (p[51] != 0) t[13] = apt * (swc(11) * (1 + p[132] * L[0][1]) * (p[52] * L[1][2] + p[98] * L[1][4] + p[67] * L[1][6]) * std::cos(g - p[97] * DEG) + swc(11) * (p[133] * L[1][1] + p[134] * L[1][3] + p[135] * L[1][5]) * w5 * std::cos(g - p[136] * DEG) + swc(12) * (p[55] * L[0][1] + p[56] * L[0][3] + p[57] * L[0][5]) * std::cos(SR * (in.sec - p[58]))); }
      else t[13] = apdf * (swc(11) * (1 + p[120] * L[0][1]) * (p[60] * L[1][2] + p[61] * L[1][4] + p[62] * L[1][6]) * std::cos(g - p[63] * DEG) + swc(11) * (p[115] * L[1][1] + p[116] * L[1][3] + p[117] * L[1][5]) * w5 * std::cos(g - p[118] * DEG) + swc(12) * (p[83] * L[0][1] + p[84] * L[0][3] + p[85] * L[0][5]) * std::cos(SR * (in.sec - p[75])));
    }
    double r = p[30]; for (int i = 1; i <= 14; i++) r += std::fabs(sw(i)) * t[i];
    return r;
  }
  double globl(const double *p) { // the shorter form, for the lower atmosphere
    double t[15] = {0}, doy = in.doy, c32 = std::cos(DR * (doy - p[31])), c18 = std::cos(2 * DR * (doy - p[17])), c14 = std::cos(DR * (doy - p[13])), c39 = std::cos(2 * DR * (doy - p[38])), h = HR * in.lst, w5 = swc(5) * c14, g = in.lon * DEG;
    t[1] = p[21] * dfa;
    t[2] = p[1] * L[0][2] + p[2] * L[0][4] + p[22] * L[0][6] + p[26] * L[0][1] + p[14] * L[0][3] + p[59] * L[0][5];
    t[3] = (p[18] + p[47] * L[0][2] + p[29] * L[0][4]) * c32; t[4] = (p[15] + p[16] * L[0][2] + p[30] * L[0][4]) * c18; t[5] = (p[9] * L[0][1] + p[10] * L[0][3] + p[20] * L[0][5]) * c14; t[6] = p[37] * L[0][1] * c39;
    t[7] = (p[3] * L[1][1] + p[4] * L[1][3] + p[11] * L[1][2] * w5) * std::cos(h) + (p[6] * L[1][1] + p[7] * L[1][3] + p[12] * L[1][2] * w5) * std::sin(h);
    t[8] = (p[5] * L[2][2] + p[41] * L[2][4] + (p[23] * L[2][3] + p[35] * L[2][5]) * w5) * std::cos(2 * h) + (p[8] * L[2][2] + p[42] * L[2][4] + (p[33] * L[2][3] + p[36] * L[2][5]) * w5) * std::sin(2 * h);
    t[14] = p[39] * L[3][3] * std::sin(3 * h) + p[40] * L[3][3] * std::cos(3 * h);
    if (sw(9) > 0) t[9] = apdf * (p[32] + p[45] * L[0][2] * swc(2)); else if (sw(9) < 0) t[9] = apt * (p[50] + p[96] * L[0][2] * swc(2));
    if (sw(10) != 0 && sw(11) != 0 && in.lon > -1000)
      t[11] = (1 + L[0][1] * (p[80] * swc(5) * std::cos(DR * (doy - p[81])) + p[85] * swc(6) * std::cos(2 * DR * (doy - p[86]))) + p[83] * swc(3) * std::cos(DR * (doy - p[84])) + p[87] * swc(4) * std::cos(2 * DR * (doy - p[88])))
            * ((p[64] * L[1][2] + p[65] * L[1][4] + p[66] * L[1][6] + p[74] * L[1][1] + p[75] * L[1][3] + p[76] * L[1][5]) * std::cos(g) + (p[90] * L[1][2] + p[91] * L[1][4] + p[92] * L[1][6] + p[77] * L[1][1] + p[78] * L[1][3] + p[79] * L[1][5]) * std::sin(g));
    double r = 0; for (int i = 1; i <= 14; i++) r += std::fabs(sw(i)) * t[i];
    return r;
  }
  // one spline region of temperatures: temperature at z, and the density factor from its top to z for mass xm
  void region(const double *zn, const double *tn, const double *tg, int n, double z, double xm, double xa, double &tz, double &f, bool upper) const {
    double x[6], y[6], m[6], zd = zeta(zn[n - 1], zn[0]);
    for (int k = 0; k < n; k++) { x[k] = zeta(zn[k], zn[0]) / zd; y[k] = 1 / tn[k]; }
    double q = (re + zn[n - 1]) / (re + zn[0]);
    moments(x, y, n, -tg[0] / (tn[0] * tn[0]) * zd, -tg[1] / (tn[n - 1] * tn[n - 1]) * zd * q * q, m);
    double u = zeta(z, zn[0]) / zd; tz = 1 / value(x, y, m, n, u);
    double e = xm * grav(zn[0]) * zd / RG * integral(x, y, m, n, u);
    if (e > 50 || (upper && tz <= 0)) e = 50;
    f = std::pow(tn[0] / tz, 1 + xa) * std::exp(-e);
  }
  double densm(double alt, double d0, double xm, double &tz) const {
    double f, z = std::max(alt, zn2[3]); region(zn2, tn2, tg2, 4, z, xm, 0, tz, f, false); double d = d0 * f;
    if (alt <= zn3[0]) { region(zn3, tn3, tg3, 5, alt, xm, 0, tz, f, false); d *= f; }
    return d;
  }
  double densu(double alt, double dlb, double tinf, double tlb, double xm, double xa, double &tz, double s) { // zlb = ptm[5]
    double zlb = ptm[5], za = zn1[0], z = std::max(alt, za), zg = zeta(z, zlb), tt = tinf - (tinf - tlb) * std::exp(-s * zg); tz = tt;
    double f = 1;
    if (alt < za) { double q = (re + zlb) / (re + za); tg1[0] = (tinf - tt) * s * q * q; tn1[0] = tt; region(zn1, tn1, tg1, 5, std::max(alt, zn1[4]), xm, xa, tz, f, true); }
    if (xm == 0) return tz;
    double gam = xm * grav(zlb) / (s * RG * tinf), e = std::exp(-s * gam * zg); if (e > 50 || tt <= 0) e = 50;
    return dlb * std::pow(tlb / tt, 1 + xa + gam) * e * f;
  }
  double dnet(double dd, double dm, double zhm, double xmm, double xm) {
    double a = zhm / (xmm - xm); if (!(dm > 0 && dd > 0)) { outside = true; return 0; }
    double y = a * std::log(dm / dd); if (y < -10) return dd; if (y > 10) return dm; return dd * std::pow(1 + std::exp(y), 1 / a);
  }
  static double ccor(double z, double r, double h, double zh) { double e = (z - zh) / h; return e > 70 ? 1. : e < -70 ? std::exp(r) : std::exp(r / (1 + std::exp(e))); }
  static double ccor2(double z, double r, double h, double zh, double h2) { double e = (z - zh) / h, e2 = (z - zh) / h2; if (e > 70 || e2 > 70) return 1; if (e < -70 && e2 < -70) return std::exp(r); return std::exp(r / (1 + .5 * (std::exp(e) + std::exp(e2)))); }
  Res upper(double z, int which) { // which: 0 no gas, 1 N2 only, 2 all
    Res o; for (double &v : o.d) v = 0;
    static const double al[9] = {-.38, 0, 0, 0, .17, 0, -.38, 0, 0}, altl[8] = {200, 300, 160, 250, 240, 450, 320, 450};
    double tinf = ptm[0] * pt[0]; if (z > zn1[0]) tinf *= 1 + sw(16) * globe(pt);
    double g = ptm[3] * ps[0]; if (z > zn1[4]) g *= 1 + sw(19) * globe(ps);
    double tlb = ptm[1] * (1 + sw(17) * globe(pd[3])) * pd[3][0], s = g / (tinf - tlb), T4 = ptm[4] * ptl[3][0];
    if (z < 300) {
      tn1[1] = ptm[6] * ptl[0][0] / (1 - sw(18) * globl(ptl[0])); tn1[2] = ptm[2] * ptl[1][0] / (1 - sw(18) * globl(ptl[1])); tn1[3] = ptm[7] * ptl[2][0] / (1 - sw(18) * globl(ptl[2]));
      tn1[4] = T4 / (1 - sw(18) * sw(20) * globl(ptl[3])); tg1[1] = ptm[8] * pma[8][0] * (1 + sw(18) * sw(20) * globl(pma[8])) * tn1[4] * tn1[4] / (T4 * T4);
    } else { tn1[1] = ptm[6] * ptl[0][0]; tn1[2] = ptm[2] * ptl[1][0]; tn1[3] = ptm[7] * ptl[2][0]; tn1[4] = T4; tg1[1] = ptm[8] * pma[8][0]; }
    double zhf = pdl[1][24] * (1 + sw(5) * pdl[0][24] * std::sin(in.lat * DEG) * std::cos(DR * (in.doy - pt[13]))), xmm = pdm[2][4], tz, zhm = pdm[2][3] * pdl[1][5];
    bool mixed = sw(15) != 0;
    auto end = [&]() { densu(z, 1, tinf, tlb, 0, 0, o.t[1], s); o.t[0] = tinf; return o; };
    if (which == 0) return end();
    auto D = [&](double h, double d, double m, double a) { return densu(h, d, tinf, tlb, m, a, tz, s); };
    double d28 = pdm[2][0] * std::exp(sw(21) * globe(pd[2])) * pd[2][0], b28 = D(pdm[2][2] * zhf, d28, 28 - xmm, al[2] - 1);
    o.d[2] = D(z, d28, 28, al[2]); dm28 = 0;
    if (mixed && z <= altl[2]) { dm28 = D(z, b28, xmm, al[2]); o.d[2] = dnet(o.d[2], dm28, zhm, xmm, 28); }
    if (which == 1) return end();
    // the other gases: density at the base, diffusive profile, mixed profile, net
    auto gas = [&](int ip, int id, double m, double a, double top, double &b) { double db = pdm[ip][0] * std::exp(sw(21) * globe(pd[id])) * pd[id][0], d = D(z, db, m, a); b = 0; if (mixed && z <= top) { b = D(pdm[ip][2], db, m - xmm, a - 1); d = dnet(d, D(z, b, xmm, 0), zhm, xmm, m); } return d; };
    double b;
    o.d[0] = gas(0, 0, 4, al[0], altl[0], b); if (b > 0) o.d[0] *= ccor(z, std::log(b28 * pdm[0][1] / b), pdm[0][5] * pdl[1][1], pdm[0][4] * pdl[1][0]);
    double fx = 1 + sw(1) * pdl[0][23] * (in.f107A - 150);
    o.d[1] = gas(1, 1, 16, al[1], altl[1], b); if (b > 0) o.d[1] *= ccor2(z, pdm[1][1] * pdl[1][16] * fx, pdm[1][5] * pdl[1][3], pdm[1][4] * pdl[1][2], pdm[1][5] * pdl[1][4]) * ccor(z, pdm[1][3] * pdl[1][14], pdm[1][7] * pdl[1][13], pdm[1][6] * pdl[1][12]);
    o.d[3] = gas(3, 4, 32, al[3], altl[3], b); if (b > 0) o.d[3] *= ccor(z, std::log(b28 * pdm[3][1] / b), pdm[3][5] * pdl[1][7], pdm[3][4] * pdl[1][6]);
    if (mixed) o.d[3] *= ccor2(z, pdm[3][3] * pdl[1][23] * fx, pdm[3][7] * pdl[1][22], pdm[3][6] * pdl[1][21], pdm[3][7] * pdl[0][22]);
    o.d[4] = gas(4, 5, 40, al[4], altl[4], b); if (b > 0) o.d[4] *= ccor(z, std::log(b28 * pdm[4][1] / b), pdm[4][5] * pdl[1][9], pdm[4][4] * pdl[1][8]);
    o.d[6] = gas(5, 6, 1, al[6], altl[6], b); if (b > 0) o.d[6] *= ccor(z, std::log(b28 * pdm[5][1] * std::fabs(pdl[1][17]) / b), pdm[5][5] * pdl[1][11], pdm[5][4] * pdl[1][10]) * ccor(z, pdm[5][3] * pdl[1][20], pdm[5][7] * pdl[1][19], pdm[5][6] * pdl[1][18]);
    o.d[7] = gas(6, 7, 14, al[7], altl[7], b); if (b > 0) o.d[7] *= ccor(z, std::log(b28 * pdm[6][1] * std::fabs(pdl[0][2]) / b), pdm[6][5] * pdl[0][1], pdm[6][4] * pdl[0][0]) * ccor(z, pdm[6][3] * pdl[0][5], pdm[6][7] * pdl[0][4], pdm[6][6] * pdl[0][3]);
    double th = pdm[7][9] * pdl[0][6], dh = densu(z, pdm[7][0] * std::exp(sw(21) * globe(pd[8])) * pd[8][0], th, th, 16, al[8], tz, s), zs = pdm[7][5], zm = pdm[7][4], sc = RG * th / (grav(zm) * 16);
    o.d[8] = dh * std::exp(-zs / sc * (std::exp(-(z - zm) / zs) - 1));
    return end();
  }
public:
  bool outside = false; // the last evaluation left the model's domain (temperatures or densities that are not positive)
  Res eval(const In &x, int mass, bool drag) { // number densities in cm^-3 and g/cm^3 (or SI), all gases
    in = x; outside = false; legendre();
    double lat = sw(2) == 0 ? 45 : in.lat, c2 = std::cos(2 * lat * DEG); gsurf = 980.665 * (1 - .0026373 * c2); re = 2 * gsurf / (3.085462e-6 + 2.27e-9 * c2) * 1e-5;
    Res o = upper(std::max(in.alt, zn2[0]), mass == 0 ? 0 : mass == 28 || in.alt < 62.5 ? 1 : 2);
    if (in.alt < zn2[0]) {
      Res u = o; double q1 = pma[2][0] * pavgm[2], q2 = pma[6][0] * pavgm[6], w = sw(20), v = sw(22);
      tg2[0] = tg1[1]; tn2[0] = tn1[4]; tn2[1] = pma[0][0] * pavgm[0] / (1 - w * globl(pma[0])); tn2[2] = pma[1][0] * pavgm[1] / (1 - w * globl(pma[1])); tn2[3] = q1 / (1 - w * v * globl(pma[2]));
      tg2[1] = pavgm[8] * pma[9][0] * (1 + w * v * globl(pma[9])) * tn2[3] * tn2[3] / (q1 * q1);
      tn3[0] = tn2[3]; tg3[0] = tg2[1]; for (int k = 0; k < 4; k++) tn3[k + 1] = pma[k + 3][0] * pavgm[k + 3] / (1 - v * globl(pma[k + 3]));
      tg3[1] = pma[7][0] * pavgm[7] * (1 + v * globl(pma[7])) * tn3[4] * tn3[4] / (q2 * q2);
      double c = in.alt > 62.5 ? 1 - (zn2[0] - in.alt) / (zn2[0] - 62.5) : 0;
      for (double &d : o.d) d = 0;
      double n2 = densm(in.alt, dm28, pdm[2][4], o.t[1]) * (1 + (dm28 > 0 ? u.d[2] / dm28 - 1 : 0) * c);
      o.d[2] = n2; o.d[0] = n2 * pdm[0][1] * (1 + (u.d[0] / (u.d[2] * pdm[0][1]) - 1) * c); o.d[3] = n2 * pdm[3][1] * (1 + (u.d[3] / (u.d[2] * pdm[3][1]) - 1) * c); o.d[4] = n2 * pdm[4][1] * (1 + (u.d[4] / (u.d[2] * pdm[4][1]) - 1) * c);
    }
    o.d[5] = 1.66e-24 * (4 * o.d[0] + 16 * o.d[1] + 28 * o.d[2] + 32 * o.d[3] + 40 * o.d[4] + o.d[6] + 14 * o.d[7] + (drag ? 16 * o.d[8] : 0));
    if (in.meters) { for (int i = 0; i < 9; i++) if (i != 5) o.d[i] *= 1e6; o.d[5] *= 1e3; }
    return o;
  }
};
} // namespace msis
