// the gravity series and its derivatives, term by term
#pragma once
#include "../sim/sim.hpp"
#include "harmonic_coeffs.hpp"
#include <cmath>
#include <memory>
namespace {
typedef long double L;
// value, gradient and Hessian of a function of the position
struct Jet { L v = 0, g[3]{0, 0, 0}, h[6]{0, 0, 0, 0, 0, 0}; };
const int HI[6] = {0, 0, 0, 1, 1, 2}, HJ[6] = {0, 1, 2, 1, 2, 2};
Jet operator+(const Jet &a, const Jet &b) { Jet r; r.v = a.v + b.v; for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i]; for (int i = 0; i < 6; i++) r.h[i] = a.h[i] + b.h[i]; return r; }
Jet operator*(L s, const Jet &a) { Jet r; r.v = s * a.v; for (int i = 0; i < 3; i++) r.g[i] = s * a.g[i]; for (int i = 0; i < 6; i++) r.h[i] = s * a.h[i]; return r; }
Jet operator-(const Jet &a, const Jet &b) { return a + (-1) * b; }
Jet operator*(const Jet &a, const Jet &b) {
  Jet r; r.v = a.v * b.v; for (int i = 0; i < 3; i++) r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
  for (int k = 0; k < 6; k++) r.h[k] = a.v * b.h[k] + a.h[k] * b.v + a.g[HI[k]] * b.g[HJ[k]] + a.g[HJ[k]] * b.g[HI[k]];
  return r;
}
Jet apply(const Jet &a, L f, L f1, L f2) { Jet r; r.v = f; for (int i = 0; i < 3; i++) r.g[i] = f1 * a.g[i]; for (int k = 0; k < 6; k++) r.h[k] = f1 * a.h[k] + f2 * a.g[HI[k]] * a.g[HJ[k]]; return r; }
struct Model { int deg; std::unique_ptr<dso::HarmonicCoeffs> hc; double gm, re; std::vector<std::vector<double>> C, S; };
struct Result { L acc[3], part[6], sa, sp; };
// the series and its derivatives, term by term
Result expected(const Model &m, int degree, int order, const double *pos) {
  Jet X, Y, Z, one; X.v = pos[0]; X.g[0] = 1; Y.v = pos[1]; Y.g[1] = 1; Z.v = pos[2]; Z.g[2] = 1; one.v = 1;
  Jet r2 = X * X + Y * Y + Z * Z; L r = sqrtl(r2.v);
  Jet ir = apply(r2, 1 / r, -1 / (2 * r * r * r), 3 / (4 * r * r * r * r * r)); // 1/r
  Jet t = Z * ir, q = (L)m.re * ir, c = one, s; // cos^m(lat) cos/sin(m lon)
  Result R{}; Jet sum; L Rm = m.re; (void)Rm;
  Jet qm = q, xr = X * ir, yr = Y * ir;
  for (int k = 0; k <= order; k++) {
    if (k) { Jet c1 = c * xr - s * yr, s1 = s * xr + c * yr; c = c1; s = s1; qm = qm * q; }
    // derivatives of the Legendre polynomials: P_k^(k) = (2k-1)!!
    L ff = 1; for (int i = 1; i <= k; i++) ff *= 2 * i - 1;
    Jet p0, p1 = ff * one, qn = qm;
    for (int n = k; n <= degree; n++) {
      if (n > k) { Jet p2 = (1 / (L)(n - k)) * ((L)(2 * n - 1) * (t * p1) - (L)(n + k - 1) * p0); p0 = p1; p1 = p2; qn = qn * q; }
      Jet term = (L)(m.gm / 1.0L / m.re) * (qn * p1 * ((L)m.C[n][k] * c + (L)(k ? m.S[n][k] : 0) * s));
      sum = sum + term;
      L a = 0, b = 0; for (int i = 0; i < 3; i++) a = std::max(a, fabsl(term.g[i])); for (int i = 0; i < 6; i++) b = std::max(b, fabsl(term.h[i]));
      R.sa += a; R.sp += b;
    }
  }
  for (int i = 0; i < 3; i++) R.acc[i] = sum.g[i];
  for (int i = 0; i < 6; i++) R.part[i] = sum.h[i];
  return R;
}
double nf(int n, int k) { L p = 1; for (int i = n - k + 1; i <= n + k; i++) p *= i; return (double)sqrtl((2 * n + 1) * (k ? 2 : 1) / p); }
} // namespace
