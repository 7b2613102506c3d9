// stand-in for the absent matvec library (only what the headers need)
#pragma once
#include <cmath>
namespace dso {
struct Vector3 {
  double d[3]{0, 0, 0};
  double &operator()(int i) { return d[i]; }
  const double &operator()(int i) const { return d[i]; }
  double &x() { return d[0]; } double &y() { return d[1]; } double &z() { return d[2]; }
  const double &x() const { return d[0]; } const double &y() const { return d[1]; } const double &z() const { return d[2]; }
  double norm_squared() const { return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; }
  double dot_product(const Vector3 &b) const { return d[0] * b.d[0] + d[1] * b.d[1] + d[2] * b.d[2]; }
  Vector3 cross_product(const Vector3 &b) const { return {{d[1] * b.d[2] - d[2] * b.d[1], d[2] * b.d[0] - d[0] * b.d[2], d[0] * b.d[1] - d[1] * b.d[0]}}; }
  Vector3 &operator/=(double s) { for (double &v : d) v /= s; return *this; }
  Vector3 &operator*=(double s) { for (double &v : d) v *= s; return *this; }
  static Vector3 to_vec3(const double *p) { return {{p[0], p[1], p[2]}}; }
  double norm() const { return std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); }
};
inline Vector3 operator+(const Vector3 &a, const Vector3 &b) { return {{a.d[0] + b.d[0], a.d[1] + b.d[1], a.d[2] + b.d[2]}}; }
inline Vector3 operator-(const Vector3 &a, const Vector3 &b) { return {{a.d[0] - b.d[0], a.d[1] - b.d[1], a.d[2] - b.d[2]}}; }
inline Vector3 operator*(double s, const Vector3 &a) { return {{s * a.d[0], s * a.d[1], s * a.d[2]}}; }
inline Vector3 operator*(const Vector3 &a, double s) { return {{s * a.d[0], s * a.d[1], s * a.d[2]}}; }
inline Vector3 operator/(const Vector3 &a, double s) { return {{a.d[0] / s, a.d[1] / s, a.d[2] / s}}; }
struct Mat3x3 {
  double data[9]{0};
  double &operator()(int i, int j) { return data[3 * i + j]; }
  double operator()(int i, int j) const { return data[3 * i + j]; }
  Mat3x3 &transpose_inplace() { for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { double t = data[3 * i + j]; data[3 * i + j] = data[3 * j + i]; data[3 * j + i] = t; } return *this; }
};
inline Vector3 operator*(const Mat3x3 &m, const Vector3 &v) {
  Vector3 r; for (int i = 0; i < 3; i++) r.d[i] = m.data[3 * i] * v.d[0] + m.data[3 * i + 1] * v.d[1] + m.data[3 * i + 2] * v.d[2]; return r;
}
} // namespace dso
