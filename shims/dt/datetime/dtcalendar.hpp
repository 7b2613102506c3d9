// stand-in for the part of the (absent) datetime library these sources use:
// dates and times of day as integers, no leap seconds inside datetime itself
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cassert>
#include <cerrno>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <fstream>
#include <iostream>
namespace dso {
constexpr double mjd0_jd = 2400000.5, j2000_jd = 2451545.0, j2000_mjd = 51544.5, sec_per_day = 86400.0, days_in_julian_cent = 36525.0;
template <class Tag, class I> struct IntType {
  typedef I underlying_type;
  I v{0};
  constexpr IntType() {}
  constexpr IntType(I x) : v(x) {}
  constexpr I as_underlying_type() const { return v; }
};
struct YearTag; struct MonthTag; struct DomTag; struct DoyTag;
typedef IntType<YearTag, int> year;
typedef IntType<MonthTag, int> month;
typedef IntType<DomTag, int> day_of_month;
typedef IntType<DoyTag, int> day_of_year;
struct ydoy_date { year __year; day_of_year __doy; };
struct ymd_date { year __year; month __month; day_of_month __dom; };
inline long ymd2mjd(long y, long m, long d) { // proleptic Gregorian
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400;
  long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
inline void mjd2ymd(long mjd, int &Y, int &M, int &D) {
  long z = mjd - 40587 + 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = yoe + era * 400;
  long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; D = doy - (153 * mp + 2) / 5 + 1; M = mp < 10 ? mp + 3 : mp - 9; Y = y + (M <= 2);
}
struct modified_julian_day {
  typedef long underlying_type;
  long v{0};
  constexpr modified_julian_day() {}
  constexpr modified_julian_day(long x) : v(x) {}
  modified_julian_day(year y, day_of_year d) : v(ymd2mjd(y.v, 1, 1) + d.v - 1) {}
  modified_julian_day(year y, month m, day_of_month d) : v(ymd2mjd(y.v, m.v, d.v)) {}
  constexpr long as_underlying_type() const { return v; }
  constexpr double to_julian_day() const { return v + mjd0_jd; }
  modified_julian_day &operator+=(const modified_julian_day &o) { v += o.v; return *this; }
  modified_julian_day &operator-=(const modified_julian_day &o) { v -= o.v; return *this; }
  modified_julian_day &operator+=(long d) { v += d; return *this; }
  modified_julian_day &operator-=(long d) { v -= d; return *this; }
  modified_julian_day &operator++() { ++v; return *this; }
  modified_julian_day operator++(int) { auto c = *this; ++v; return c; }
  modified_julian_day &operator--() { --v; return *this; }
  constexpr modified_julian_day operator+(const modified_julian_day &o) const { return modified_julian_day(v + o.v); }
  constexpr modified_julian_day operator-(const modified_julian_day &o) const { return modified_julian_day(v - o.v); }
  constexpr bool operator==(const modified_julian_day &o) const { return v == o.v; }
  constexpr bool operator!=(const modified_julian_day &o) const { return v != o.v; }
  constexpr bool operator<(const modified_julian_day &o) const { return v < o.v; }
  constexpr bool operator<=(const modified_julian_day &o) const { return v <= o.v; }
  constexpr bool operator>(const modified_julian_day &o) const { return v > o.v; }
  constexpr bool operator>=(const modified_julian_day &o) const { return v >= o.v; }
  ymd_date to_ymd() const { ymd_date r; mjd2ymd(v, r.__year.v, r.__month.v, r.__dom.v); return r; }
  ydoy_date to_ydoy() const { int y, m, d; mjd2ymd(v, y, m, d); ydoy_date r; r.__year = year(y); r.__doy = day_of_year((int)(v - ymd2mjd(y, 1, 1) + 1)); return r; }
  static modified_julian_day min() { return modified_julian_day(-2000000); }
  static modified_julian_day max() { return modified_julian_day(5000000); }
};
inline modified_julian_day ydoy2mjd(year y, day_of_year d) { return modified_julian_day(y, d); }
template <long F> struct SecT {
  typedef long underlying_type;
  static constexpr bool is_of_sec_type = true;
  static constexpr long max_in_day = 86400L * F;
  long v{0};
  constexpr SecT() {}
  constexpr explicit SecT(long x) : v(x) {}
  template <class D = long> static constexpr D sec_factor() { return (D)F; }
  constexpr long as_underlying_type() const { return v; }
  constexpr double to_fractional_seconds() const { return (double)v / F; }
  constexpr double fractional_days() const { return (double)v / max_in_day; }
  SecT &operator+=(const SecT &o) { v += o.v; return *this; }
  SecT &operator-=(const SecT &o) { v -= o.v; return *this; }
  constexpr SecT operator+(const SecT &o) const { return SecT(v + o.v); }
  constexpr SecT operator-(const SecT &o) const { return SecT(v - o.v); }
  constexpr bool operator==(const SecT &o) const { return v == o.v; }
  constexpr bool operator!=(const SecT &o) const { return v != o.v; }
  constexpr bool operator<(const SecT &o) const { return v < o.v; }
  constexpr bool operator<=(const SecT &o) const { return v <= o.v; }
  constexpr bool operator>(const SecT &o) const { return v > o.v; }
  constexpr bool operator>=(const SecT &o) const { return v >= o.v; }
};
typedef SecT<1> seconds;
typedef SecT<1000> milliseconds;
typedef SecT<1000000> microseconds;
typedef SecT<1000000000> nanoseconds;
struct hours { int v; explicit hours(int x) : v(x) {} };
struct minutes { int v; explicit minutes(int x) : v(x) {} };
template <class A, class B> A cast_to(B b) { return A((long)((__int128)b.v * A::template sec_factor<long>() / B::template sec_factor<long>())); }
template <class S> class datetime {
  modified_julian_day m_mjd; S m_sec;
  void norm() { long d = S::max_in_day; long q = m_sec.v / d, r = m_sec.v % d; if (r < 0) { r += d; q--; } m_mjd.v += q; m_sec.v = r; }
public:
  typedef S sec_type;
  constexpr datetime() {}
  datetime(modified_julian_day m, S s) : m_mjd(m), m_sec(s) { norm(); }
  explicit datetime(modified_julian_day m) : m_mjd(m) {}
  datetime(year y, month m, day_of_month d, S s = S(0)) : m_mjd(check(y, m, d)), m_sec(s) { norm(); }
  datetime(year y, day_of_year d, S s = S(0)) : m_mjd(y, d), m_sec(s) { norm(); }
  datetime(year y, month m, day_of_month d, hours h, minutes mi, S s) : m_mjd(check(y, m, d)), m_sec(s) { m_sec.v += (h.v * 3600L + mi.v * 60L) * S::template sec_factor<long>(); norm(); }
  static modified_julian_day check(year y, month m, day_of_month d) { if (m.v < 1 || m.v > 12 || d.v < 1 || d.v > 31) throw std::out_of_range("invalid date"); return modified_julian_day(y, m, d); }
  modified_julian_day mjd() const { return m_mjd; }
  S sec() const { return m_sec; }
  template <class T> void add_seconds(T s) { m_sec.v += dso::cast_to<S>(s).v; norm(); }
  template <class T> void remove_seconds(T s) { m_sec.v -= dso::cast_to<S>(s).v; norm(); }
  S delta_sec(const datetime &o) const { return S((m_mjd.v - o.m_mjd.v) * S::max_in_day + (m_sec.v - o.m_sec.v)); }
  datetime delta_date(const datetime &o) const { datetime r; r.m_mjd = m_mjd - o.m_mjd; r.m_sec = S(m_sec.v - o.m_sec.v); r.norm(); return r; }
  double as_mjd() const { return m_mjd.v + m_sec.fractional_days(); }
  double as_jd() const { return as_mjd() + mjd0_jd; }
  double jcenturies_sinceJ2000() const { return (m_mjd.v - j2000_mjd + m_sec.fractional_days()) / days_in_julian_cent; }
  double as_fractional_days() const { return as_mjd(); }
  double fractional_days() const { return m_sec.fractional_days(); }
  ymd_date as_ymd() const { return m_mjd.to_ymd(); }
  ydoy_date as_ydoy() const { return m_mjd.to_ydoy(); }
  template <class T> datetime<T> cast_to() const { return datetime<T>(m_mjd, dso::cast_to<T>(m_sec)); }
  datetime operator+(const S &s) const { auto c = *this; c.add_seconds(s); return c; }
  bool operator==(const datetime &o) const { return m_mjd.v == o.m_mjd.v && m_sec.v == o.m_sec.v; }
  bool operator!=(const datetime &o) const { return !(*this == o); }
  bool operator<(const datetime &o) const { return m_mjd.v < o.m_mjd.v || (m_mjd.v == o.m_mjd.v && m_sec.v < o.m_sec.v); }
  bool operator>(const datetime &o) const { return o < *this; }
  bool operator<=(const datetime &o) const { return !(o < *this); }
  bool operator>=(const datetime &o) const { return !(*this < o); }
  static datetime min() { return datetime(modified_julian_day::min(), S(0)); }
  static datetime max() { return datetime(modified_julian_day::max(), S(0)); }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType D, class S> double date_diff(const datetime<S> &a, const datetime<S> &b) {
  double days = (double)(a.mjd().v - b.mjd().v), sec = (double)(a.sec().v - b.sec().v) / S::template sec_factor<long>();
  return D == DateTimeDifferenceType::FractionalDays ? days + sec / 86400. : days * 86400. + sec;
}
// TAI - UTC
inline int dat(long mjd) {
  static const long t[][2] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16}, {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23}, {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int r = 10;
  for (auto &e : t) if (mjd >= e[0]) r = (int)e[1];
  return r;
}
// the same, and the leap second at the end of the day
inline int dat(modified_julian_day mjd, int &extra) { const int d = dat(mjd.v); extra = dat(mjd.v + 1) - d; return d; }
template <class S> double tai2utc(const datetime<S> &tai, modified_julian_day &utc) {
  datetime<S> t = tai; t.remove_seconds(seconds(dat(tai.mjd().v)));
  if (dat(t.mjd().v) != dat(tai.mjd().v)) { t = tai; t.remove_seconds(seconds(dat(t.mjd().v - 1))); }
  utc = t.mjd(); return t.sec().fractional_days();
}
inline double utc2tai(modified_julian_day mjd, double fday, modified_julian_day &tai) {
  double f = fday + dat(mjd.v) / 86400.; tai = mjd;
  while (f >= 1.) { f -= 1.; tai.v++; }
  return f;
}
} // namespace dso
