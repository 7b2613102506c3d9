#pragma once
#include "dtcalendar.hpp"
namespace dso {
template <class S> datetime<S> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  char *end; const char *start = str; int v[5];
  errno = 0;
  for (int i = 0; i < 5; i++) {
    v[i] = (int)std::labs(std::strtol(start, &end, 10));
    if (errno || end == start) { errno = 0; throw std::invalid_argument("date"); }
    start = *end ? end + 1 : end;
  }
  double s = std::strtod(start, &end);
  if (errno || end == start || s < 0 || s >= 61) { errno = 0; throw std::invalid_argument("date"); }
  if (stop) *stop = end;
  return datetime<S>(year(v[0]), month(v[1]), day_of_month(v[2]), hours(v[3]), minutes(v[4]), S((long)std::llround(s * S::template sec_factor<double>())));
}
// UTC date and time as MJD and fraction of day
inline double utc_strptime_ymd_hms(const char *str, modified_julian_day &mjd, char **stop = nullptr) {
  auto t = strptime_ymd_hms<nanoseconds>(str, stop);
  mjd = t.mjd();
  return t.sec().v / 86400e9;
}
} // namespace dso
