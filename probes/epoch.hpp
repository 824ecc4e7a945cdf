// The dates of SAS: days or seconds since 1960-01-01.
#pragma once
namespace {
using namespace cppsas7bdat;
constexpr double DAY = 86400;
DATETIME datetime(double s) {
  // 1400-01-01 to 9999-12-31
  if (!(s >= -204535. * DAY && s < 2936550. * DAY - 1))
    return boost::posix_time::not_a_date_time;
  const double d = std::round(s / DAY);
  s -= d * DAY;
  const double t = std::round(s);
  const double u = std::round((s - t) * 1e6);
  return DATETIME(boost::gregorian::date(1960, 1, 1)) + boost::gregorian::days(std::lround(d)) +
         boost::posix_time::seconds(std::lround(t)) + boost::posix_time::microseconds(std::lround(u));
}
DATE date(double d) {
  DATE x(boost::gregorian::not_a_date_time);
  if (d >= -204535. && d <= 2936549.)
    x = (DATETIME(boost::gregorian::date(1960, 1, 1)) + boost::gregorian::days(std::lround(d))).date();
  return x.is_not_a_date() ? datetime(d).date() : x;
}
} // namespace
