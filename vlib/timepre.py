"""Shared prelude of the time checks: reference formulas over Boost.Date_Time values."""
PRE = r'''
#include <cmath>
#include <cstring>
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/astronomy/time/parser.hpp>
#include <boost/astronomy/time/time_conversions.hpp>
namespace pt = boost::posix_time; namespace bt = boost::astronomy::time;
inline pt::ptime mkt(long long n) { static_assert(sizeof(pt::ptime) == sizeof n, ""); pt::ptime p; std::memcpy((void*)&p, &n, sizeof n); return p; }
inline boost::gregorian::date mkd(unsigned n) { static_assert(sizeof(boost::gregorian::date) == sizeof n, ""); boost::gregorian::date p; std::memcpy((void*)&p, &n, sizeof n); return p; }
inline double ref_jd(pt::ptime t) {
  boost::gregorian::date dt = t.date();
  double y = dt.year(), m = dt.month(), d = dt.day();
  double yp, mp; if (m == 1 || m == 2) { yp = y - 1; mp = m + 12; } else { yp = y; mp = m; }
  double B; if (dt >= boost::gregorian::date(1582, boost::gregorian::Oct, 15)) { double A = std::floor(yp / 100); B = 2 - A + std::floor(A / 4); } else B = 0;
  double C; if (yp < 0) C = std::floor(365.25 * yp - 0.75); else C = std::floor(365.25 * yp);
  return B + C + std::floor(30.6001 * (mp + 1)) + d + 1720994.5;
}
inline double wrap24(double x) { return x - 24.0 * std::floor(x / 24.0); }
inline double ref_gst(pt::ptime t) {
  double T = (bt::julian_date(t) - 2451545.0) / 36525.0;     // julian_date itself is judged by its own obligation
  double t0 = wrap24(6.697374558 + 2400.051336 * T + 0.000025862 * T * T);
  double ut = t.time_of_day().total_microseconds() / 3600000000.0;
  return wrap24(t0 + ut * 1.002737909);
}
inline double ref_lst(double lon, int sign, pt::ptime t) {
  double g = ref_gst(t);
  if (lon == 0) return g;
  return wrap24(sign * (lon / 15.0) + g);
}
'''
D = 86400 * 10 ** 6
LO, HI = 2232400, 5373484


import datetime
_ORD = 1721425      # julian day number minus proleptic Gregorian ordinal


def _special_days():
    out = set()
    ys = list(range(1400, 1411)) + list(range(1500, 2401, 100)) + [1582, 1583, 1600, 1899, 1900, 1901, 1999, 2000, 2001, 2004, 2019, 2020, 2024, 2100, 3000, 5000, 9999]
    for y in ys:
        for m in range(1, 13):
            a = datetime.date(y, m, 1).toordinal()
            b = datetime.date(y, m + 1, 1).toordinal() - 1 if m < 12 else datetime.date(y, 12, 31).toordinal()
            out.update((a, b, a + 14))
    return sorted(_ORD + o for o in out if LO <= _ORD + o <= HI)


SPECIAL = _special_days()


def _near(r, special):
    """a day at or next to what a constant of the code may mean: a day number, a year, a month or day of the month"""
    v = int(r.choice(special))
    if LO <= v <= HI:
        return v
    y = v if 1400 <= v <= 9999 else r.choice((1582, 1600, 1900, 2000, 2019, 2100))
    m = v if 1 <= v <= 12 and r.random() < 0.5 else r.choice((1, 2, 3, 10, 12, r.randrange(1, 13)))
    d = v if 1 <= v <= 31 and r.random() < 0.5 else r.choice((1, 2, 14, 15, 28, 29, 30, 31, r.randrange(1, 29)))
    try:
        return max(LO, min(HI - 1, _ORD + datetime.date(y, m, d).toordinal()))
    except ValueError:
        return _ORD + datetime.date(y, m, 28).toordinal()


def days(r):
    k = r.random()
    if k < 0.35:
        return r.choice(SPECIAL)
    if k < 0.45:
        return r.randrange(2299155, 2299166)      # around 1582 October 15
    if k < 0.6:
        return r.randrange(LO, HI)
    if k < 0.75:
        return r.randrange(2299100, 2299220)
    return r.randrange(2415020, 2488070)


days.mine = _near


def ticks(r):
    return days(r) * D + r.choice((0, 1, D // 2, D - 1, r.randrange(D), r.randrange(D), 1000000 * r.randrange(86400)))


def _neart(r, special):
    v = int(r.choice(special))
    k = r.random()
    if 0 <= v < D and k < 0.4:
        return days(r) * D + v
    if 0 <= v <= 24 and k < 0.7:
        return days(r) * D + min(v * 3600 * 10 ** 6 + r.choice((-1, 0, 1)), D - 1) % D
    return _near(r, special) * D + r.choice((0, 1, D // 2, D - 1, r.randrange(D)))


ticks.mine = _neart


def inline(d, f, n):
    return False if "on_error" in d else None
