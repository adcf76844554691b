/* Stand-in for the ggdatetime headers, which are not installed in this
 * sandbox. It implements just the part of that interface the library uses,
 * with the documented meaning. */
#ifndef VERIF_SHIM_DATETIME_HPP
#define VERIF_SHIM_DATETIME_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>

namespace dso {

constexpr double SEC_PER_DAY = 86400e0;
constexpr double DAYS_IN_JULIAN_CENT = 36525e0;
constexpr double DAYS_IN_JULIAN_YEAR = 365.25e0;
constexpr double MJD0_JD = 2400000.5e0;

enum class YMDFormat { YYYYMMDD, YYYYDDD };
enum class HMSFormat { HHMMSS, HHMMSSF };
enum class DateTimeDifferenceType { FractionalDays, FractionalYears, FractionalSeconds };

struct FractionalDays {
  double v;
  constexpr double days() const noexcept { return v; }
};
struct FractionalYears {
  double v;
  constexpr double years() const noexcept { return v; }
};
struct FractionalSeconds {
  double v;
  constexpr explicit FractionalSeconds(double s = 0e0) noexcept : v(s) {}
  constexpr double seconds() const noexcept { return v; }
};
namespace shim {
template <DateTimeDifferenceType D> constexpr auto make_diff(double days, double secs) noexcept {
  if constexpr (D == DateTimeDifferenceType::FractionalDays)
    return FractionalDays{days + secs / SEC_PER_DAY};
  else if constexpr (D == DateTimeDifferenceType::FractionalYears)
    return FractionalYears{(days + secs / SEC_PER_DAY) / DAYS_IN_JULIAN_YEAR};
  else
    return FractionalSeconds{days * SEC_PER_DAY + secs};
}
template <class T> class Int {
protected:
  T m{0};

public:
  using underlying_type = T;
  constexpr Int() noexcept = default;
  constexpr explicit Int(T i) noexcept : m(i) {}
  constexpr T as_underlying_type() const noexcept { return m; }
};
} /* namespace shim */
#define VERIF_INT(NAME, T)                                                                         \
  class NAME : public shim::Int<T> {                                                               \
  public:                                                                                          \
    using shim::Int<T>::Int;                                                                       \
    constexpr bool operator==(const NAME &o) const noexcept { return m == o.m; }                   \
    constexpr bool operator!=(const NAME &o) const noexcept { return m != o.m; }                   \
    constexpr bool operator<(const NAME &o) const noexcept { return m < o.m; }                     \
    constexpr bool operator<=(const NAME &o) const noexcept { return m <= o.m; }                   \
    constexpr bool operator>(const NAME &o) const noexcept { return m > o.m; }                     \
    constexpr bool operator>=(const NAME &o) const noexcept { return m >= o.m; }                   \
    constexpr NAME operator+(const NAME &o) const noexcept { return NAME(m + o.m); }               \
    constexpr NAME operator-(const NAME &o) const noexcept { return NAME(m - o.m); }
VERIF_INT(year, int)
};
VERIF_INT(month, int)
};
VERIF_INT(day_of_month, int)
};
VERIF_INT(day_of_year, int)
};
VERIF_INT(hours, int)
};
VERIF_INT(minutes, int)
};
VERIF_INT(seconds, long)
static constexpr long per_second = 1;
};
VERIF_INT(milliseconds, long)
static constexpr long per_second = 1000;
};
VERIF_INT(microseconds, long)
static constexpr long per_second = 1000000;
};
VERIF_INT(nanoseconds, long)
static constexpr long per_second = 1000000000;
};

class modified_julian_day;
struct ymd_date {
  year __year;
  month __month;
  day_of_month __dom;
  ymd_date() noexcept = default;
  ymd_date(year y, month m, day_of_month d) noexcept : __year(y), __month(m), __dom(d) {}
  year yr() const noexcept { return __year; }
  month mn() const noexcept { return __month; }
  day_of_month dm() const noexcept { return __dom; }
  inline explicit ymd_date(const modified_julian_day &) noexcept;
};
VERIF_INT(modified_julian_day, int)
  inline ymd_date to_ymd() const noexcept;
  /* proleptic Gregorian civil date to MJD (days since 1858-11-17) */
  static constexpr long from_civil(long y, long mo, long d) noexcept {
    y -= mo <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const long yoe = y - era * 400;
    const long doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468 + 40587;
  }
  modified_julian_day(year y, month mo, day_of_month d)
      : shim::Int<int>((int)from_civil(y.as_underlying_type(), mo.as_underlying_type(), d.as_underlying_type())) {
    const int M = mo.as_underlying_type(), D = d.as_underlying_type(), Y = y.as_underlying_type();
    static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    const bool leap = (Y % 4 == 0 && Y % 100 != 0) || Y % 400 == 0;
    if (M < 1 || M > 12 || D < 1 || D > dim[M - 1] + (M == 2 && leap))
      throw std::out_of_range("[ERROR] Invalid calendar date");
  }
  modified_julian_day(year y, day_of_year d) noexcept
      : shim::Int<int>((int)(from_civil(y.as_underlying_type(), 1, 1) + d.as_underlying_type() - 1)) {}
  static constexpr modified_julian_day min() noexcept { return modified_julian_day(std::numeric_limits<int>::min()); }
  static constexpr modified_julian_day max() noexcept { return modified_julian_day(std::numeric_limits<int>::max()); }
};
inline ymd_date modified_julian_day::to_ymd() const noexcept {
  long z = (long)m - 40587 + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const long doe = z - era * 146097;
  const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = yoe + era * 400;
  const long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const long mp = (5 * doy + 2) / 153;
  const long d = doy - (153 * mp + 2) / 5 + 1;
  const long mo = mp < 10 ? mp + 3 : mp - 9;
  return ymd_date(year((int)(y + (mo <= 2))), month((int)mo), day_of_month((int)d));
}
inline ymd_date::ymd_date(const modified_julian_day &d) noexcept { *this = d.to_ymd(); }
#undef VERIF_INT

template <class S> class datetime {
  modified_julian_day _mjd{0};
  S _sec{0};
  static constexpr long day_ticks = 86400L * S::per_second;
  void normalize() noexcept {
    long s = _sec.as_underlying_type();
    long d = s / day_ticks;
    s %= day_ticks;
    if (s < 0) {
      s += day_ticks;
      --d;
    }
    if (d)
      _mjd = modified_julian_day((int)(_mjd.as_underlying_type() + d));
    _sec = S(s);
  }

public:
  constexpr datetime() noexcept = default;
  constexpr datetime(modified_julian_day d, S s) noexcept : _mjd(d), _sec(s) {}
  explicit datetime(modified_julian_day d) noexcept : _mjd(d) {}
  datetime(year y, month m, day_of_month d, S s = S(0)) : _mjd(y, m, d), _sec(s) { normalize(); }
  datetime(year y, month m, day_of_month d, hours h, minutes mi, S s)
      : _mjd(y, m, d),
        _sec((h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) * S::per_second + s.as_underlying_type()) {
    normalize();
  }
  datetime(year y, day_of_year d, S s = S(0)) noexcept : _mjd(y, d), _sec(s) { normalize(); }
  static constexpr datetime min() noexcept { return datetime(modified_julian_day::min(), S(0)); }
  static constexpr datetime max() noexcept { return datetime(modified_julian_day::max(), S(0)); }
  constexpr modified_julian_day imjd() const noexcept { return _mjd; }
  constexpr S sec() const noexcept { return _sec; }
  constexpr double fmjd() const noexcept {
    return (double)_mjd.as_underlying_type() + (double)_sec.as_underlying_type() / (double)day_ticks;
  }
  ymd_date as_ymd() const noexcept { return _mjd.to_ymd(); }
  [[nodiscard]] datetime add_seconds(S s) const noexcept {
    datetime c(*this);
    c._mjd = modified_julian_day((int)(c._mjd.as_underlying_type() + s.as_underlying_type() / day_ticks));
    c._sec = S(c._sec.as_underlying_type() + s.as_underlying_type() % day_ticks);
    c.normalize();
    return c;
  }
  /* TT = TAI + 32.184 s, TAI = GPS + 19 s */
  [[nodiscard]] datetime gps2tt() const noexcept { return add_seconds(S(51184L * (S::per_second / 1000))); }
  template <DateTimeDifferenceType D> constexpr auto diff(const datetime &o) const noexcept {
    return shim::make_diff<D>((double)_mjd.as_underlying_type() - (double)o._mjd.as_underlying_type(),
                              (double)(_sec.as_underlying_type() - o._sec.as_underlying_type()) / (double)S::per_second);
  }
  constexpr bool operator==(const datetime &o) const noexcept { return _mjd == o._mjd && _sec == o._sec; }
  constexpr bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  constexpr bool operator<(const datetime &o) const noexcept { return _mjd < o._mjd || (_mjd == o._mjd && _sec < o._sec); }
  constexpr bool operator>(const datetime &o) const noexcept { return o < *this; }
  constexpr bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  constexpr bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
};
template <class S> using Datetime = datetime<S>;

/* accumulated leap seconds TAI-UTC at 0h UTC of a day */
inline int dat(modified_julian_day d) noexcept {
  static constexpr struct {
    int mjd, dat;
  } T[] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15}, {43144, 16},
           {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21}, {45516, 22}, {46247, 23},
           {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27}, {49169, 28}, {49534, 29}, {50083, 30},
           {50630, 31}, {51179, 32}, {53736, 33}, {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
  int r = 0;
  for (const auto &e : T) {
    if (d.as_underlying_type() < e.mjd)
      break;
    r = e.dat;
  }
  return r;
}

class TwoPartDateUTC;
/* an epoch as integral MJD plus (real) seconds of day */
class TwoPartDate {
  int _mjd{0};
  double _sec{0e0};
  void normalize() noexcept {
    if (_sec >= 0e0 && _sec < SEC_PER_DAY)
      return;
    if (!(std::fabs(_sec) < 1e14))
      return;
    const double d = std::floor(_sec / SEC_PER_DAY);
    _mjd += (int)d;
    _sec -= d * SEC_PER_DAY;
    if (_sec >= SEC_PER_DAY) {
      _sec -= SEC_PER_DAY;
      ++_mjd;
    }
  }
  struct raw {};
  constexpr TwoPartDate(int d, double s, raw) noexcept : _mjd(d), _sec(s) {}

public:
  constexpr TwoPartDate() noexcept = default;
  explicit TwoPartDate(int d, FractionalSeconds s = FractionalSeconds{0e0}) noexcept : _mjd(d), _sec(s.v) { normalize(); }
  template <class S> explicit TwoPartDate(const datetime<S> &d) noexcept
      : _mjd(d.imjd().as_underlying_type()), _sec((double)d.sec().as_underlying_type() / (double)S::per_second) {}
  static constexpr TwoPartDate min() noexcept { return TwoPartDate(std::numeric_limits<int>::min(), 0e0, raw{}); }
  static constexpr TwoPartDate max() noexcept { return TwoPartDate(std::numeric_limits<int>::max(), 0e0, raw{}); }
  static constexpr TwoPartDate j2000_mjd() noexcept { return TwoPartDate(51544, 43200e0, raw{}); }
  constexpr int imjd() const noexcept { return _mjd; }
  constexpr FractionalSeconds seconds() const noexcept { return FractionalSeconds{_sec}; }
  template <class S> constexpr double sec_of_day() const noexcept { return _sec * S::per_second; }
  constexpr FractionalDays fractional_days() const noexcept { return FractionalDays{_sec / SEC_PER_DAY}; }
  constexpr double as_mjd() const noexcept { return (double)_mjd + _sec / SEC_PER_DAY; }
  constexpr double julian_date() const noexcept { return (double)_mjd + _sec / SEC_PER_DAY + MJD0_JD; }
  constexpr double jcenturies_sinceJ2000() const noexcept {
    return (((double)_mjd - 51544e0) + (_sec - 43200e0) / SEC_PER_DAY) / DAYS_IN_JULIAN_CENT;
  }
  TwoPartDate &add_seconds_inplace(double s) noexcept {
    _sec += s;
    normalize();
    return *this;
  }
  [[nodiscard]] TwoPartDate add_seconds(FractionalSeconds s) const noexcept {
    TwoPartDate c(*this);
    c._sec += s.v;
    c.normalize();
    return c;
  }
  inline TwoPartDateUTC tt2utc() const noexcept;
  inline TwoPartDate tt2ut1(double dut1) const noexcept;
  template <DateTimeDifferenceType D> constexpr auto diff(const TwoPartDate &o) const noexcept {
    return shim::make_diff<D>((double)_mjd - (double)o._mjd, _sec - o._sec);
  }
  constexpr bool operator==(const TwoPartDate &o) const noexcept { return _mjd == o._mjd && _sec == o._sec; }
  constexpr bool operator!=(const TwoPartDate &o) const noexcept { return !(*this == o); }
  constexpr bool operator<(const TwoPartDate &o) const noexcept { return _mjd < o._mjd || (_mjd == o._mjd && _sec < o._sec); }
  constexpr bool operator>(const TwoPartDate &o) const noexcept { return o < *this; }
  constexpr bool operator<=(const TwoPartDate &o) const noexcept { return !(o < *this); }
  constexpr bool operator>=(const TwoPartDate &o) const noexcept { return !(*this < o); }
};
using MjdEpoch = TwoPartDate;

class TwoPartDateUTC {
  int _mjd{0};
  double _sec{0e0};

public:
  constexpr TwoPartDateUTC() noexcept = default;
  explicit TwoPartDateUTC(int d, FractionalSeconds s = FractionalSeconds{0e0}) noexcept : _mjd(d), _sec(s.v) {
    if (_sec < 0e0 || _sec >= SEC_PER_DAY + 1e0) {
      const double k = std::floor(_sec / SEC_PER_DAY);
      _mjd += (int)k;
      _sec -= k * SEC_PER_DAY;
    }
  }
  constexpr int imjd() const noexcept { return _mjd; }
  constexpr FractionalSeconds seconds() const noexcept { return FractionalSeconds{_sec}; }
  TwoPartDate utc2tt() const noexcept {
    return TwoPartDate(_mjd, FractionalSeconds{_sec + dat(modified_julian_day(_mjd)) + 32.184e0});
  }
};
inline TwoPartDateUTC TwoPartDate::tt2utc() const noexcept {
  /* TAI first, then the day whose offset applies (leap second included) */
  TwoPartDate tai(_mjd, FractionalSeconds{_sec - 32.184e0});
  int d = tai.imjd();
  double s = tai.seconds().v - dat(modified_julian_day(d));
  if (s < 0e0) {
    --d;
    const int dt = dat(modified_julian_day(d));
    s = tai.seconds().v + SEC_PER_DAY - dt;
    /* inside the leap second the seconds of day reach 86400+ */
  }
  return TwoPartDateUTC(d, FractionalSeconds{s});
}
inline TwoPartDate TwoPartDate::tt2ut1(double dut1) const noexcept {
  const auto utc = tt2utc();
  return TwoPartDate(utc.imjd(), FractionalSeconds{utc.seconds().v + dut1});
}

/* ---- reading and writing -------------------------------------------------- */
namespace shim {
inline bool two_ints(const char *&p, int width_max, long &v) {
  char *e;
  if (!(*p >= '0' && *p <= '9'))
    return false;
  v = 0;
  int n = 0;
  while (*p >= '0' && *p <= '9' && n < width_max) {
    v = v * 10 + (*p++ - '0');
    ++n;
  }
  (void)e;
  return n > 0;
}
inline bool is_delim(char c) { return c == '-' || c == '/' || c == ' ' || c == ':' || c == 'T'; }
} /* namespace shim */
/* reads "YYYY-MM-DD HH:MM:SS[.f]" (any single delimiter character, leading
 * blanks skipped); throws std::runtime_error if it can not */
template <YMDFormat FD, HMSFormat FT, class S>
inline datetime<S> from_char(const char *str, const char **end = nullptr) {
  const char *p = str;
  while (*p == ' ')
    ++p;
  long v[6];
  double frac = 0e0;
  for (int i = 0; i < 6; i++) {
    if (i) {
      if (!shim::is_delim(*p))
        throw std::runtime_error("[ERROR] Failed resolving date");
      ++p;
      if (i == 3)
        while (*p == ' ')
          ++p;
    }
    if (!shim::two_ints(p, i ? 2 : 4, v[i]))
      throw std::runtime_error("[ERROR] Failed resolving date");
  }
  if (*p == '.' ) {
    const char *q = p + 1;
    double w = .1;
    while (*q >= '0' && *q <= '9') {
      frac += (*q++ - '0') * w;
      w /= 10;
    }
    p = q;
  }
  if (v[3] > 24 || v[4] > 59 || v[5] > 60)
    throw std::runtime_error("[ERROR] Failed resolving time");
  if (end)
    *end = p;
  return datetime<S>(year((int)v[0]), month((int)v[1]), day_of_month((int)v[2]), hours((int)v[3]), minutes((int)v[4]),
                     S(v[5] * S::per_second + std::lround(frac * S::per_second)));
}

template <YMDFormat FD, HMSFormat FT, class S = nanoseconds>
inline const char *to_char(const datetime<S> &t, char *buf, char dd = '-', char dt = ':') {
  const auto y = t.as_ymd();
  const double s = (double)t.sec().as_underlying_type() / S::per_second;
  const int h = (int)(s / 3600), mi = (int)((s - h * 3600) / 60);
  char tmp[96];
  std::snprintf(tmp, sizeof(tmp), "%04d%c%02d%c%02d %02d%c%02d%c%012.9f", y.yr().as_underlying_type(), dd,
                y.mn().as_underlying_type(), dd, y.dm().as_underlying_type(), h, dt, mi, dt, s - h * 3600 - mi * 60);
  std::memcpy(buf, tmp, std::strlen(tmp) + 1 > 64 ? 64 : std::strlen(tmp) + 1);
  return buf;
}
template <YMDFormat FD, HMSFormat FT> inline const char *to_char(const TwoPartDate &t, char *buf, char dd = '-', char dt = ':') {
  const int mjd = t.imjd() < -600000 ? -600000 : t.imjd() > 2900000 ? 2900000 : t.imjd();
  const datetime<nanoseconds> d(modified_julian_day(mjd), nanoseconds((long)(t.seconds().v * 1e9)));
  return to_char<FD, FT, nanoseconds>(d, buf, dd, dt);
}
template <YMDFormat FD> inline const char *to_char(const ymd_date &y, char *buf, char dd = '-') {
  char tmp[64];
  std::snprintf(tmp, sizeof(tmp), "%04d%c%02d%c%02d", y.yr().as_underlying_type(), dd, y.mn().as_underlying_type(), dd,
                y.dm().as_underlying_type());
  std::memcpy(buf, tmp, 10); /* not terminated: the caller fills in the rest */
  return buf;
}

} /* namespace dso */
#endif
