/* AOD1B products: seeded generator and independent reference reader, shared by
 * the worlds that read them. */
#ifndef VERIF_AOD1B_REF_HPP
#define VERIF_AOD1B_REF_HPP
#include "files.hpp"
#include "datetime/calendar.hpp"
#include <cmath>
namespace aodref {
using namespace sim;
using Dt = dso::Datetime<dso::nanoseconds>;

inline bool starts(const std::string &a, const std::string &b) { return a.compare(0, b.size(), b) == 0; }
inline bool has_ctl(const std::string &s) {
  for (unsigned char c : s)
    if (c < ' ' || c >= 127)
      return true;
  return false;
}
inline bool isint(const std::string &w, long &v) {
  size_t i = !w.empty() && w[0] == '-' ? 1 : 0;
  if (w.size() == i || w.size() > 11)
    return false;
  for (size_t k = i; k < w.size(); k++)
    if (!isdigit((unsigned char)w[k]))
      return false;
  v = strtol(w.c_str(), nullptr, 10);
  return v >= -2147483648L && v <= 2147483647L;
}
/* decimal number, no leading plus; vague when out of range */
inline bool isnum(const std::string &b, double &v, bool &vague) {
  size_t i = 0, dig = 0;
  if (i < b.size() && b[i] == '-')
    i++;
  while (i < b.size() && isdigit((unsigned char)b[i]))
    i++, dig++;
  if (i < b.size() && b[i] == '.') {
    i++;
    while (i < b.size() && isdigit((unsigned char)b[i]))
      i++, dig++;
  }
  if (!dig)
    return false;
  if (i < b.size() && (b[i] == 'e' || b[i] == 'E')) {
    size_t j = i + 1;
    if (j < b.size() && (b[j] == '+' || b[j] == '-'))
      j++;
    size_t d0 = j;
    while (j < b.size() && isdigit((unsigned char)b[j]))
      j++;
    if (j == d0)
      return false;
    i = j;
  }
  if (i != b.size())
    return false;
  v = strtod(b.c_str(), nullptr);
  if (!std::isfinite(v) || (v != 0 && std::fabs(v) < 1e-300))
    vague = true;
  return true;
}
inline std::vector<std::string> btok(const std::string &l) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < l.size()) {
    while (p < l.size() && l[p] == ' ')
      p++;
    size_t q = p;
    while (q < l.size() && l[q] != ' ')
      q++;
    if (q > p)
      v.push_back(l.substr(p, q - p));
    p = q;
  }
  return v;
}
inline std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(' ');
  if (a == std::string::npos)
    return "";
  return s.substr(a, s.find_last_not_of(' ') - a + 1);
}
/* 0 exact, 1 impossible, 2 unclear */
inline int gpsdate(const std::string &s, Dt &tt) {
  /* YYYY-MM-DD HH:MM:SS */
  static const char *P = "dddd-dd-dd dd:dd:dd";
  if (s.size() != 19)
    return 2;
  for (int i = 0; i < 19; i++)
    if (P[i] == 'd' ? !isdigit((unsigned char)s[(size_t)i]) : s[(size_t)i] != P[i])
      return 2;
  auto n = [&](int a, int k) { return atoi(s.substr((size_t)a, (size_t)k).c_str()); };
  int y = n(0, 4), mo = n(5, 2), d = n(8, 2), h = n(11, 2), mi = n(14, 2), se = n(17, 2);
  static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  if (mo < 1 || mo > 12 || d < 1 || d > L[mo - 1] + (mo == 2 && leap))
    return 1;
  if (h > 23 || mi > 59 || se > 59)
    return 2;
  tt = Dt(dso::modified_julian_day(dso::year(y), dso::month(mo), dso::day_of_month(d)),
          dso::nanoseconds((h * 3600L + mi * 60L + se) * 1000000000L))
           .add_seconds(dso::nanoseconds(51184000000L));
  return 0;
}

struct Hdr {
  bool bad = false, vague = false;
  std::string why;
  std::string agency, sat, sensor, level, pressure, wave;
  long type = 0, format = 0, hrec = 0, drec = 0, nmax = 0, sets = 0;
  int errors = 0, norm = 0;
  double gm = 0, re = 0, flat = 0, omega = 0;
  bool hepoch = false, hfirst = false, hlast = false, hmax = false, hgm = false, hre = false, hsets = false, hwave = false;
  bool clash = false; /* a field is given twice */
  Dt epoch = Dt::min(), first = Dt::min(), last = Dt::min();
  size_t data = 0; /* index of the first line after the header */
};
/* eio: reading past the text fails */
inline Hdr ref_header(const std::string &text) {
  Hdr h;
  auto bad = [&](const char *w, const std::string &l) {
    if (!h.bad)
      h.why = std::string(w) + ": " + l.substr(0, 70);
    h.bad = true;
  };
  auto L = text_lines(text);
  std::map<std::string, int> seen;
  for (size_t k = 0;; k++) {
    if (k >= L.size() || (k + 1 == L.size() && (text.empty() || text.back() != '\n'))) {
      /* no complete END OF HEADER line */
      if (k < L.size() && starts(L[k], "END OF HEADER"))
        h.vague = true;
      else
        bad("header does not end", "");
      return h;
    }
    std::string l = L[k];
    if (l.size() > 123) {
      bad("over-long header line", l);
      return h;
    }
    if (has_ctl(l))
      h.vague = true;
    if (k + 1 >= 100)
      h.vague = true;
    auto key = [&](const char *n, std::string &v) {
      std::string s(n);
      if (!starts(l, s))
        return false;
      size_t c = l.find(':', s.size());
      v = c == std::string::npos ? "" : trim(l.substr(c + 1));
      if (c == std::string::npos)
        bad("no value", l);
      else if (trim(l.substr(s.size(), c - s.size())) != "")
        h.vague = true;
      if (seen[s]++)
        h.clash = true;
      return true;
    };
    auto str = [&](std::string &d, const std::string &v, size_t cap) {
      if (v.find(':') != std::string::npos)
        h.vague = true;
      if (v.size() > cap)
        bad("over-long header value", l);
      d = v;
    };
    auto integer = [&](long &d, const std::string &v) {
      auto w = btok(v);
      if (w.empty() || !isint(w[0], d)) {
        if (!w.empty() && isdigit((unsigned char)w[0][0]))
          h.vague = true; /* a readable start */
        bad("unreadable number", l);
      } else if (w.size() > 1)
        h.vague = true;
    };
    auto num = [&](double &d, const std::string &v) {
      auto w = btok(v);
      bool vg = false;
      if (w.empty() || !isnum(w[0], d, vg)) {
        if (!w.empty() && (isdigit((unsigned char)w[0][0]) || w[0][0] == '.' || w[0][0] == '-'))
          h.vague = true;
        bad("unreadable number", l);
      } else if (w.size() > 1 || vg)
        h.vague = true;
    };
    auto yesno = [&](int &d, const std::string &v) {
      if (v == "YES")
        d = 1;
      else if (v == "NO")
        d = 0;
      else
        bad("neither YES nor NO", l);
    };
    auto obs = [&](Dt &d, const std::string &v) {
      size_t o = v.find('('), c = v.find(')');
      double s;
      bool vg = false;
      if (o == std::string::npos || c == std::string::npos || c < o || !isnum(trim(v.substr(0, o)), s, vg) || vg ||
          std::fabs(s) > 3e9 || s != std::floor(s)) {
        h.vague = true;
        return false;
      }
      Dt t;
      int q = gpsdate(v.substr(o + 1, c - o - 1), t);
      if (q == 1)
        bad("impossible date", l);
      if (q == 2)
        h.vague = true;
      if (q)
        return false;
      if (!h.hepoch)
        bad("observation time without its epoch", l);
      else {
        d = h.epoch.add_seconds(dso::nanoseconds((long)s * 1000000000L));
        if (d != t)
          bad("observation time and date disagree", l);
      }
      return true;
    };
    std::string v;
    if (starts(l, "END OF HEADER")) {
      h.data = k + 1;
      break;
    } else if (key("PRODUCER AGENCY", v))
      str(h.agency, v, 19);
    else if (starts(l, "PRODUCER INSTITUTION") || starts(l, "SOFTWARE VERSION") || starts(l, "SOFTWARE LINK TIME") ||
             starts(l, "REFERENCE DOCUMENTATION") || starts(l, "PRODUCT START CREATE TIME(UTC)") ||
             starts(l, "PRODUCT END CREATE TIME(UTC)") || starts(l, "FILESIZE (BYTES)") || starts(l, "FILENAME") ||
             starts(l, "DATA FORMAT (N,M,C,S)"))
      ;
    else if (key("FILE TYPE ipAOD1BF", v))
      integer(h.type, v);
    else if (key("FILE FORMAT 0=BINARY 1=ASCII", v))
      integer(h.format, v);
    else if (key("NUMBER OF HEADER RECORDS", v))
      integer(h.hrec, v);
    else if (key("SATELLITE NAME", v))
      str(h.sat, v, 19);
    else if (key("SENSOR NAME", v))
      str(h.sensor, v, 19);
    else if (key("TIME EPOCH (GPS TIME)", v)) {
      int q = gpsdate(v, h.epoch);
      if (q == 1)
        bad("impossible date", l);
      if (q == 2)
        h.vague = true;
      h.hepoch = true;
    } else if (key("TIME FIRST OBS(SEC PAST EPOCH)", v))
      h.hfirst = obs(h.first, v);
    else if (key("TIME LAST OBS(SEC PAST EPOCH)", v))
      h.hlast = obs(h.last, v);
    else if (key("TIME FIRST OBS (YEAR START)", v) || key("TIME LAST OBS (YEAR END)", v)) {
      long y = 0;
      integer(y, v);
      if (y < 1000 || y > 3000)
        h.vague = true;
    } else if (key("NUMBER OF DATA RECORDS", v))
      integer(h.drec, v);
    else if (key("PROCESS LEVEL (1A OR 1B)", v))
      str(h.level, v, 3);
    else if (key("PRESSURE TYPE (SP OR VI)", v) || key("PRESSURE TYPE (ATM OR OCN)", v))
      str(h.pressure, v, 3);
    else if (key("MAXIMUM DEGREE", v)) {
      integer(h.nmax, v);
      h.hmax = true;
    } else if (key("COEFFICIENTS ERRORS (YES/NO)", v))
      yesno(h.errors, v);
    else if (key("COEFF. NORMALIZED (YES/NO)", v))
      yesno(h.norm, v);
    else if (key("CONSTANT GM [M^3/S^2]", v)) {
      num(h.gm, v);
      h.hgm = true;
    } else if (key("CONSTANT A [M]", v)) {
      num(h.re, v);
      h.hre = true;
    } else if (key("CONSTANT FLAT [-]", v))
      num(h.flat, v);
    else if (key("CONSTANT OMEGA [RAD/S]", v))
      num(h.omega, v);
    else if (key("NUMBER OF DATA SETS", v)) {
      integer(h.sets, v);
      h.hsets = true;
    } else if (key("PARTIAL TIDE", v)) {
      str(h.wave, v, 7);
      h.hwave = true;
    } else
      bad("unknown header line", l);
  }
  if (!h.hmax || !h.hgm || !h.hre || !h.hsets)
    bad("header lacks the degree, a constant or the number of data sets", "");
  if (h.hmax && h.nmax < 0)
    bad("negative degree", "");
  return h;
}

struct Coef {
  double c, s;
};
struct Block {
  long set = 0, lines = 0;
  Dt epoch;
  int type = 0;
};
inline int type_of(const std::string &w) {
  static const char *T[] = {"atm", "ocn", "glo", "oba"};
  for (int i = 0; i < 4; i++)
    if (w == T[i])
      return i;
  return -1;
}
enum R { OK, END, BAD, VAGUE };
/* a careful sequential reader over the text one open of the file serves */
struct Reader {
  std::vector<std::string> L;
  bool tail = true; /* text ends with a newline */
  size_t pos = 0;
  void bind(const std::string &text) {
    L = text_lines(text);
    tail = text.empty() || text.back() == '\n';
    pos = 0;
  }
  /* header of the next block */
  R head(Block &b) {
    if (pos >= L.size())
      return END;
    const std::string l = L[pos++];
    if (l.size() > 123)
      return BAD;
    if (!starts(l, "DATA SET"))
      return BAD;
    if (has_ctl(l) || (pos == L.size() && !tail))
      return VAGUE;
    auto w = btok(l.substr(8));
    if (w.size() < 8 || w[0].back() != ':')
      return w.size() >= 7 ? VAGUE : BAD;
    if (!isint(w[0].substr(0, w[0].size() - 1), b.set) || !isint(w[1], b.lines))
      return isdigit((unsigned char)w[0][0]) && isdigit((unsigned char)w[1][0]) ? VAGUE : BAD;
    if (b.lines < 0)
      return BAD;
    if (w[2] != "COEFFICIENTS" || w[3] != "FOR")
      return BAD;
    int q = gpsdate(w[4] + " " + w[5], b.epoch);
    if (q)
      return q == 1 ? BAD : VAGUE;
    if (w[6] != "OF" || w[7] != "TYPE")
      return w.size() > 7 && starts(w[7], "TYPE") ? VAGUE : BAD;
    if (w.size() < 9)
      return BAD;
    b.type = type_of(w[8]);
    if (b.type < 0)
      return type_of(w[8].substr(0, 3)) >= 0 ? VAGUE : BAD;
    if (w.size() > 9)
      return VAGUE;
    return OK;
  }
  R skip(long n) {
    for (long k = 0; k < n; k++) {
      if (pos >= L.size())
        return END;
      if (L[pos].size() > 123)
        return BAD;
      pos++;
    }
    return OK;
  }
  R next(int type, Block &b, long sets) {
    for (long k = 0;; k++) {
      if (k >= sets)
        return VAGUE;
      R r = head(b);
      if (r != OK)
        return r;
      if (b.type == type)
        return OK;
      r = skip(b.lines);
      if (r != OK)
        return r == END && b.lines > 0 ? BAD : r;
    }
  }
  /* coefficients of the block up to (n,m) */
  R collect(long lines, int n, int m, std::map<std::pair<int, int>, Coef> &out, int &cn, int &cm, std::string &why, bool plus = true) {
    bool vague = false;
    cn = cm = 0;
    for (long k = 0; k < lines; k++) {
      if (pos >= L.size()) {
        why = "the data ends inside the block";
        return BAD;
      }
      std::string l = L[pos++];
      if (l.size() > 123) {
        why = "over-long line";
        return BAD;
      }
      if (has_ctl(l))
        return VAGUE;
      if (pos == L.size() && !tail)
        vague = true;
      auto w = btok(l);
      for (auto &x : w) {
        if (x[0] == '+') {
          if (!plus || x.size() == 1 || x[1] == '+' || x[1] == '-')
            return VAGUE;
          x = x.substr(1);
        }
      }
      long a, b;
      bool vg = false;
      Coef c;
      if (w.size() < 2 || !isint(w[0], a) || !isint(w[1], b)) {
        if (w.size() >= 2 && isdigit((unsigned char)w[0][0]) && isdigit((unsigned char)w[1][0]))
          return VAGUE; /* a readable start: the rest may lie outside the request */
        why = "unreadable degree/order: " + l;
        return BAD;
      }
      if (a < 0 || b < 0 || b > a) {
        why = "impossible degree/order: " + l;
        return a > n || b > m ? VAGUE : BAD;
      }
      if (a > n || b > m)
        continue;
      if (w.size() < 4 || !isnum(w[2], c.c, vg) || !isnum(w[3], c.s, vg)) {
        why = "unreadable coefficient: " + l;
        return BAD;
      }
      if (vg || w.size() > 4)
        return VAGUE;
      out[{(int)a, (int)b}] = c;
      cn = std::max<int>(cn, (int)a);
      cm = std::max<int>(cm, (int)b);
    }
    return vague ? VAGUE : OK;
  }
};

/* ---- generation ------------------------------------------------------------ */
struct Gen {
  int nmax, epochs, step; /* hours */
  long mjd;               /* first day, GPS */
  int hour0 = 0;
  std::vector<int> types; /* in file order */
  int rl = 6;
  Dt at(int e) const { /* TT */
    return Dt(dso::modified_julian_day((int)mjd), dso::nanoseconds(0))
        .add_seconds(dso::nanoseconds(((hour0 + (long)e * step) * 3600L) * 1000000000L))
        .add_seconds(dso::nanoseconds(51184000000L));
  }
};
inline std::string dstr(long mjd, long sec) {
  mjd += sec / 86400;
  sec %= 86400;
  auto y = dso::modified_julian_day((int)mjd).to_ymd();
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02d %02ld:%02ld:%02ld", y.yr().as_underlying_type(), y.mn().as_underlying_type(),
           y.dm().as_underlying_type(), sec / 3600, sec / 60 % 60, sec % 60);
  return b;
}
inline std::string day_name(long mjd, int rl) {
  auto y = dso::modified_julian_day((int)mjd).to_ymd();
  char b[64];
  snprintf(b, sizeof b, "AOD1B_%04d-%02d-%02d_X_%02d.asc", y.yr().as_underlying_type(), y.mn().as_underlying_type(),
           y.dm().as_underlying_type(), rl);
  return b;
}
inline std::string word(Rng &r, int lo, int hi) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ-_0123456789abcdefghijk";
  std::string s;
  for (int k = r.range(lo, hi); k > 0; k--)
    s += A[r.below((int)sizeof A - 1)];
  return s;
}
inline void put(Script &s, const std::string &l) { s.add("l %s", esc(l).c_str()); }
inline void gen_head(Rng &r, Script &s, int nmax, long mjd, long s0, long s1, int sets, long nlines, bool tidal, const char *wave,
                     bool optional) {
  auto kv = [&](const char *k, const std::string &v) {
    std::string a = k;
    const int w = r.chance(.8) ? 30 : r.range(0, 34);
    while ((int)a.size() < w)
      a += ' ';
    put(s, a + ":" + std::string((size_t)(r.chance(.8) ? 1 : r.below(4)), ' ') + v +
               std::string((size_t)(r.chance(.2) ? r.below(6) : 0), ' '));
  };
  auto opt = [&] { return !optional || r.chance(.7); };
  char b[128];
  kv("PRODUCER AGENCY", r.chance(.6) ? "GFZ" : word(r, 1, 19));
  if (opt())
    kv("PRODUCER INSTITUTION", "GFZ");
  kv("FILE TYPE ipAOD1BF", "999");
  kv("FILE FORMAT 0=BINARY 1=ASCII", "1");
  kv("NUMBER OF HEADER RECORDS", std::to_string(r.range(20, 35)));
  if (opt())
    kv("SOFTWARE VERSION", "atm_ocean_dealise.06");
  if (opt())
    kv("SOFTWARE LINK TIME", "Not Applicable");
  if (opt())
    kv("REFERENCE DOCUMENTATION", "GRACE De-aliasing ADD");
  kv("SATELLITE NAME", r.chance(.6) ? "GRACE" : word(r, 1, 19));
  kv("SENSOR NAME", r.chance(.6) ? "Not Applicable" : word(r, 1, 19));
  kv("TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00");
  if (!tidal) {
    const long e0 = 51544L * 86400 + 43200;
    snprintf(b, sizeof b, "%ld.000000 (%s)", mjd * 86400 + s0 - e0, dstr(mjd, s0).c_str());
    kv("TIME FIRST OBS(SEC PAST EPOCH)", b);
    snprintf(b, sizeof b, "%ld.000000 (%s)", mjd * 86400 + s1 - e0, dstr(mjd, s1).c_str());
    kv("TIME LAST OBS(SEC PAST EPOCH)", b);
  } else {
    kv("TIME FIRST OBS (YEAR START)", "1976");
    kv("TIME LAST OBS (YEAR END)", "2017");
  }
  kv("NUMBER OF DATA RECORDS", std::to_string(nlines * sets));
  if (opt())
    kv("PRODUCT START CREATE TIME(UTC)", "2017-05-05 08:14:14.000");
  if (opt())
    kv("PRODUCT END CREATE TIME(UTC)", "2017-05-05 08:24:14.000");
  if (opt())
    kv("FILESIZE (BYTES)", std::to_string(r.range(1000, 30000000)));
  if (opt())
    kv("FILENAME", "AOD1B_2008-07-03_X_06.asc");
  kv("PROCESS LEVEL (1A OR 1B)", "1B");
  kv(tidal ? "PRESSURE TYPE (ATM OR OCN)" : "PRESSURE TYPE (SP OR VI)", tidal ? (r.chance(.5) ? "ATM" : "OCN") : (r.chance(.5) ? "VI" : "SP"));
  kv("MAXIMUM DEGREE", std::to_string(nmax));
  kv("COEFFICIENTS ERRORS (YES/NO)", r.chance(.8) ? "NO" : "YES");
  kv("COEFF. NORMALIZED (YES/NO)", r.chance(.8) ? "YES" : "NO");
  snprintf(b, sizeof b, "%.14E", r.uni(3.98e14, 3.99e14));
  kv("CONSTANT GM [M^3/S^2]", b);
  snprintf(b, sizeof b, "%.14E", r.uni(6.37e6, 6.38e6));
  kv("CONSTANT A [M]", b);
  snprintf(b, sizeof b, "%.14E", r.uni(298, 299));
  kv("CONSTANT FLAT [-]", b);
  snprintf(b, sizeof b, "%.14E", r.uni(7.2e-5, 7.3e-5));
  kv("CONSTANT OMEGA [RAD/S]", b);
  kv("NUMBER OF DATA SETS", std::to_string(sets));
  if (tidal)
    kv("PARTIAL TIDE", wave);
  if (opt())
    kv("DATA FORMAT (N,M,C,S)", "(2(I3,X),E15.9,X,E15.9)");
  put(s, "END OF HEADER");
}
/* the (n,m) lines of one block; always holds (nmax,nmax) */
inline std::vector<std::string> gen_lines(Rng &r, int nmax, bool plus, double scale) {
  std::vector<std::string> v;
  const bool holes = r.chance(.2);
  for (int n = 0; n <= nmax; n++)
    for (int m = 0; m <= n; m++) {
      if (holes && r.chance(.2) && n != m && m != 0)
        continue;
      char b[128];
      double c = r.uni(-1, 1) * scale / (n + 1), q = m ? r.uni(-1, 1) * scale / (n + 1) : 0;
      const char *f = plus && r.chance(.1) ? "%3d %3d %+.9E %+.9E" : r.chance(.1) ? "%4d%4d  %.12e   %.12e" : "%3d %3d %15.9E %15.9E";
      snprintf(b, sizeof b, f, n, m, c, q);
      v.push_back(b);
    }
  if (r.chance(.3))
    for (size_t i = v.size(); i > 1; i--)
      std::swap(v[i - 1], v[(size_t)r.below((int)i)]);
  return v;
}
/* a whole non-tidal product */
inline void gen_product(Rng &r, Script &s, const std::string &name, const Gen &g, int order, bool optional = true) {
  static const char *T[] = {"atm", "ocn", "glo", "oba"};
  s.add("f %s", name.c_str());
  std::vector<std::pair<int, int>> seq; /* epoch, type */
  if (order == 0)
    for (int e = 0; e < g.epochs; e++)
      for (int t : g.types)
        seq.push_back({e, t});
  else
    for (int t : g.types)
      for (int e = 0; e < g.epochs; e++)
        seq.push_back({e, t});
  gen_head(r, s, g.nmax, g.mjd, g.hour0 * 3600L, (g.hour0 + (g.epochs - 1L) * g.step) * 3600L, (int)seq.size(),
           (g.nmax + 1L) * (g.nmax + 2) / 2 + 1, false, "", optional);
  int k = 1;
  for (auto &q : seq) {
    auto v = gen_lines(r, g.nmax, true, 1e-9);
    char b[200];
    snprintf(b, sizeof b, r.chance(.9) ? "DATA SET %02d:%8d COEFFICIENTS FOR %s OF TYPE %s" : "DATA SET %d: %d COEFFICIENTS FOR %s OF TYPE %s",
             k++, (int)v.size(), dstr(g.mjd, (g.hour0 + (long)q.first * g.step) * 3600L).c_str(), T[q.second]);
    put(s, b);
    for (auto &l : v)
      put(s, l);
  }
}
/* the waves of the tide products */
struct WaveId {
  const char *name;
  int n[6];
  double pif, deg;
};
static const WaveId WAVES[] = {
    {"P1", {1, 1, -2, 0, 0, 0}, +1, 14.95893277},  {"S1", {1, 1, -1, 0, 0, 0}, +2, 15.00000141}, {"K1", {1, 1, 0, 0, 0, 0}, -1, 15.04107005},
    {"M2", {2, 0, 0, 0, 0, 0}, 0, 28.98410705},    {"T2", {2, 2, -3, 0, 0, 1}, 0, 29.95893614},  {"S2", {2, 2, -2, 0, 0, 0}, 0, 30.00000282},
    {"R2", {2, 2, -1, 0, 0, -1}, +2, 30.0410695},  {"K2", {2, 2, 0, 0, 0, 0}, 0, 30.0821401},    {"N2", {2, -1, 0, 1, 0, 0}, 0, 28.4397295},
    {"L2", {2, 1, 0, -1, 0, 0}, +2, 29.5284789},   {"T3", {3, 3, -4, 0, 0, 0}, 0, 44.95893559},  {"S3", {3, 3, -3, 0, 0, 0}, 0, 45.00000423},
    {"R3", {3, 3, -2, 0, 0, 0}, 0, 45.04107287},   {"S4", {4, 4, -4, 0, 0, 0}, 0, 60.00000564},  {"S5", {5, 5, -5, 0, 0, 0}, 0, 75.00000705},
    {"S6", {6, 6, -6, 0, 0, 0}, 0, 90.00000846}};
static const int NW = sizeof WAVES / sizeof *WAVES;
inline const WaveId *find_wave(const std::string &n) {
  for (auto &w : WAVES)
    if (n == w.name)
      return &w;
  return nullptr;
}
/* a tide product: one wave */
inline void gen_tidal(Rng &r, Script &s, const char *nm, int nmax, const char *wave, bool optional) {
  s.add("f %s", nm);
  gen_head(r, s, nmax, 0, 0, 0, 2, (nmax + 1L) * (nmax + 2) / 2 + 1, true, wave, optional);
  for (int k = 0; k < 2; k++) {
    auto v = gen_lines(r, nmax, false, 1e-9);
    char b[120];
    snprintf(b, sizeof b, "DATA SET %02d:%*d COEFFICIENTS OF TYPE %s", k + 1, r.chance(.8) ? 8 : r.range(2, 12), (int)v.size(), k ? "sin" : "cos");
    put(s, b);
    for (auto &l : v)
      put(s, l);
  }
}
} // namespace aodref
#endif
