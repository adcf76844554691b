/* World "eop": Earth orientation series.
 *   C10/C11  IERS C04 files on the simulated disk (well formed, damaged, served
 *            with faults); oracle: independent line parser over what the medium
 *            serves
 *   C12      histories of pushes, queries, copies, moves, clears over several
 *            series; oracle: long double interpolation over a plain vector
 *   C02      (flavour "sched") threads querying/copying one shared series;
 *            oracle: the same query alone in a fresh process
 */
#include "sim.hpp"
#include "files.hpp"
#include "eop.hpp"
#include "fundarg.hpp"
#include <cmath>
#include <memory>
#ifdef SIM_OWN_ALLOC
#include "threads.hpp"
#endif
using namespace sim;
const char *const world::name = "eop";
using dso::EopRecord;
using dso::EopSeries;
using dso::MjdEpoch;
using Res = EopSeries::EopInterpolationResult;
typedef long double LD;

static MjdEpoch ep(long mjd, double sec) { return MjdEpoch((int)mjd, dso::FractionalSeconds{sec}); }
struct R {
  MjdEpoch t;
  double v[8]; /* x y dut lod dx dy xr yr */
  double dat;
};
static R rd(const EopRecord &e) {
  return R{e.t(), {e.xp(), e.yp(), e.dut(), e.lod(), e.dX(), e.dY(), e.xp_rate(), e.yp_rate()}, e.dat()};
}
static EopRecord mk(const R &r) {
  EopRecord e;
  e.t() = r.t;
  e.xp() = r.v[0];
  e.yp() = r.v[1];
  e.dut() = r.v[2];
  e.lod() = r.v[3];
  e.dX() = r.v[4];
  e.dY() = r.v[5];
  e.xp_rate() = r.v[6];
  e.yp_rate() = r.v[7];
  e.dat() = r.dat;
  return e;
}
static const char *FN[8] = {"xp", "yp", "dut1", "lod", "dX", "dY", "xp rate", "yp rate"};
static double leap_at_tt(const MjdEpoch &t) { return dso::dat(dso::modified_julian_day(t.tt2utc().imjd())); }

/* ---- reference interpolation ---------------------------------------------- */
struct Want {
  Res res;
  LD v[8], scale[8];
  bool exact = false; /* out of span: bitwise copy */
  bool any_first = false;
};
static LD dd(const MjdEpoch &a, const MjdEpoch &b) {
  return ((LD)a.imjd() - (LD)b.imjd()) + ((LD)a.seconds().seconds() - (LD)b.seconds().seconds()) / 86400.0L;
}
static Want ref_interp(const std::vector<R> &v, const MjdEpoch &t, int degree) {
  Want w;
  size_t hi = 0;
  while (hi < v.size() && !(t < v[hi].t))
    hi++;
  for (int k = 0; k < 8; k++)
    w.v[k] = w.scale[k] = 0;
  if (hi == 0 || hi == v.size()) {
    const R &r = hi == 0 ? v.front() : v.back();
    w.res = hi == 0 ? Res::OutOfBoundsPrior : Res::OutOfBoundsLater;
    w.exact = true;
    for (int k = 0; k < 8; k++)
      w.v[k] = r.v[k];
    return w;
  }
  w.any_first = hi == 1 && t == v[0].t;
  long ndp = (degree + 1) / 2;
  ndp = std::min(ndp, std::min((long)hi, (long)(v.size() - hi)));
  w.res = ndp == 1 ? Res::Linear : (2 * ndp == degree + 1 ? Res::PolyDegreeRequested : Res::PolyDegreeDescreased);
  for (long i = (long)hi - ndp; i < (long)hi + ndp; i++) {
    LD f = 1;
    for (long k = (long)hi - ndp; k < (long)hi + ndp; k++)
      if (k != i)
        f *= dd(t, v[k].t) / dd(v[i].t, v[k].t);
    for (int k = 0; k < 8; k++) {
      LD x = v[i].v[k];
      if (k == 2)
        x -= v[i].dat;
      w.v[k] += x * f;
      w.scale[k] += fabsl(x * f);
    }
  }
  w.v[2] += leap_at_tt(t);
  w.scale[2] += leap_at_tt(t);
  return w;
}
static void check_interp(const std::vector<R> &v, const MjdEpoch &t, int degree, Res res, const R &got, const char *what) {
  evals();
  Want w = ref_interp(v, t, degree);
  if (res != w.res && !(w.any_first && res == Res::OutOfBoundsPrior))
    fail("eop-status", "%s: outcome %d, expected %d (degree %d, %zu records)", what, (int)res, (int)w.res, degree, v.size());
  if (!(got.t == t))
    fail("eop-epoch", "%s: the returned record is not at the requested epoch", what);
  for (int k = 0; k < 8; k++) {
    LD tol = w.exact ? 0 : 1e-12L * w.scale[k] + 1e-300L;
    if (!(fabsl((LD)got.v[k] - w.v[k]) <= tol))
      fail(k >= 6 ? "eop-rate" : "eop-value", "%s: %s = %.17g, expected %.17Lg (degree %d, %zu records)", what, FN[k], got.v[k], w.v[k],
           degree, v.size());
  }
}
static Want ref_lin(const std::vector<R> &v, const MjdEpoch &t) { return ref_interp(v, t, 1); }

/* ---- file reference --------------------------------------------------------- */
enum { F14 = 0, F20 = 1, FAUTO = 2 };
static bool ref_choose(const std::string &text, bool whole, int &type) {
  auto L = text_lines(text);
  L.resize(std::max<size_t>(L.size(), 3));
  auto ltrim = [](const std::string &s) {
    size_t k = 0;
    while (k < s.size() && s[k] == ' ')
      k++;
    return s.substr(k);
  };
  const std::string e = "EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)";
  const std::string h20 = "# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled";
  const std::string i14 = "INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE", t14 = "EOP (IERS) 14 C04 TIME SERIES";
  auto starts = [](const std::string &a, const std::string &b) { return a.compare(0, b.size(), b) == 0; };
  for (int k = 0; k < 3; k++)
    if (L[k].size() > 255)
      L[k].resize(255);
  if (starts(L[0], "# " + e)) {
    type = F20;
    return starts(L[1], h20);
  }
  type = F14;
  return starts(ltrim(L[0]), e) && starts(ltrim(L[1]), i14) && starts(ltrim(L[2]), t14);
}
struct Parsed {
  bool ok = true;       /* no unreadable record met */
  bool stopped = false; /* saw a record past the window: rest not needed */
  std::vector<R> recs;
};
static const char *sp(const char *p) {
  while (*p == ' ')
    p++;
  return p;
}
/* numbers as the format defines them: [-]digits[.digits][e..] */
static bool num(const char *&p, double &v) {
  const char *q = sp(p);
  const char *r = q;
  if (*r == '-')
    r++;
  if (!((*r >= '0' && *r <= '9') || (*r == '.' && r[1] >= '0' && r[1] <= '9'))) {
    return false;
  }
  if (r[0] == '0' && (r[1] == 'x' || r[1] == 'X')) {
    return false;
  }
  char *e;
  v = strtod(q, &e);
  if (*e && !isspace((unsigned char)*e))
    return false;
  p = e;
  return true;
}
static bool inum(const char *&p, long &v) {
  const char *q = sp(p);
  const char *r = q;
  if (*r == '-')
    r++;
  if (!(*r >= '0' && *r <= '9'))
    return false;
  char *e;
  errno = 0;
  v = strtol(q, &e, 10);
  if (errno || (*e && !isspace((unsigned char)*e)))
    return false;
  p = e;
  return true;
}
static Parsed ref_parse(const std::string &text, bool eio, int fmt, const MjdEpoch &a, const MjdEpoch &b) {
  Parsed P;
  auto L = text_lines(text);
  const bool endnl = !text.empty() && text.back() == '\n';
  for (size_t k = 0; k < L.size(); k++) {
    if (eio && k + 1 == L.size() && !endnl)
      break; /* the read fails inside this line */
    std::string l = L[k];
    if (l.size() > 255) {
      P.ok = false;
      return P;
    }
    l = l.c_str();
    if (l.empty() || l[0] == ' ' || l[0] == '#')
      continue;
    if (l.size() < 12) {
      P.ok = false;
      return P;
    }
    const char *p = l.c_str() + 12;
    R r;
    dso::TwoPartDateUTC utc;
    if (fmt == F14) {
      long m;
      if (!inum(p, m)) {
        P.ok = false;
        return P;
      }
      utc = dso::TwoPartDateUTC((int)m, dso::FractionalSeconds{0e0});
    } else {
      long h;
      double m;
      if (!inum(p, h) || h > 2147483647L || h < -2147483648L || !num(p, m)) {
        P.ok = false;
        return P;
      }
      if (!(std::fabs(m) < 1e7)) {
        P.ok = false;
        return P;
      }
      double ip, fp = std::modf(m, &ip);
      if (!(std::fabs(fp - h / 24e0) <= 0.005 + 1e-6)) {
        P.ok = false;
        return P;
      }
      utc = dso::TwoPartDateUTC((int)ip, dso::FractionalSeconds{h * 3600e0});
    }
    r.t = utc.utc2tt();
    r.dat = dso::dat(dso::modified_julian_day(utc.imjd()));
    if (r.t >= b) {
      P.stopped = true;
      break;
    }
    if (r.t < a)
      continue;
    double d[8] = {0};
    for (int i = 0; i < (fmt == F14 ? 6 : 8); i++)
      if (!num(p, d[i])) {
        P.ok = false;
        return P;
      }
    if (fmt == F14) {
      const int ix[6] = {0, 1, 2, 3, 4, 5};
      for (int i = 0; i < 6; i++)
        r.v[ix[i]] = d[i];
      r.v[6] = r.v[7] = 0e0;
    } else {
      const int ix[8] = {0, 1, 2, 4, 5, 6, 7, 3};
      for (int i = 0; i < 8; i++)
        r.v[ix[i]] = d[i];
    }
    P.recs.push_back(r);
  }
  return P;
}
static bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same_recs(const std::vector<R> &a, const std::vector<R> &b, bool values) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (!(a[i].t == b[i].t) || a[i].dat != b[i].dat)
      return false;
    if (values)
      for (int k = 0; k < 8; k++)
        if (!same_num(a[i].v[k], b[i].v[k]))
          return false;
  }
  return true;
}
static std::vector<R> recs_of(const EopSeries &s) {
  std::vector<R> v;
  for (const auto &e : s.give_me_the_vector())
    v.push_back(rd(e));
  return v;
}

/* ---- generation --------------------------------------------------------------- */
static R rand_rec(Rng &r, long mjd, int k) {
  R x;
  x.v[0] = std::round(r.uni(-.5, .5) * 1e6) / 1e6;
  x.v[1] = std::round(r.uni(-.1, .6) * 1e6) / 1e6;
  x.v[2] = std::round(r.uni(-.9, .9) * 1e7) / 1e7;
  x.v[3] = std::round(r.uni(-.004, .004) * 1e7) / 1e7;
  x.v[4] = std::round(r.uni(-.001, .001) * 1e6) / 1e6;
  x.v[5] = std::round(r.uni(-.001, .001) * 1e6) / 1e6;
  x.v[6] = std::round(r.uni(-.004, .004) * 1e6) / 1e6;
  x.v[7] = std::round(r.uni(-.004, .004) * 1e6) / 1e6;
  return x;
}
static const long LEAPS[] = {50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754};
static void gen_file(Rng &r, Script &s, const char *name, int fmt, long mjd0, int n, int step_h) {
  s.add("f %s", name);
  if (fmt == F14) {
    static const char *H[] = {
        "               EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)",
        "                      INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE",
        "                                    EOP (IERS) 14 C04 TIME SERIES                 ",
        "               Description: https://hpiers.obspm.fr/eoppc/eop/eopc04/C04.guide.pdf", "  ",
        "             FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6),2(F11.6),2(F11.7),2(F12.6))",
        "##################################################################################",
        "      Date      MJD      x          y        UT1-UTC       LOD         dX        dY", "     (0h UTC)", ""};
    for (auto h : H)
      s.add("l %s", esc(h).c_str());
  } else {
    static const char *H[] = {"# EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY) - INTERNATIONAL EARTH "
                              "ROTATION AND REFERENCE SYSTEMS SERVICE",
                              "# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled at 0h UTC",
                              "# Contact: christian.bizouard@obspm.fr", "# Reference Precession-Nutation Model: IAU 2000",
                              "# YR  MM  DD  HH       MJD        x(\")        y(\")  UT1-UTC(s)       dX(\")      dY(\")       xrt(\")"};
    for (auto h : H)
      s.add("l %s", esc(h).c_str());
  }
  long hour = 0;
  for (int i = 0; i < n; i++) {
    long m = mjd0 + hour / 24;
    int h = (int)(hour % 24);
    hour += step_h;
    auto y = dso::modified_julian_day((int)m).to_ymd();
    R x = rand_rec(r, m, i);
    char b[400];
    if (fmt == F14) {
      snprintf(b, sizeof b, "%4d%4d%4d%7ld%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f",
               y.yr().as_underlying_type(), y.mn().as_underlying_type(), y.dm().as_underlying_type(), m, x.v[0], x.v[1],
               x.v[2], x.v[3], x.v[4], x.v[5], .00003, .00003, .000009, .000004, .00004, .00005);
    } else {
      snprintf(b, sizeof b,
               "%4d%4d%4d%4d%10.2f%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f",
               y.yr().as_underlying_type(), y.mn().as_underlying_type(), y.dm().as_underlying_type(), h, m + h / 24.0,
               x.v[0], x.v[1], x.v[2], x.v[4], x.v[5], x.v[6], x.v[7], x.v[3], .00003, .00003, .000009, .00004, .00005,
               .0001, .0001, .00001);
    }
    s.add("l %s", esc(b).c_str());
  }
}
static void gen_window(Rng &r, Script &s, const char *cmd, int mode, long mjd0, int days) {
  auto bound = [&](bool lo) -> std::pair<long, double> {
    long m = mjd0 + r.range(-3, days + 3);
    switch (r.below(5)) {
    case 0: { /* exactly on a record */
      auto t = dso::TwoPartDateUTC((int)m, dso::FractionalSeconds{0e0}).utc2tt();
      return {t.imjd(), t.seconds().seconds()};
    }
    case 1: { /* just off a record */
      auto t = dso::TwoPartDateUTC((int)m, dso::FractionalSeconds{0e0}).utc2tt();
      return {t.imjd(), t.seconds().seconds() + (r.chance(.5) ? 1e-6 : -1e-6)};
    }
    case 2:
      return {m, 0e0};
    case 3:
      return {m, r.uni(0, 86399)};
    default:
      return {lo ? mjd0 - 10 : mjd0 + days + 10, 0e0};
    }
  };
  auto a = bound(true), b = bound(false);
  if (r.chance(0.9) && (b.first < a.first || (b.first == a.first && b.second < a.second)))
    std::swap(a, b);
  if (r.chance(0.06)) {
    a.first = -2147483647L - 1;
    a.second = 0;
    if (r.chance(.7)) {
      b.first = 2147483647L;
      b.second = 0;
    }
  }
  s.add("%s %d %ld %.17g %ld %.17g", cmd, mode, a.first, a.second, b.first, b.second);
}

void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  if (prop == "C10" || prop == "C11") {
    const int nf = prop == "C10" ? r.range(1, 2) : 1;
    long m0[2];
    int days[2], fmt[2];
    for (int k = 0; k < nf; k++) {
      fmt[k] = r.below(2);
      const int step = fmt[k] == F20 && r.chance(.4) ? r.range(1, 30) : 24;
      const int n = prop == "C10" ? r.range(1, 60) : r.range(1, 25);
      m0[k] = r.chance(.4) ? LEAPS[r.below(8)] - r.range(0, 20) : r.range(41317, 60000);
      days[k] = n * step / 24;
      gen_file(r, s, k ? "eop1" : "eop0", fmt[k], m0[k], n, step);
    }
    if (cfg == "io" || prop == "C10")
      for (int k = 0; k < nf; k++)
        Files::gen_delivery(r, s, k ? "eop1" : "eop0");
    if (prop == "C11") {
      long nb = script_bytes(s, "eop0");
      if (cfg == "io")
        Files::gen_io_fault(r, s, "eop0", nb, 4);
      else
        Files::gen_damage(r, s, "eop0", nb);
      if (cfg == "io" && r.chance(.15))
        Files::gen_damage(r, s, "eop0", nb);
    }
    const int nl = r.range(1, 4);
    for (int i = 0; i < nl; i++) {
      int k = r.below(nf);
      int mode = r.chance(.5) ? FAUTO : fmt[k];
      gen_window(r, s, k ? "load1" : "load0", mode, m0[k], days[k]);
      if (prop == "C10")
        for (int q = r.below(3); q > 0; q--)
          s.add("ask %ld %.17g %d", m0[k] + r.range(0, days[k]), r.chance(.3) ? 0e0 : r.uni(0, 86399), r.range(1, 9));
    }
    return;
  }
  if (prop == "C12") {
    int nops = r.range(8, 40);
    long base = r.chance(.5) ? LEAPS[r.below(8)] - r.range(0, 8) : r.range(42000, 60000);
    auto q = [&](int slot) {
      long m = base + r.range(-2, 14);
      double sec = r.chance(.25) ? 69.184 + r.below(3) - 1 : r.chance(.2) ? 0e0 : r.uni(0, 86400);
      if (r.chance(.25))
        s.add("askrec %d %d %g %d", slot, r.below(30), r.chance(.5) ? 0e0 : r.chance(.5) ? 1e-3 : -1e-3, r.range(1, 9));
      else if (r.chance(.75))
        s.add("ask %d %ld %.17g %d", slot, m, sec, r.range(1, 9));
      else
        s.add("dut %d %ld %.17g", slot, m, sec);
    };
    s.add("gen 0 %ld %d %d %d", base, r.range(1, 14), r.chance(.7) ? 24 : r.range(1, 40), r.below(100000));
    bool has[3] = {true, false, false};
    int last = 0;
    for (int i = 0; i < nops; i++) {
      int a = r.below(3), b = r.below(3);
      if (!has[a] && r.chance(.85)) /* empty series answer little */
        a = r.chance(.6) ? last : a;
      if (!has[a] && r.chance(.8)) {
        s.add("gen %d %ld %d %d %d", a, base + r.range(-2, 4), r.range(1, 14), r.chance(.7) ? 24 : r.range(1, 40), r.below(100000));
        has[a] = true;
        last = a;
        continue;
      }
      switch (r.below(16)) {
      case 0:
        s.add("gen %d %ld %d %d %d", a, base + r.range(-2, 4), r.range(1, 14), r.chance(.7) ? 24 : r.range(1, 40), r.below(100000));
        break;
      case 1:
        s.add("push %d %d %d", a, r.range(1, 48), r.below(100000));
        break;
      case 2:
        s.add("assign %d %d", a, b);
        has[a] = has[b];
        break;
      case 3:
        s.add("cctor %d %d", a, b);
        has[a] = has[b];
        break;
      case 4:
        s.add("massign %d %d", a, b);
        if (a != b) {
          has[a] = has[b];
          has[b] = false;
        }
        break;
      case 5:
        s.add("mctor %d %d", a, b);
        if (a != b) {
          has[a] = has[b];
          has[b] = false;
        }
        break;
      case 6:
        s.add("destroy %d", a);
        has[a] = false;
        break;
      case 7:
        if (r.chance(.5)) {
          s.add("clear %d", a);
          has[a] = false;
        } else
          s.add("reset %d", a);
        break;
      case 8:
        s.add(r.chance(.5) ? "reg %d" : "dereg %d", a);
        break;
      default:
        q(a);
        if (r.chance(.4))
          q(a);
      }
    }
    return;
  }
#ifdef SIM_OWN_ALLOC
  if (prop == "C02") {
    long base = r.chance(.5) ? LEAPS[r.below(8)] - r.range(0, 8) : r.range(42000, 60000);
    s.add("gen 0 %ld %d %d %d", base, r.range(2, 14), r.chance(.7) ? 24 : r.range(1, 40), r.below(100000));
    if (r.chance(.3))
      s.add("warm %ld %.17g", base + r.range(0, 10), r.uni(0, 86400));
    const int nt = r.range(2, 4);
    for (int t = 0; t < nt; t++)
      for (int k = r.range(1, 4); k > 0; k--) {
        long m = base + r.range(-1, 13);
        double sec = r.chance(.2) ? 0 : r.uni(0, 86400);
        switch (r.below(6)) {
        case 0:
          s.add("t %d dut %ld %.17g", t, m, sec);
          break;
        case 1:
          s.add("t %d copyask %ld %.17g %d", t, m, sec, r.range(1, 9));
          break;
        case 2:
          s.add("t %d span", t);
          break;
        default:
          s.add("t %d ask %ld %.17g %d", t, m, sec, r.range(1, 9));
        }
      }
    SchedPlan::gen(r, s, nt, 6000);
  }
#endif
}

/* ---- execution ------------------------------------------------------------------ */
static R ask(const EopSeries &s, const MjdEpoch &t, int degree, Res &res) {
  EopRecord e;
  memset((void *)&e, 0x5a, sizeof e);
  {
    Lib l;
    res = s.interpolate(t, e, degree);
  }
  return rd(e);
}
static std::vector<R> gen_recs(const Tok &t) {
  std::vector<R> v;
  Rng r((uint64_t)t.i(5) + 77);
  long hour = 0;
  for (int i = 0; i < t.i(3); i++) {
    long m = t.i(2) + hour / 24;
    R x = rand_rec(r, m, i);
    dso::TwoPartDateUTC u((int)m, dso::FractionalSeconds{(double)(hour % 24) * 3600.0});
    x.t = u.utc2tt();
    x.dat = dso::dat(dso::modified_julian_day(u.imjd()));
    v.push_back(x);
    hour += t.i(4) > 0 ? t.i(4) : 1;
  }
  return v;
}

static void exec_files(const Script &s, const std::string &prop) {
  Files fs;
  std::vector<std::string> ops;
  for (auto &l : s.lines)
    if (!fs.feed(l))
      ops.push_back(l);
  fs.materialise();
  auto ser = std::make_unique<EopSeries>();
  std::vector<R> model;
  bool known = true; /* the series content is known (last load succeeded) */
  for (auto &l : ops) {
    Tok t(l);
    if (t.is("load0") || t.is("load1")) {
      const std::string name = t.is("load0") ? "eop0" : "eop1";
      const int mode = (int)t.i(1);
      const MjdEpoch a = ep(t.i(2), t.d(3)), b = ep(t.i(4), t.d(5));
      const int o = (int)Disk::opens(name);
      const long fired0 = Disk::fired(name);
      int st;
      {
        Lib lib;
        st = mode == FAUTO ? dso::parse_iers_C04(name.c_str(), a, b, *ser)
             : mode == F14 ? dso::details::parse_iers_C0414(name.c_str(), a, b, *ser)
                           : dso::details::parse_iers_C0420(name.c_str(), a, b, *ser);
      }
      opcount("load");
      evals();
      if (fs.recount(name, o, mode == FAUTO ? 2 : 1) && Disk::opens(name) - o > 0) {
        known = false;
        continue;
      }
      auto got = recs_of(*ser);
      trace("load %s mode %d -> %d, %zu records", name.c_str(), mode, st, got.size());
      /* what was served */
      int fmt = mode;
      bool wanterr = false, mayerr = Disk::fired(name) > fired0 || fs.damaged[name];
      const bool badwin = b <= a;
      auto hv = fs.view(name, o + 1);
      auto dv = mode == FAUTO ? fs.view(name, o + 2) : hv;
      if (mode == FAUTO) {
        bool ok = hv.exists && ref_choose(hv.text, true, fmt);
        if (!ok)
          wanterr = true;
      }
      Parsed P;
      if (!wanterr) {
        if (!dv.exists || badwin)
          wanterr = true;
        else {
          P = ref_parse(dv.text, dv.eio, fmt, a, b);
          if (!P.ok || (dv.eio && !P.stopped))
            wanterr = true;
        }
      }
      if (badwin)
        probe("window inverted");
      if (wanterr && st == 0)
        fail("error-as-success", "%s mode %d: load reports success, the file as served %s (%zu records returned)", name.c_str(), mode,
             badwin          ? "should not even be read (empty window)"
             : !dv.exists    ? "cannot be opened"
             : !P.ok         ? "has an unreadable record inside the read range"
             : dv.eio        ? "failed with an I/O error before the window ended"
                             : "has no valid header",
             got.size());
      if (!wanterr && st != 0 && !mayerr)
        fail("good-file-rejected", "%s mode %d: load returned %d for a well-formed file", name.c_str(), mode, st);
      if (!wanterr && st == 0) {
        if (!same_recs(got, P.recs, true)) {
          for (size_t k = 0; k < std::min(got.size(), P.recs.size()); k++)
            for (int c = 0; c < 8; c++)
              if (!same_num(got[k].v[c], P.recs[k].v[c]))
                fail("eop-field", "%s: record %zu %s = %.17g, file says %.17g", name.c_str(), k, FN[c], got[k].v[c], P.recs[k].v[c]);
          fail("eop-records", "%s: %zu records loaded, the window holds %zu (or epochs differ)", name.c_str(), got.size(), P.recs.size());
        }
        if (!mayerr || Disk::fired(name) > fired0 || fs.damaged[name])
          nontrivial();
        if (got.empty())
          probe("empty window");
        if (P.stopped)
          probe("file continues after window");
      }
      if (st) {
        probe(badwin ? "bad window reported" : "damage reported");
        nontrivial();
      }
      known = st == 0;
      if (known)
        model = got;
      state(fnvs(name + std::to_string(st) + "/" + std::to_string(got.size()) + "/" + std::to_string(mode)));
      simtime(std::min(1e9, 86400.0 * (double)got.size()));
    } else if (t.is("ask")) {
      if (!known || model.empty())
        continue;
      Res res;
      MjdEpoch e = ep(t.i(1), t.d(2));
      R g = ask(*ser, e, (int)t.i(3), res);
      check_interp(model, e, (int)t.i(3), res, g, "after load");
    }
  }
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  ser.reset();
  check_leaks("after the loads");
}

static void exec_hist(const Script &s) {
  std::unique_ptr<EopSeries> ser[3];
  std::vector<R> mod[3];
  for (auto &p : ser)
    p = std::make_unique<EopSeries>();
  for (auto &l : s.lines) {
    Tok t(l);
    const int a = (int)(t.i(1) % 3), b = (int)(t.i(2) % 3);
    opcount(t.s(0).c_str());
    if (t.is("gen")) {
      auto v = gen_recs(t);
      ser[a] = std::make_unique<EopSeries>();
      {
        Lib lib;
        for (auto &x : v)
          ser[a]->push_back(mk(x));
      }
      mod[a] = v;
    } else if (t.is("push")) {
      Rng r((uint64_t)t.i(3));
      R x = rand_rec(r, 0, 0);
      x.t = mod[a].empty() ? ep(50000 + t.i(3) % 9000, 69.184) : mod[a].back().t.add_seconds(dso::FractionalSeconds{t.i(2) * 3600.0});
      x.dat = dso::dat(dso::modified_julian_day(x.t.tt2utc().imjd()));
      {
        Lib lib;
        ser[a]->push_back(mk(x));
      }
      mod[a].push_back(x);
    } else if (t.is("assign")) {
      {
        Lib lib;
        *ser[a] = *ser[b];
      }
      mod[a] = std::vector<R>(mod[b]);
    } else if (t.is("cctor")) {
      std::unique_ptr<EopSeries> n;
      {
        Lib lib;
        n = std::make_unique<EopSeries>(*ser[b]);
      }
      ser[a] = std::move(n);
      mod[a] = std::vector<R>(mod[b]);
    } else if (t.is("massign") || t.is("mctor")) {
      if (a == b)
        continue;
      std::unique_ptr<EopSeries> n;
      {
        Lib lib;
        if (t.is("massign"))
          *ser[a] = std::move(*ser[b]);
        else
          n = std::make_unique<EopSeries>(std::move(*ser[b]));
      }
      if (n)
        ser[a] = std::move(n);
      mod[a] = mod[b];
      /* moved-from: valid but unspecified; restart it */
      ser[b] = std::make_unique<EopSeries>();
      mod[b].clear();
    } else if (t.is("destroy")) {
      ser[a] = std::make_unique<EopSeries>();
      mod[a].clear();
    } else if (t.is("clear")) {
      ser[a]->clear();
      mod[a].clear();
    } else if (t.is("reset")) {
      ser[a]->reset_vec_iterator();
    } else if (t.is("reg") || t.is("dereg")) {
      const double f = t.is("reg") ? -1e-6 : 1e-6;
      if (t.is("reg"))
        ser[a]->regularize();
      else
        ser[a]->deregularize();
      for (auto &x : mod[a]) {
        double fa[5], du, dl, dw;
        dso::fundarg(x.t, fa);
        dso::deop_zonal_tide(fa, du, dl, dw);
        x.v[2] += du * f;
        x.v[3] += dl * f;
      }
      probe("regularised");
    } else if (t.is("ask") || t.is("askrec")) {
      MjdEpoch e = ep(t.i(2), t.d(3));
      if (t.is("askrec")) {
        if (mod[a].empty())
          continue;
        e = mod[a][(size_t)t.i(2) % mod[a].size()].t.add_seconds(dso::FractionalSeconds{t.d(3)});
      }
      Res res;
      R g = ask(*ser[a], e, (int)t.i(4), res);
      trace("ask %d %s -> %d", a, t.s(0).c_str(), (int)res);
      if (mod[a].empty()) {
        if (!EopSeries::out_of_bounds(res))
          fail("eop-status", "an empty series answers a query as in range");
        probe("empty series queried");
        continue;
      }
      check_interp(mod[a], e, (int)t.i(4), res, g, "query");
      nontrivial();
      probe(res == Res::Linear ? "linear" : EopSeries::out_of_bounds(res) ? "out of span"
                                        : res == Res::PolyDegreeRequested ? "full degree" : "lowered degree");
      state(fnvs(std::to_string((int)res) + "/" + std::to_string(mod[a].size()) + "/" + std::to_string(t.i(4))));
      simtime(86400);
    } else if (t.is("dut")) {
      MjdEpoch e = ep(t.i(2), t.d(3));
      double d = 1e300;
      Res res;
      {
        Lib lib;
        res = ser[a]->approx_dut1(e, d);
      }
      if (mod[a].empty()) {
        if (!EopSeries::out_of_bounds(res))
          fail("eop-status", "an empty series answers a query as in range");
        continue;
      }
      evals();
      Want w = ref_lin(mod[a], e);
      if (res != w.res && !(w.any_first && res == Res::OutOfBoundsPrior))
        fail("eop-status", "approx_dut1 outcome %d, expected %d", (int)res, (int)w.res);
      if (!(fabsl((LD)d - w.v[2]) <= (w.exact ? 0 : 1e-12L * w.scale[2])))
        fail("eop-value", "approx_dut1 = %.17g, expected %.17Lg", d, w.v[2]);
      nontrivial();
    }
    /* every series still holds exactly its own records */
    for (int k = 0; k < 3; k++)
      if (!same_recs(recs_of(*ser[k]), mod[k], true))
        fail("eop-series-changed", "series %d does not hold its records after %s", k, t.s(0).c_str());
  }
  for (auto &p : ser)
    p.reset();
  check_leaks("at the end");
}

#ifdef SIM_OWN_ALLOC
static std::string run_op(const Tok &t, const EopSeries &s) {
  std::string out;
  auto put = [&](const void *p, size_t n) { out.append((const char *)p, n); };
  auto putrec = [&](const EopRecord &e, Res r) {
    double d[8] = {e.xp(), e.yp(), e.dut(), e.lod(), e.dX(), e.dY(), e.xp_rate(), e.yp_rate()};
    put(d, sizeof d);
    put(&r, sizeof r);
  };
  EopRecord e;
  if (t.s(2) == "ask") {
    Res r = s.interpolate(ep(t.i(3), t.d(4)), e, (int)t.i(5));
    putrec(e, r);
  } else if (t.s(2) == "copyask") {
    EopSeries c(s);
    Res r = c.interpolate(ep(t.i(3), t.d(4)), e, (int)t.i(5));
    putrec(e, r);
  } else if (t.s(2) == "dut") {
    double d = 0;
    Res r = s.approx_dut1(ep(t.i(3), t.d(4)), d);
    put(&d, sizeof d);
    put(&r, sizeof r);
  } else {
    int n = s.num_entries();
    auto a = s.first_epoch(), b = s.last_epoch();
    double d[2] = {a.as_mjd(), b.as_mjd()};
    put(&n, sizeof n);
    put(d, sizeof d);
  }
  return out;
}
static void exec_mt(const Script &s) {
  SchedPlan plan;
  std::vector<std::vector<Tok>> ops;
  EopSeries ser;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("gen"))
      for (auto &x : gen_recs(t))
        ser.push_back(mk(x));
    else if (t.is("warm")) {
      if (ser.num_entries()) {
        EopRecord e;
        ser.interpolate(ep(t.i(1), t.d(2)), e, 5);
      }
    } else if (t.is("t")) {
      size_t k = (size_t)t.i(1);
      if (ops.size() <= k)
        ops.resize(k + 1);
      ops[k].push_back(t);
    } else
      plan.feed(t);
  }
  if (!ser.num_entries())
    return;
  std::vector<std::vector<std::string>> want(ops.size()), got(ops.size());
  for (size_t i = 0; i < ops.size(); i++)
    for (auto &t : ops[i]) {
      want[i].push_back(in_fresh_process([&] {
        EopSeries alone;
        for (const auto &r : ser.give_me_the_vector())
          alone.push_back(r);
        return run_op(t, alone);
      }));
      opcount(t.s(2).c_str());
    }
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < ops.size(); i++)
    bodies.push_back([&, i] {
      for (auto &t : ops[i])
        got[i].push_back(run_op(t, ser));
    });
  run_threads(plan, bodies);
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t k = 0; k < ops[i].size(); k++) {
      evals();
      trace("thread %zu op %zu %016lx", i, k, (unsigned long)fnvs(got[i][k]));
      if (want[i][k].empty())
        fail("isolated-call-failed", "the query alone in a fresh process did not return");
      if (got[i][k] != want[i][k])
        fail("concurrent-result", "thread %zu query %zu (%s) differs from the same query alone", i, k, ops[i][k].s(2).c_str());
    }
  if (sched_switches() > 1) {
    nontrivial();
    probe("interleaved run");
  }
}
#endif

void world::execute(const Script &s, const std::string &prop) {
#ifdef SIM_OWN_ALLOC
  if (prop == "C02")
    return exec_mt(s);
#endif
  if (prop == "C12")
    exec_hist(s);
  else
    exec_files(s, prop);
}
