/* World "models": the models without state (C26).
 *   flavour "sched": 1-4 simulated threads evaluating any of them, also as the
 *                    first calls of the process
 *   flavour "asan":  long histories of evaluations in one thread, and entry
 *                    points that must agree
 * Oracle: the same evaluation alone, as the first of a fresh process, bit by
 * bit. */
#include "sim.hpp"
#ifdef SIM_OWN_ALLOC
#include "threads.hpp"
#endif
#include <cmath>
#include <map>
#include <sys/wait.h>
#include <memory>
#include <unistd.h>
#include "earth_rotation.hpp"
#include "eop.hpp"
#include "fcn.hpp"
#include "fundarg.hpp"
#include "iau.hpp"
#include "pole_tide.hpp"
#include "relativity.hpp"
#include "solid_earth_tide.hpp"
using namespace dso;
using sim::Lib;
using sim::NoLib;
using sim::Rng;
using sim::Script;
using sim::Tok;
const char *const world::name = "models";

/* ---- arguments -------------------------------------------------------------------- */
struct Par {
  double xp, yp, dut, lod, dx, dy, x, y, lat, lon, gmst;
  double f[14];
  double sat[6], sun[6], moon[3], sta[3];
  bool own;    /* constants of the caller, not the default ones */
  double c[6]; /* factors of the constants */
};
static Par par(const Tok &t) {
  /* two seeds; the mask says which fields come from the second: arguments that
   * differ in a few fields only */
  Rng a((uint64_t)t.i(2)), b((uint64_t)t.i(3));
  const unsigned m = (unsigned)t.i(4);
  int n = 0;
  auto u = [&](double lo, double hi) {
    const double x = a.uni(lo, hi), y = b.uni(lo, hi);
    return m >> (n++ % 24) & 1 ? y : x;
  };
  Par p;
  p.xp = u(-.5, .7);
  p.yp = u(-.5, .7);
  p.dut = u(-.9, .9);
  p.lod = u(-.004, .004);
  p.dx = u(-.001, .001);
  p.dy = u(-.001, .001);
  p.x = u(-3e-3, 3e-3);
  p.y = u(-3e-3, 3e-3);
  p.lat = u(-1.5707, 1.5707);
  p.lon = u(-3.1415, 3.1415);
  p.gmst = u(0, 6.283);
  for (auto &f : p.f)
    f = u(0, 6.283);
  const double r = u(6.6e6, 4e7), ra = u(0, 6.283), in = u(-1.5, 1.5), v = u(3e3, 7.9e3);
  p.sat[0] = r * std::cos(ra) * std::cos(in);
  p.sat[1] = r * std::sin(ra) * std::cos(in);
  p.sat[2] = r * std::sin(in);
  p.sat[3] = -v * std::sin(ra);
  p.sat[4] = v * std::cos(ra);
  p.sat[5] = v * u(-.3, .3);
  const double sl = u(0, 6.283), sb = u(-.4, .4), ml = u(0, 6.283), mb = u(-.49, .49);
  p.sun[0] = 1.5e11 * std::cos(sl) * std::cos(sb);
  p.sun[1] = 1.5e11 * std::sin(sl) * std::cos(sb);
  p.sun[2] = 1.5e11 * std::sin(sb);
  p.sun[3] = -3e4 * std::sin(sl);
  p.sun[4] = 3e4 * std::cos(sl);
  p.sun[5] = u(-1e3, 1e3);
  const double md = u(3.56e8, 4.07e8), h = u(-1e3, 4e3);
  p.moon[0] = md * std::cos(ml) * std::cos(mb);
  p.moon[1] = md * std::sin(ml) * std::cos(mb);
  p.moon[2] = md * std::sin(mb);
  p.sta[0] = (6.371e6 + h) * std::cos(p.lat) * std::cos(p.lon);
  p.sta[1] = (6.371e6 + h) * std::cos(p.lat) * std::sin(p.lon);
  p.sta[2] = (6.371e6 + h) * std::sin(p.lat);
  p.own = u(0, 1) < .5;
  for (auto &x : p.c)
    x = u(.9, 1.1);
  return p;
}
/* ---- what one thread owns: argument buffers it reuses, and objects ----------------- */
struct Mine {
  double f[14];
  Eigen::Matrix<double, 6, 1> a, b;
  Eigen::Matrix<double, 3, 1> sta, sun, moon;
  EopRecord eop;
  /* models with own storage, of different constants: results must not depend on
   * earlier calls, nor on which model came first */
  std::unique_ptr<SolidEarthTide> tide[2];
  SolidEarthTide &solid(bool own) {
    auto &p = tide[own];
    if (!p)
      p = own ? std::make_unique<SolidEarthTide>(::iers2010::GMe * 1.01, ::iers2010::Re * .99, 1.3e20, .5e13) : std::make_unique<SolidEarthTide>();
    return *p;
  }
  std::vector<fcn::LambertCoefficients> table;
};
struct Out {
  double v[64];
  int n = 0;
  void operator()(double x) { v[n++] = x; }
  void q(const Eigen::Quaterniond &x) { (*this)(x.w()), (*this)(x.x()), (*this)(x.y()), (*this)(x.z()); }
};
__attribute__((noinline)) static void dirty(unsigned k) {
  volatile unsigned char b[6000];
  for (size_t i = 0; i < sizeof b; i++)
    b[i] = (unsigned char)(k + i * (k | 1));
}
static const char *const OPS[] = {"fundarg", "derivs", "fa", "era", "gmst", "dgmst", "gmst82", "sp00", "xy", "xyx", "s06", "s06f",
                                  "dx", "dy", "dxy", "ds", "c2i", "c2id", "c2ib", "c2is", "gcrs", "otide", "libra", "zonal", "pole", "relat", "fcn", "fcnv",
                                  "ptide", "ptdef", "optide", "optdef", "setc", "setd", "rate"};
static const int NOPS = sizeof OPS / sizeof *OPS;
static void eval(const std::string &op, const MjdEpoch &t, const Par &p, Mine &w, Out &o) {
  for (int k = 0; k < 14; k++)
    w.f[k] = p.f[k];
  for (int k = 0; k < 6; k++)
    w.a(k) = p.sat[k], w.b(k) = p.sun[k];
  for (int k = 0; k < 3; k++)
    w.sta(k) = p.sta[k], w.sun(k) = p.sun[k], w.moon(k) = p.moon[k];
  w.eop.t() = t;
  w.eop.xp() = p.xp, w.eop.yp() = p.yp, w.eop.dut() = p.dut, w.eop.lod() = p.lod, w.eop.dX() = p.dx, w.eop.dY() = p.dy;
  const double c = t.jcenturies_sinceJ2000();
  const MjdEpoch ut1 = t.tt2ut1(p.dut);
  double g[14], a = -1, b = -2, d = -3, e = -4;
  for (auto &x : g)
    x = -9;
  Lib lib;
  if (op == "fundarg") {
    dso::iers2010::fundarg(c, w.f);
    dso::fundarg(t, g);
    for (int k = 0; k < 5; k++)
      o(w.f[k]), o(g[k]);
  } else if (op == "derivs") {
    dso::iers2010::fundarg_derivs(c, w.f);
    dso::fundarg_derivs(t, g);
    for (int k = 0; k < 5; k++)
      o(w.f[k]), o(g[k]);
  } else if (op == "fa") {
    o(fal03(t)), o(falp03(t)), o(faf03(t)), o(fad03(t)), o(faom03(t)), o(fame03(t)), o(fave03(t)), o(fae03(t)), o(fama03(t)), o(faju03(t)), o(fasa03(t)), o(faur03(t)), o(fane03(t)), o(fapa03(t));
    o(dfal03(t)), o(dfalp03(t)), o(dfaf03(t)), o(dfad03(t)), o(dfaom03(t));
  } else if (op == "era")
    o(era00(ut1));
  else if (op == "gmst")
    o(gmst(t, ut1));
  else if (op == "dgmst")
    o(dgmst(t));
  else if (op == "gmst82")
    o(gmst82(ut1));
  else if (op == "sp00")
    o(sp00(t));
  else if (op == "xy") {
    o(dso::xycip06a(t, a, b, p.xp > 0 ? g : nullptr));
    o(a), o(b);
    for (double x : g)
      o(x);
  } else if (op == "xyx") {
    o(dso::extra::xycip06a(t, a, b, p.xp > 0 ? g : nullptr));
    o(a), o(b);
    for (double x : g)
      o(x);
  } else if (op == "s06")
    o(dso::s06(t, p.x, p.y));
  else if (op == "s06f")
    o(dso::s06(t, p.x, p.y, w.f));
  else if (op == "dx")
    o(detail::xcip06a(w.f, c));
  else if (op == "dy")
    o(detail::ycip06a(w.f, c));
  else if (op == "dxy") {
    o(detail::xycip06a(w.f, c, a, b));
    o(a), o(b);
  } else if (op == "ds")
    o(detail::s06(w.f, c, p.x, p.y));
  else if (op == "c2i")
    o.q(c2i06a(t, w.eop));
  else if (op == "c2id") {
    Eigen::Matrix3d M;
    o.q(c2i06a(t, w.eop, M));
    for (int k = 0; k < 9; k++)
      o(M(k / 3, k % 3));
  } else if (op == "c2ib")
    o.q(c2i06a_bz(t, w.eop));
  else if (op == "c2is") {
    Eigen::Quaterniond q, r;
    const Eigen::Vector3d v = c2i06a(t, w.eop, q, r);
    o.q(q), o.q(r);
    o(v(0)), o(v(1)), o(v(2));
  } else if (op == "gcrs")
    o.q(detail::gcrs2itrs_quaternion(p.gmst, p.dx * 1e-3, p.dy * 1e-3, p.x, p.y, p.xp * 1e-6, p.yp * 1e-6));
  else if (op == "otide") {
    o(deop_ocean_tide(w.f, p.gmst, a, b, d, e));
    o(a), o(b), o(d), o(e);
  } else if (op == "libra") {
    o(deop_libration(w.f, p.gmst, a, b, d, e));
    o(a), o(b), o(d), o(e);
  } else if (op == "zonal") {
    o(deop_zonal_tide(w.f, a, b, d));
    o(a), o(b), o(d);
  } else if (op == "pole") {
    const auto s = secular_pole(t);
    o(s.xs), o(s.ys);
  } else if (op == "relat") {
    const Eigen::Matrix<double, 3, 1> r =
        p.own ? iers2010_relativistic_acceleration(w.a, w.b, ::iers2010::GMe * p.c[0], ::iers2010::GMs * p.c[1], ::iers2010::Je * p.c[2],
                                                   ::iers2010::C * p.c[3], p.c[4], p.c[5])
              : iers2010_relativistic_acceleration(w.a, w.b);
    o(r(0)), o(r(1)), o(r(2));
  } else if (op == "fcn" || op == "fcnv") {
    /* the vector's storage is released inside */
    const auto r = op == "fcn" ? lambert_fcn(t) : lambert_fcn(t, fcn::load_iers10_table52c());
    o(r.xcip), o(r.ycip), o(r.sxcip), o(r.sycip);
  } else if (op == "ptide") {
    o(PoleTide::stokes_coeffs(t, p.xp, p.yp, a, b));
    o(a), o(b);
  } else if (op == "ptdef") {
    SphericalCrd s;
    s.r() = 6.4e6, s.lat() = p.lat, s.lon() = p.lon;
    const auto r = PoleTide::deformation(t, p.xp, p.yp, SphericalCrdConstView(s));
    o(r.x()), o(r.y()), o(r.z());
  } else if (op == "optide") {
    o(OceanPoleTide::stokes_coeffs(t, p.xp, p.yp, a, b));
    o(a), o(b);
  } else if (op == "optdef") {
    SphericalCrd s;
    s.r() = 6.4e6, s.lat() = p.lat, s.lon() = p.lon;
    OceanPoleTideDesaiCoeffs c{p.f[0], p.f[1], p.f[2], p.f[3], p.f[4], p.f[5]};
    const auto r = p.own ? OceanPoleTide::deformation(t, p.xp, p.yp, SphericalCrdConstView(s), c, ::iers2010::Re * p.c[0], ::iers2010::GMe * p.c[1],
                                                      ::iers2010::OmegaEarth * p.c[2], ::iers2010::G * p.c[3], ::iers2010::ge * p.c[4])
                         : OceanPoleTide::deformation(t, p.xp, p.yp, SphericalCrdConstView(s), c);
    o(r.x()), o(r.y()), o(r.z());
  } else if (op == "setc") {
    auto &T = w.solid(p.own);
    o(T.stokes_coeffs(t, ut1, w.moon, w.sun, w.f));
    const auto &q = T.stokes_coeffs();
    for (int m = 0; m <= 4; m++)
      for (int n = m; n <= 4; n++)
        o(q.C(n, m)), o(q.S(n, m));
  } else if (op == "setd") {
    const Eigen::Matrix<double, 3, 1> r = w.solid(p.own).displacement(t, ut1, w.sta, w.moon, w.sun, w.f);
    o(r(0)), o(r(1)), o(r(2));
  } else if (op == "rate") {
    const auto r = earth_rotation_axis(p.lod);
    o(r(0)), o(r(1)), o(r(2)), o(earth_rotation_rate(p.lod));
  }
}
static std::string bytes(const Out &o) { return std::string((const char *)o.v, sizeof(double) * (size_t)o.n); }
static double at(const std::string &s, size_t k) {
  double d;
  memcpy(&d, s.data() + 8 * k, 8);
  return d;
}

/* ---- generation ---------------------------------------------------------------------- */
static void gen_args(Rng &r, Script &s, int ne, int np) {
  const long base = r.chance(.15) ? r.range(30000, 37000) : r.range(41400, 62000);
  for (int k = 0; k < ne; k++)
    s.add("ep %d %ld %.17g", k, r.chance(.4) ? base : r.range(41400, 62000), r.chance(.2) ? 0. : r.chance(.2) ? 43200. + k : r.uni(0, 86400));
  const int a = r.range(1, 100000);
  for (int k = 0; k < np; k++)
    s.add("par %d %d %d %u", k, r.chance(.6) ? a : r.range(1, 100000), r.range(1, 100000), r.chance(.5) ? 1u << r.below(24) : (unsigned)r.below(1 << 24));
}
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  const int ne = r.range(1, 4), np = r.range(1, 4);
  gen_args(r, s, ne, np);
  const bool few = r.chance(.4); /* many calls of few models */
  const int f[3] = {r.below(NOPS), r.below(NOPS), r.below(NOPS)};
  auto op = [&]() { return few ? OPS[f[r.below(3)]] : OPS[r.below(NOPS)]; };
#ifdef SIM_OWN_ALLOC
  const int nt = r.range(2, 4);
  for (int t = 0; t < nt; t++)
    for (int k = r.range(1, 4); k > 0; k--)
      s.add("t %d %s %d %d", t, op(), r.below(ne), r.below(np));
  sim::SchedPlan::gen(r, s, nt, 3000);
#else
  for (int k = cfg == "agree" ? r.range(1, 6) : r.range(4, 24); k > 0; k--)
    if (cfg == "agree")
      s.add("agree %d %d", r.below(ne), r.below(np));
    else
      s.add("t 0 %s %d %d", op(), r.below(ne), r.below(np));
#endif
}

/* ---- execution ------------------------------------------------------------------------- */
struct World {
  std::map<long, MjdEpoch> ep;
  std::map<long, Par> pr;
  MjdEpoch epoch(long k) {
    auto i = ep.find(k);
    return i == ep.end() ? MjdEpoch(51544, FractionalSeconds{0.}) : i->second;
  }
  Par params(long k) {
    auto i = pr.find(k);
    return i == pr.end() ? par(Tok("par 0 1 1 0")) : i->second;
  }
  bool feed(const Tok &t) {
    if (t.is("ep"))
      ep.insert_or_assign(t.i(1), MjdEpoch((int)t.i(2), FractionalSeconds{t.d(3)}));
    else if (t.is("par"))
      pr.insert_or_assign(t.i(1), par(t));
    else
      return false;
    return true;
  }
};
static std::string run(World &w, const Tok &t, Mine &m, unsigned mess) {
  Out o;
  const MjdEpoch e = w.epoch(t.i(3));
  const Par p = w.params(t.i(4));
  dirty(mess);
  eval(t.s(2), e, p, m, o);
  return bytes(o);
}
static std::string alone(World &w, const Tok &t) {
  auto f = [&] {
    Mine m;
    return run(w, t, m, 0);
  };
#ifdef SIM_OWN_ALLOC
  return sim::in_fresh_process(f);
#else
  int p[2];
  if (pipe(p))
    _exit(4);
  const pid_t pid = fork();
  if (!pid) {
    const std::string r = f();
    if (write(p[1], r.data(), r.size()) != (ssize_t)r.size())
      _exit(3);
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char b[4096];
  ssize_t n;
  while ((n = ::read(p[0], b, sizeof b)) > 0)
    r.append(b, (size_t)n);
  close(p[0]);
  waitpid(pid, nullptr, 0);
  return r;
#endif
}
static void differs(const Tok &t, const char *how, const std::string &got, const std::string &want) {
  size_t k = 0;
  while (8 * k + 8 <= std::min(got.size(), want.size()) && !memcmp(&got[8 * k], &want[8 * k], 8))
    k++;
  if (8 * k + 8 <= std::min(got.size(), want.size()))
    sim::fail(how, "%s: value %zu is %.17g, the same evaluation alone gives %.17g", t.s(2).c_str(), k, at(got, k), at(want, k));
  sim::fail(how, "%s: %zu values, alone %zu", t.s(2).c_str(), got.size() / 8, want.size() / 8);
}

/* ---- entry points that must agree -------------------------------------------------------- */
static double g_worst;
static void same(const char *what, double a, double b, double tol) {
  if (!(std::fabs(a - b) <= tol))
    sim::fail("disagree", "%s: %.17g and %.17g", what, a, b);
  g_worst = std::max(g_worst, std::fabs(a - b) / tol);
}
/* angles */
static void samea(const char *what, double a, double b, double tol) { same(what, std::remainder(a - b, 2 * M_PI), 0, tol); }
static void sameq(const char *what, const Eigen::Quaterniond &a, const Eigen::Quaterniond &b, double tol) {
  const double s = a.dot(b) < 0 ? -1 : 1;
  for (int k = 0; k < 4; k++)
    same(what, a.coeffs()(k), s * b.coeffs()(k), tol);
}
static Eigen::Quaterniond quat(const std::string &s, size_t k) { return Eigen::Quaterniond(at(s, k), at(s, k + 1), at(s, k + 2), at(s, k + 3)); }
static void agree(World &w, const Tok &t) {
  const MjdEpoch e = w.epoch(t.i(1));
  const Par p = w.params(t.i(2));
  const double c = e.jcenturies_sinceJ2000();
  Mine m;
  auto get = [&](const char *op) {
    Out o;
    dirty(77);
    eval(op, e, p, m, o);
    return bytes(o);
  };
  const std::string fa = get("fa"), fu = get("fundarg"), de = get("derivs");
  double g[19];
  {
    Lib lib;
    using namespace dso::iers2010;
    g[0] = fal03(c), g[1] = falp03(c), g[2] = faf03(c), g[3] = fad03(c), g[4] = faom03(c), g[5] = fame03(c), g[6] = fave03(c), g[7] = fae03(c), g[8] = fama03(c), g[9] = faju03(c), g[10] = fasa03(c), g[11] = faur03(c), g[12] = fane03(c), g[13] = fapa03(c);
    g[14] = dfal03(c), g[15] = dfalp03(c), g[16] = dfaf03(c), g[17] = dfad03(c), g[18] = dfaom03(c);
  }
  static const char *N[] = {"fal03", "falp03", "faf03", "fad03", "faom03", "fame03", "fave03", "fae03", "fama03", "faju03", "fasa03", "faur03", "fane03", "fapa03", "dfal03", "dfalp03", "dfaf03", "dfad03", "dfaom03"};
  for (int k = 0; k < 14; k++)
    samea(N[k], at(fa, (size_t)k), g[k], 1e-9);
  for (int k = 14; k < 19; k++)
    same(N[k], at(fa, (size_t)k), g[k], 1e-12 * std::fabs(g[k]));
  for (int k = 0; k < 5; k++) {
    samea("fundarg", at(fu, 2 * (size_t)k), g[k], 1e-9);
    samea("fundarg (epoch)", at(fu, 2 * (size_t)k + 1), g[k], 1e-9);
    same("fundarg_derivs", at(de, 2 * (size_t)k), g[14 + k], 1e-12 * std::fabs(g[14 + k]));
    same("fundarg_derivs (epoch)", at(de, 2 * (size_t)k + 1), g[14 + k], 1e-12 * std::fabs(g[14 + k]));
  }
  /* the CIP */
  const std::string x1 = get("xy"), x2 = get("xyx");
  for (size_t k = 1; k < 3; k++)
    same("xycip06a and extra::xycip06a", at(x1, k), at(x2, k), 1e-14);
  if (p.xp > 0)
    for (size_t k = 3; k < 17; k++) {
      samea("arguments of xycip06a", at(x1, k), g[k - 3], 1e-9);
      samea("arguments of extra::xycip06a", at(x2, k), g[k - 3], 1e-9);
    }
  const double uas = M_PI / 180 / 3600 * 1e-6;
  double X, Y, x, y, s1, s2, s3;
  {
    Lib lib;
    detail::xycip06a(g, c, X, Y);
    x = detail::xcip06a(g, c);
    y = detail::ycip06a(g, c);
    s1 = dso::s06(e, p.x, p.y);
    s2 = dso::s06(e, p.x, p.y, g);
    s3 = detail::s06(g, c, p.x, p.y);
  }
  same("detail::xycip06a and detail::xcip06a", X, x, 1e-14 / uas);
  same("detail::xycip06a and detail::ycip06a", Y, y, 1e-14 / uas);
  same("detail::xcip06a and xycip06a", x * uas, at(x1, 1), 1e-14);
  same("detail::ycip06a and xycip06a", y * uas, at(x1, 2), 1e-14);
  same("s06", s1, s2, 1e-15);
  same("detail::s06", s1, s3, 1e-15);
  /* the rotation */
  const std::string q1 = get("c2i"), q2 = get("c2id"), q3 = get("c2ib"), q4 = get("c2is");
  const Eigen::Quaterniond q = quat(q1, 0), qa = quat(q4, 0), qb = quat(q4, 4);
  sameq("c2i06a with and without derivative", q, quat(q2, 0), 1e-13);
  sameq("c2i06a and c2i06a_bz", q, quat(q3, 0), 1e-13);
  sameq("c2i06a and its two parts", q, qb * qa, 1e-13);
  same("norm of the rotation", q.norm(), 1, 1e-13);
  same("rotation axis", at(q4, 8), 0, 0);
  same("rotation axis", at(q4, 9), 0, 0);
  {
    /* the derivative is that of the rotation it comes with */
    Eigen::Matrix3d J = Eigen::Matrix3d::Zero();
    J(0, 1) = at(q4, 10);
    J(1, 0) = -at(q4, 10);
    const Eigen::Matrix3d M = qb.toRotationMatrix() * J * qa.toRotationMatrix();
    for (int k = 0; k < 9; k++)
      same("derivative of the rotation", at(q2, 4 + (size_t)k), M(k / 3, k % 3), 1e-16);
  }
  {
    const std::string a = get("gcrs");
    double d, ee;
    Eigen::Quaterniond b, cq, cx;
    Eigen::Matrix3d cm;
    {
      Lib lib;
      detail::xycip2spherical(p.x, p.y, d, ee);
      b = detail::c2i(p.gmst, p.dx * 1e-3, p.dy * 1e-3, d, ee, p.xp * 1e-6, p.yp * 1e-6);
      cx = detail::tirs2i(p.xp * 1e-6, p.yp * 1e-6, p.dy * 1e-3) * detail::c2tirs(p.gmst, p.dx * 1e-3, d, ee);
    }
    sameq("gcrs2itrs_quaternion and c2i", quat(a, 0), b, 1e-13);
    sameq("c2i and tirs2i after c2tirs", b, cx, 1e-13);
  }
  /* free core nutation */
  const std::string f1 = get("fcn"), f2 = get("fcnv");
  for (size_t k = 0; k < 4; k++)
    same("lambert_fcn", at(f1, k), at(f2, k), 1e-9);
  sim::state((uint64_t)(c * 1e12));
  sim::probe("entry points compared");
  sim::trace("agree %ld %ld: worst %.2g of the tolerance", t.i(1), t.i(2), g_worst);
}

void world::execute(const Script &s, const std::string &) {
  World w;
  for (auto &l : s.lines)
    w.feed(Tok(l));
#ifdef SIM_OWN_ALLOC
  sim::SchedPlan plan;
  std::vector<std::vector<Tok>> ops;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("t")) {
      const size_t k = (size_t)(t.i(1) & 7);
      if (ops.size() <= k)
        ops.resize(k + 1);
      ops[k].push_back(t);
    } else if (!t.is("ep") && !t.is("par"))
      plan.feed(t);
  }
  std::vector<std::vector<std::string>> want(ops.size()), got(ops.size());
  std::vector<Mine> mine(ops.size());
  for (size_t i = 0; i < ops.size(); i++) {
    got[i].reserve(ops[i].size());
    for (auto &t : ops[i]) {
      want[i].push_back(alone(w, t));
      sim::opcount(t.s(2).c_str());
    }
  }
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < ops.size(); i++)
    bodies.push_back([&, i] {
      for (auto &t : ops[i])
        got[i].push_back(run(w, t, mine[i], 0x9e + (unsigned)got[i].size() * 77));
    });
  sim::run_threads(plan, bodies);
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t k = 0; k < ops[i].size(); k++) {
      sim::evals();
      sim::trace("thread %zu op %zu %s %016lx", i, k, ops[i][k].s(2).c_str(), (unsigned long)sim::fnvs(got[i][k]));
      if (want[i][k].empty())
        sim::fail("isolated-call-failed", "%s alone in a fresh process did not return", ops[i][k].s(2).c_str());
      if (got[i][k] != want[i][k])
        differs(ops[i][k], "concurrent-result", got[i][k], want[i][k]);
    }
  if (sim::sched_switches() > 1) {
    sim::nontrivial();
    sim::probe("interleaved run");
  }
#else
  std::map<std::string, std::string> seen; /* what each evaluation gives alone */
  {
    std::vector<std::pair<Tok, std::string>> ops;
    for (auto &l : s.lines) {
      Tok t(l);
      if (!t.is("t"))
        continue;
      auto i = seen.find(l);
      if (i == seen.end())
        i = seen.emplace(l, alone(w, t)).first;
      else
        sim::probe("evaluated again");
      ops.emplace_back(t, i->second);
    }
    Mine m;
    unsigned n = 1;
    for (auto &o : ops) {
      sim::opcount(o.first.s(2).c_str());
      const std::string got = run(w, o.first, m, n++ * 0x47);
      sim::evals();
      sim::trace("%s %ld %ld %016lx", o.first.s(2).c_str(), o.first.i(3), o.first.i(4), (unsigned long)sim::fnvs(got));
      if (o.second.empty())
        sim::fail("isolated-call-failed", "%s alone in a fresh process did not return", o.first.s(2).c_str());
      if (got != o.second)
        differs(o.first, "history-dependent", got, o.second);
      sim::state(sim::fnvs(got));
      sim::nontrivial();
    }
  }
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("agree")) {
      sim::opcount("agree");
      sim::evals();
      agree(w, t);
      sim::nontrivial();
    }
  }
#endif
}
