/* World "fcn": free core nutation amplitude files on the simulated disk and
 * model evaluation (C21). cfgs "x" well formed, "io" delivery faults, "dmg"
 * damage. Memory is limited: no request may exceed 64 MB. */
#include "sim.hpp"
#include "files.hpp"
#include "numrow.hpp"
#include "fcn.hpp"
#include <cmath>
#include <memory>
using namespace sim;
using numrow::Q;
typedef long double LD;
const char *const world::name = "fcn";
typedef std::vector<dso::fcn::LambertCoefficients> Vec;
struct Ent {
  double mjd, re, im, sg;
};
struct Ref {
  bool bad = false, vague = false;
  std::string why;
  std::vector<Ent> e;
};
static Ref ref_parse(const Files::View &v, double from, double to) {
  Ref o;
  auto L = text_lines(v.text);
  if (L.empty()) {
    o.bad = true;
    o.why = "the file is empty";
    return o;
  }
  size_t p = L[0].find_first_not_of(' ');
  if (p == std::string::npos || L[0][p] != '%') {
    o.bad = true;
    o.why = "there is no header";
    return o;
  }
  if (L[0].size() >= 127)
    o.vague = true;
  size_t rows = 0;
  for (size_t k = 1; k < L.size(); k++) {
    const std::string &l = L[k];
    std::vector<double> x;
    if (numrow::blank(l) || l.size() >= 127) {
      o.vague = true;
      continue;
    }
    rows++;
    Q q = numrow::row(l, "rrrrr", x);
    if (q == Q::VAGUE) {
      o.vague = true;
      continue;
    }
    if (q == Q::BAD) {
      /* outside the window the rest of the row may not be looked at */
      if (x.size() >= 2 && !(x[1] >= from && x[1] < to))
        o.vague = true;
      if (!o.bad)
        o.why = "unreadable row: " + l.substr(0, 100);
      o.bad = true;
      continue;
    }
    if (std::fabs(x[1]) > 1e7)
      o.vague = true;
    if (x[1] >= from && x[1] < to)
      o.e.push_back({x[1], x[2], x[3], x[4]});
  }
  if (rows > 900)
    o.vague = true;
  return o;
}
struct FcnVal {
  LD v[4], mag[4];
};
static FcnVal ref_fcn(const std::vector<Ent> &e, int day, double sec) {
  const LD t = (LD)day + (LD)sec / 86400;
  const LD phi = 2 * 3.14159265358979323846264338327950288L / -430.21L * (t - 51544.5L);
  LD xc, xs, s;
  const size_t n = e.size();
  if (t < e[0].mjd) {
    xc = e[0].re, xs = e[0].im, s = e[0].sg + .3L * (e[0].mjd - t);
  } else if (t >= e[n - 1].mjd) {
    xc = e[n - 1].re, xs = e[n - 1].im, s = e[n - 1].sg + .3L * (t - e[n - 1].mjd);
  } else {
    size_t k = 0;
    while (!(t >= e[k].mjd && t < e[k + 1].mjd))
      k++;
    const LD f = (t - e[k].mjd) / ((LD)e[k + 1].mjd - e[k].mjd);
    xc = e[k].re + f * ((LD)e[k + 1].re - e[k].re);
    xs = e[k].im + f * ((LD)e[k + 1].im - e[k].im);
    s = fabsl(e[k].sg + f * ((LD)e[k + 1].sg - e[k].sg));
  }
  const LD c = cosl(phi), d = sinl(phi), M = fabsl(xc) + fabsl(xs);
  /* Yc = Xs, Ys = -Xc; same uncertainty for cosine and sine amplitude */
  FcnVal r{{xc * c - xs * d, xs * c + xc * d, 2 * s, 2 * s}, {M, M, fabsl(2 * s), fabsl(2 * s)}};
  return r;
}
/* IERS 2010 Table 5.2c, anchors */
static const Ent T52[] = {{45700, 4.55, -36.58, 19.72}, {46066, -141.82, -105.35, 11.12}, {46431, -246.56, -170.21, 9.47}, {46796, -281.89, -159.24, 8.65},
                          {47161, -255.05, -43.58, 8.11}, {47527, -210.46, -88.56, 7.31}, {47892, -187.79, -57.35, 6.41}, {48257, -163.01, 26.26, 5.52},
                          {48622, -145.53, 44.65, 4.80}, {48988, -145.12, 51.49, 5.95}, {49353, -109.93, 16.87, 9.45}, {49718, -87.30, 5.36, 8.25},
                          {50083, -90.61, 1.52, 7.67}, {50449, -94.73, 35.35, 4.40}, {50814, -67.52, 27.57, 3.40}, {51179, -44.11, -14.31, 3.45},
                          {51544, 5.21, -74.87, 3.26}, {51910, 70.37, -129.66, 2.86}, {52275, 86.47, -127.84, 2.75}, {52640, 110.44, -42.73, 2.59},
                          {53005, 114.78, -0.13, 2.53}, {53371, 132.96, -4.78, 2.72}, {53736, 157.36, 28.63, 2.19}, {54101, 160.40, 58.87, 1.87},
                          {54466, 156.76, 101.24, 1.74}, {54832, 142.99, 143.01, 1.89}, {55197, 33.70, 184.46, 1.95}, {55562, 0.76, 253.70, 1.14},
                          {55927, 25.47, 271.66, 1.07}, {56293, 113.42, 256.50, 1.86}};

/* ---- generation --------------------------------------------------------------- */
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  s.add("f amp");
  s.add("l %s", esc(r.chance(.7) ? "%           mjd     real     imag    sigma  (all in microas)" : "  % year mjd re im sg").c_str());
  const int n = r.chance(.1) ? r.range(0, 1) : r.chance(.1) ? r.range(100, 160) : r.range(2, 30);
  double mjd = r.range(30000, 60000) + (r.chance(.5) ? 0 : r.below(10) * .1);
  std::vector<double> at;
  for (int k = 0; k < n; k++) {
    char b[120];
    snprintf(b, sizeof b, r.chance(.8) ? "%.1f  %.1f %9.2f %9.2f %9.2f" : "%.2f %.1f %.3f %.3f %.3f", 1858.877 + mjd / 365.25, mjd, r.uni(-300, 300),
             r.uni(-300, 300), r.uni(1, 20));
    s.add("l %s", esc(b).c_str());
    char q[40];
    snprintf(q, sizeof q, "%.1f", mjd);
    at.push_back(atof(q));
    mjd += r.chance(.7) ? 182.6 : r.chance(.5) ? .1 * r.range(1, 3000) : r.range(1, 400);
  }
  const long B = script_bytes(s, "amp");
  if (r.chance(.2))
    s.add("trunc amp %ld", B - 1);
  if (cfg != "dmg")
    Files::gen_delivery(r, s, "amp", B);
  if (cfg == "io")
    Files::gen_io_fault(r, s, "amp", B, 3);
  if (cfg == "dmg")
    Files::gen_damage(r, s, "amp", B);
  auto edge = [&]() {
    /* never close beside an entry, but often exactly on one */
    double x = at.empty() || r.chance(.2) ? r.range(29000, 70000) + r.uni(.01, .99) : r.pick(at) + (r.chance(.4) ? 0 : r.uni(-400, 400));
    for (double a : at)
      if (x != a && std::fabs(x - a) < 1e-3)
        x = a + .05;
    return x;
  };
  const int ops = r.range(3, 20);
  for (int k = 0; k < ops; k++) {
    const int w = k == 0 ? r.below(4) : r.below(12);
    if (w < 2)
      s.add("all");
    else if (w < 4) {
      double a = edge(), b = edge();
      if (r.chance(.9) && b < a)
        std::swap(a, b);
      if (r.chance(.05))
        b = a;
      /* an MJD with seconds that give exactly this value again */
      s.add("window %.17g %.17g", a, b);
    } else if (w < 10) {
      double t = edge();
      if (r.chance(.2) && !at.empty())
        t = r.pick(at);
      s.add("eval %d %.17g", (int)t, (t - (int)t) * 86400);
    } else if (w < 11)
      s.add("table %d %.17g", r.chance(.2) ? (int)T52[r.below(30)].mjd : r.range(45000, 57000), r.chance(.3) ? 0 : r.uni(0, 86400));
    else
      s.add("keep %d", r.range(0, 3));
  }
}

/* ---- execution ------------------------------------------------------------------ */
static void judge(const dso::fcn::FcnResult &g, const std::vector<Ent> &e, int day, double sec) {
  const FcnVal r = ref_fcn(e, day, sec);
  const double v[4] = {g.xcip, g.ycip, g.sxcip, g.sycip};
  const char *nm[] = {"X", "Y", "sX", "sY"};
  for (int k = 0; k < 4; k++)
    if (!(fabsl(v[k] - r.v[k]) <= 1e-8L * r.mag[k] + 1e-9L))
      fail(k < 2 ? "fcn-value" : "fcn-sigma", "%s at %d %.9g s: %.17g, the entries around it give %.17Lg", nm[k], day, sec, v[k], r.v[k]);
  if (g.sxcip < 0 || g.sycip < 0)
    fail("fcn-sigma", "negative uncertainty %g %g", g.sxcip, g.sycip);
}
void world::execute(const Script &s, const std::string &) {
  Files fs;
  std::vector<std::string> ops;
  for (auto &l : s.lines)
    if (!fs.feed(l))
      ops.push_back(l);
  fs.materialise();
  alloc_limit(64u << 20);
  auto vec = std::make_unique<Vec>();
  std::vector<Ent> held;
  bool judged = true;
  double lo = 1e9, hi = -1e9;
  for (auto &l : ops) {
    Tok t(l);
    evals();
    if (t.is("all") || t.is("window")) {
      const bool all = t.is("all");
      opcount(all ? "load all" : "load window");
      const double a = all ? -1e300 : t.d(1), b = all ? 1e300 : t.d(2);
      auto ep = [](double x) {
        const double f = std::floor(x);
        return dso::MjdEpoch((int)f, dso::FractionalSeconds{(x - f) * 86400});
      };
      const auto A = all ? dso::MjdEpoch::min() : ep(a), Z = all ? dso::MjdEpoch::max() : ep(b);
      const int o0 = (int)Disk::opens("amp");
      const long f0 = Disk::fired("amp");
      int st;
      {
        Lib lib;
        st = all ? dso::parse_lambert_coefficients("amp", *vec) : dso::parse_lambert_coefficients("amp", A, Z, *vec);
      }
      const auto v = fs.view("amp", o0 + 1);
      Ref R;
      if (!all && b < a) {
        R.bad = true;
        R.why = "the window ends before it starts";
      } else if (!v.exists) {
        R.bad = true;
        R.why = "the file cannot be opened";
      } else {
        R = ref_parse(v, all ? a : A.as_mjd(), all ? b : Z.as_mjd());
        if (v.eio && !R.bad) {
          R.bad = true;
          R.why = "the file cannot be read";
          if (v.text == fs.data["amp"])
            R.vague = true;
        }
      }
      if (fs.recount("amp", o0, 1))
        R.vague = true;
      trace("%s -> %d, %d entries", l.c_str(), st, (int)vec->size());
      if (st) {
        probe("load refused");
        if (!R.bad && !R.vague && Disk::fired("amp") == f0 && (v.text == fs.clean["amp"] || v.text + "\n" == fs.clean["amp"]))
          fail("good-file-rejected", "a well-formed file is rejected (%d)", st);
        judged = false;
        if (R.bad)
          nontrivial();
        continue;
      }
      if (R.bad && !R.vague)
        fail("error-as-success", "loaded, but %s", R.why.c_str());
      judged = !R.vague;
      if (!judged)
        continue;
      held = R.e;
      if (vec->size() != held.size())
        fail("entry-count", "%d entries loaded, the window holds %d", (int)vec->size(), (int)held.size());
      for (size_t k = 0; k < held.size(); k++) {
        const auto &g = (*vec)[k];
        const Ent &w = held[k];
        const LD dt = ((LD)g.t.imjd() - floorl((LD)w.mjd)) * 86400 + (LD)g.t.seconds().seconds() - ((LD)w.mjd - floorl((LD)w.mjd)) * 86400;
        if (!(fabsl(dt) < 1e-5L))
          fail("entry", "entry %d is dated %.9Lg s off", (int)k, dt);
        if (g.real != w.re || g.imag != w.im || g.sigma != w.sg)
          fail("entry", "entry %d: %.17g %.17g %.17g, the file says %.17g %.17g %.17g", (int)k, g.real, g.imag, g.sigma, w.re, w.im, w.sg);
      }
      for (size_t k = 1; k < held.size(); k++)
        if (!(held[k].mjd > held[k - 1].mjd + 1e-4))
          judged = false; /* not a series */
      nontrivial();
      probe(held.empty() ? "empty window" : held.size() == 1 ? "one entry" : "series loaded");
      state(held.size() * 1000003 + (uint64_t)(held.empty() ? 0 : held[0].mjd));
      lo = 1e9, hi = -1e9;
    } else if (t.is("keep")) {
      /* a short (or empty) series, by hand */
      Lib lib;
      while ((long)vec->size() > t.i(1))
        vec->pop_back();
      if ((long)held.size() > t.i(1))
        held.resize((size_t)t.i(1));
    } else if (t.is("eval")) {
      opcount("eval");
      const int day = (int)t.i(1);
      const double sec = t.d(2);
      dso::fcn::FcnResult g(0, 0, 0, 0);
      {
        Lib lib;
        g = dso::lambert_fcn(dso::MjdEpoch(day, dso::FractionalSeconds{sec}), *vec);
      }
      trace("eval %d %.9g: %.6f %.6f %.6f %.6f", day, sec, g.xcip, g.ycip, g.sxcip, g.sycip);
      if (vec->empty())
        probe("empty series evaluated");
      if (vec->size() == 1)
        probe("one entry evaluated");
      if (!judged || vec->empty() || held.size() != vec->size())
        continue;
      judge(g, held, day, sec);
      nontrivial();
      if (day < lo)
        lo = day;
      if (day > hi)
        hi = day;
      simtime((hi - lo) * 0);
      probe(day < held[0].mjd ? "before the series" : day >= held.back().mjd ? "after the series" : "inside the series");
    } else if (t.is("table")) {
      opcount("table");
      const int day = (int)t.i(1);
      const double sec = t.d(2);
      dso::fcn::FcnResult g(0, 0, 0, 0);
      {
        Lib lib;
        g = dso::lambert_fcn(dso::MjdEpoch(day, dso::FractionalSeconds{sec}));
      }
      judge(g, std::vector<Ent>(std::begin(T52), std::end(T52)), day, sec);
      probe("convention table evaluated");
    }
  }
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  vec.reset();
  check_leaks("at the end");
}
