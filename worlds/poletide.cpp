/* World "poletide": ocean pole tide coefficients (C19) and deformation grids
 * (C20) read from the simulated disk. cfgs "x" well formed, "io" delivery
 * faults, "dmg" damage, "bad" inadmissible requests/sites. */
#include "sim.hpp"
#include "files.hpp"
#include "numrow.hpp"
#include "pole_tide.hpp"
#include <cmath>
#include <memory>
#include <set>
using namespace sim;
using numrow::Q;
typedef long double LD;
const char *const world::name = "poletide";
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> Mat;
static const LD PI = 3.14159265358979323846264338327950288L;

/* ---- Desai coefficients -------------------------------------------------- */
static const char *HEAD = "nmAnm(Real)Bnm(Real)Anm(Imaginary)Bnm(Imaginary)";
struct Row4 {
  double v[4]; /* A_r B_r A_i B_i */
};
struct RefC {
  bool bad = false, vague = false;
  std::string why;
  std::map<std::pair<int, int>, Row4> c;
};
static RefC ref_coeffs(const Files::View &v, int n, int m) {
  RefC o;
  auto bad = [&](const std::string &w) {
    if (!o.bad)
      o.why = w;
    o.bad = true;
  };
  if (n < m || n < 0 || m < 0 || n > 360) {
    bad("inadmissible degree/order");
    return o;
  }
  auto L = text_lines(v.text);
  if (L.empty()) {
    bad("the file is empty");
    return o;
  }
  std::string h, hh;
  for (char ch : L[0]) {
    if (ch != ' ')
      h += ch;
    if (!strchr(" \t\r\v\f", ch) || !ch)
      hh += ch;
  }
  if (h != HEAD) {
    if (hh == HEAD || h.find('\0') != std::string::npos)
      o.vague = true;
    bad("the header is damaged");
    return o;
  }
  if (L[0].size() >= 255)
    o.vague = true;
  for (size_t k = 1; k < L.size(); k++) {
    const std::string &l = L[k];
    std::vector<double> x;
    if (numrow::blank(l) || l.size() >= 255) {
      o.vague = true;
      if (l.size() >= 255)
        o.bad = true;
      continue;
    }
    Q q = numrow::row(l, "iirrrr", x);
    /* rows beyond the request may or may not be looked at */
    const bool beyond = x.size() >= 2 && (x[0] > n || x[1] > m);
    const bool impossible = x.size() >= 2 && (x[0] < 0 || x[1] < 0 || x[1] > x[0]);
    if (q == Q::VAGUE || (q == Q::BAD && beyond)) {
      o.vague = true;
      continue;
    }
    if (q == Q::BAD) {
      bad("unreadable row: " + l.substr(0, 100));
      continue;
    }
    if (impossible) {
      if (beyond)
        o.vague = true;
      else
        bad("impossible degree/order: " + l.substr(0, 40));
      continue;
    }
    if (beyond)
      continue;
    std::pair<int, int> key((int)x[0], (int)x[1]);
    if (o.c.count(key) && memcmp(o.c[key].v, &x[2], sizeof(Row4)))
      o.vague = true; /* contradictory rows: which counts is open */
    o.c[key] = Row4{{x[2], x[3], x[4], x[5]}};
  }
  for (int i = 1; i <= n; i++)
    for (int j = 0; j <= std::min(i, m); j++)
      if (!o.c.count({i, j}))
        bad("no row for degree " + std::to_string(i) + " order " + std::to_string(j));
  return o;
}
/* ---- deformation grid ------------------------------------------------------ */
static const char *KEYS[] = {"Number_longitude_Grid_Points", "First_longitude_degrees", "Last_longitude_degrees", "Longitude_step_degrees",
                             "Number_latitude_grid_points",  "First_latitude_degrees",  "Last_latitude_degrees",  "Latitude_step_degrees"};
static const char *H1 = "Longitude   Latitude   u_r^R       u_r^I       u_n^R       u_n^I       u_e^R       u_e^I";
static const char *H2 = "(degrees)  (degrees)  (        )  (        )  (        )  (        )  (        )  (        )";
struct Grid {
  int nx = 0, ny = 0;
  double x0 = 0, xl = 0, dx = 0, y0 = 0, yl = 0, dy = 0;
  bool global() const { return std::fabs(nx * dx - 360) < 1e-6 * 360; }
  double lon(long i) const { return x0 + (double)i * dx; }
  double lat(long j) const { return y0 + (double)j * dy; }
};
struct RefG {
  bool bad = false, vague = false;
  std::string why;
  Grid g;
  std::vector<std::string> rows;
};
static RefG ref_grid(const Files::View &v) {
  RefG o;
  auto L = text_lines(v.text);
  if (L.size() < 14) {
    o.bad = true;
    o.why = "the header is cut off";
    return o;
  }
  for (int k = 0; k < 14; k++)
    if (L[(size_t)k].size() >= 255 || numrow::ctl(L[(size_t)k]))
      o.vague = true;
  double val[8];
  for (int k = 0; k < 8; k++) {
    const std::string &l = L[3 + (size_t)k];
    const bool cnt = k == 0 || k == 4;
    if (l.compare(0, strlen(KEYS[k]), KEYS[k])) {
      o.bad = true;
      o.why = "header line " + std::to_string(k) + " is damaged";
      return o;
    }
    std::string r = l.substr(strlen(KEYS[k]));
    size_t e = r.find('=');
    std::vector<double> x;
    Q q = e == std::string::npos ? Q::BAD : numrow::row(r.substr(e + 1), cnt ? "i" : "r", x);
    if (e != std::string::npos && r.substr(0, e).find_first_not_of(' ') != std::string::npos)
      o.vague = true;
    if (q == Q::VAGUE) {
      o.vague = true;
      return o;
    }
    if (q == Q::BAD) {
      o.bad = true;
      o.why = "header line " + std::to_string(k) + " is damaged";
      return o;
    }
    val[k] = x[0];
  }
  for (int k = 0; k < 2; k++)
    if (L[11 + (size_t)k].compare(0, strlen(k ? H2 : H1), k ? H2 : H1)) {
      o.bad = true;
      o.why = "a column header is damaged";
      return o;
    }
  Grid &g = o.g;
  g.nx = (int)val[0];
  g.x0 = val[1];
  g.xl = val[2];
  g.dx = val[3];
  g.ny = (int)val[4];
  g.y0 = val[5];
  g.yl = val[6];
  g.dy = val[7];
  /* counts, limits and steps that do not fit together */
  auto off = [](double a, int n, double d, double l) { return std::fabs(a + (n - 1) * d - l) / std::fabs(d); };
  if (g.nx < 1 || g.ny < 1 || !(g.dx > 0) || !(g.dy > 0) || off(g.x0, g.nx, g.dx, g.xl) > .5 || off(g.y0, g.ny, g.dy, g.yl) > .5 ||
      (double)g.nx * g.ny > 1e7) {
    o.bad = true;
    o.why = "the header contradicts itself";
    return o;
  }
  if (off(g.x0, g.nx, g.dx, g.xl) > 1e-6 || off(g.y0, g.ny, g.dy, g.yl) > 1e-6 || g.nx < 2 || g.ny < 2 || g.nx * g.dx > 360.0001 || g.x0 < 0 ||
      g.xl >= 360 || g.y0 < -90 || g.yl > 90)
    o.vague = true;
  o.rows.assign(L.begin() + 14, L.end());
  return o;
}
struct Site {
  double lon, lat;
};
struct RefS {
  bool bad = false, vague = false;
  std::string why;
  LD v[6], mag[6];
};
static RefS ref_site(const RefG &R, const Site &s) {
  RefS o;
  const Grid &g = R.g;
  LD x = fmodl((LD)s.lon * 180 / PI, 360), y = (LD)s.lat * 180 / PI;
  if (x < 0)
    x += 360;
  while (x < g.x0)
    x += 360;
  const LD fx = (x - g.x0) / g.dx, fy = (y - g.y0) / g.dy;
  const LD E = 1e-9L;
  LD cx = floorl(fx), cy = floorl(fy);
  const LD nxt = 360 / (LD)g.dx;
  /* outside the rows (columns) nothing surrounds the site */
  if (fy < -E || fy > g.ny - 1 + E || (!g.global() && fx > g.nx - 1 + E && fx < nxt - E)) {
    o.bad = true;
    o.why = "no four records surround the site";
    return o;
  }
  if (fy < E || fy > g.ny - 1 - E || (!g.global() && (fx < E || fx > g.nx - 1 - E))) {
    o.vague = true; /* on the border */
    return o;
  }
  const long i = (long)cx, j = (long)cy, i2 = (i + 1) % g.nx;
  std::vector<double> rec[4];
  const long at[4][2] = {{i % g.nx, j}, {i2, j}, {i % g.nx, j + 1}, {i2, j + 1}};
  /* a site on a node or edge may be put into either cell */
  const bool edge = fx - cx < E || fx - cx > 1 - E || fy - cy < E || fy - cy > 1 - E;
  for (int k = 0; k < 4; k++) {
    const long idx = at[k][1] * g.nx + at[k][0];
    if (idx >= (long)R.rows.size()) {
      (edge ? o.vague : o.bad) = true;
      o.why = "the record of a surrounding node is missing";
      return o;
    }
    const std::string &l = R.rows[(size_t)idx];
    Q q = l.size() >= 255 ? Q::BAD : numrow::row(l, "rrrrrrrr", rec[k]);
    /* a damaged line before it may shift or hide this one: the position tells */
    if (q == Q::VAGUE) {
      o.vague = true;
      return o;
    }
    if (q == Q::BAD) {
      (edge ? o.vague : o.bad) = true;
      o.why = "unreadable record: " + l.substr(0, 100);
      return o;
    }
    const double ex = std::fabs(rec[k][0] - g.lon(at[k][0])) / g.dx, ey = std::fabs(rec[k][1] - g.lat(at[k][1])) / g.dy;
    if (ex > 1e-9 || ey > 1e-9) {
      if (ex > .01 || ey > .01) {
        (edge ? o.vague : o.bad) = true;
        o.why = "the record at a surrounding node belongs elsewhere: " + l.substr(0, 60);
      } else
        o.vague = true;
      return o;
    }
  }
  const LD a = fx - cx, b = fy - cy;
  for (int k = 0; k < 6; k++) {
    const LD w[4] = {(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b};
    o.v[k] = o.mag[k] = 0;
    for (int n = 0; n < 4; n++) {
      o.v[k] += w[n] * rec[n][2 + (size_t)k];
      o.mag[k] += fabsl(rec[n][2 + (size_t)k]);
    }
  }
  return o;
}

/* ---- generation --------------------------------------------------------------- */
static void put(Script &s, const std::string &l) { s.lines.push_back("l " + esc(l)); }
static double gval(Rng &r) {
  const double v = std::pow(10.0, -r.uni(0, 6)) * (r.chance(.5) ? -1 : 1) * r.uni(.1, 1);
  return r.chance(.05) ? 0 : v;
}
static void gen19deep(Rng &r, Script &s) {
  const int N = r.chance(.7) ? 360 : r.range(300, 360);
  s.add("bulk %d %d", N, r.range(1, 1000000));
  if (r.chance(.4))
    s.add("eio desai %d -1", r.range(1, 6000000));
  if (r.chance(.3))
    s.add("dropline desai %d", r.range(0, 65000));
  for (int k = 0; k < 2; k++) {
    const int n = r.chance(.6) ? N : r.range(200, 360), m = r.chance(.6) ? n : r.range(0, n);
    s.add("%s %d %d %d", k ? "ctor" : "parse", n, m, k ? r.below(3) : r.below(2) * 361);
  }
  s.add("eval %d %d %d %.17g %.17g %.17g 0", -1, -1, r.range(40000, 65000), r.uni(0, 86400), r.uni(-.5, .5), r.uni(0, .6));
  s.add("eval %d %d %d %.17g %.17g %.17g 0", r.range(0, 360), -1, r.range(40000, 65000), r.uni(0, 86400), r.uni(-.5, .5), r.uni(0, .6));
}
static void gen19(Rng &r, const std::string &cfg, Script &s) {
  if (cfg == "deep") {
    gen19deep(r, s);
    return;
  }
  const int N = r.chance(.15) ? r.range(9, 20) : r.range(1, 8);
  s.add("f desai");
  put(s, r.chance(.5) ? "  n    m        Anm(Real)            Bnm(Real)          Anm(Imaginary)       Bnm(Imaginary)"
                      : "n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)");
  std::vector<std::string> rows;
  const bool byorder = r.chance(.3), zero = r.chance(.3);
  auto one = [&](int i, int j) {
    char b[160];
    const double a = gval(r), b_ = j ? gval(r) : 0, c = gval(r), d = j ? gval(r) : 0;
    if (i == 0)
      snprintf(b, sizeof b, "%4d%5d  %19.13E  %19.13E  %19.13E  %19.13E", 0, 0, 0., 0., 0., 0.);
    else
      snprintf(b, sizeof b, r.chance(.5) ? "%4d%5d  %20.13E  %20.13E  %20.13E  %20.13E" : "%d %d %.13e %.13e %.13e %.13e", i, j, a, b_, c, d);
    rows.push_back(b);
  };
  if (byorder) {
    for (int j = 0; j <= N; j++)
      for (int i = std::max(j, zero ? 0 : 1); i <= N; i++)
        one(i, j);
  } else {
    for (int i = zero ? 0 : 1; i <= N; i++)
      for (int j = 0; j <= i; j++)
        one(i, j);
  }
  if (r.chance(.1))
    for (int k = 0; k < 5; k++)
      std::swap(rows[(size_t)r.below((int)rows.size())], rows[(size_t)r.below((int)rows.size())]);
  for (auto &l : rows)
    put(s, l);
  const long B = script_bytes(s, "desai");
  if (r.chance(.2)) /* no newline at the very end */
    s.add("trunc desai %ld", B - 1);
  if (cfg != "dmg")
    Files::gen_delivery(r, s, "desai", B);
  if (cfg == "io")
    Files::gen_io_fault(r, s, "desai", B, 3);
  if (cfg == "dmg")
    Files::gen_damage(r, s, "desai", B);
  const int ops = r.range(2, 8);
  for (int k = 0; k < ops; k++) {
    int n = r.range(0, N), m = r.range(0, n);
    if (r.chance(.4))
      n = N, m = N;
    if (r.chance(cfg == "bad" ? .5 : .06)) {
      static const int odd[] = {-1, -2, -7, 361, 400, 100000, -2147483647};
      if (r.chance(.5))
        n = odd[r.below(7)];
      if (r.chance(.5))
        m = odd[r.below(7)];
      if (r.chance(.2))
        m = n + 1;
      if (r.chance(.2))
        n = N + r.range(1, 3), m = r.range(0, n);
      if (r.chance(.05))
        n = 360, m = 360;
    }
    const int w = k == 0 ? r.below(2) : r.below(6);
    if (w == 1 || w == 5) /* a matrix of such a degree cannot be built at all */
      n = n < 0 ? 0 : n > 400 ? 400 : n;
    switch (w) {
    case 0:
    case 4:
      s.add("parse %d %d %d", n, m, r.range(0, 5));
      break;
    case 1:
    case 5:
      s.add("ctor %d %d %d", n, m, r.below(3));
      break;
    default: {
      const int en = r.chance(.4) ? -1 : r.chance(.8) ? r.range(0, N) : r.range(0, 2 * N), em = r.chance(.4) ? -1 : r.range(0, en < 0 ? N : en);
      s.add("eval %d %d %d %.17g %.17g %.17g %d", en, em, r.range(40000, 65000), r.uni(0, 86400), r.uni(-.5, .5), r.uni(0, .6), r.below(2));
      break;
    }
    }
  }
}
static void gen20(Rng &r, const std::string &cfg, Script &s) {
  static const int NX[] = {3, 4, 5, 6, 8, 9, 10, 12, 16, 18, 24}, NY[] = {2, 3, 4, 5, 6, 8, 9, 10, 12};
  Grid g;
  g.nx = NX[r.below(11)];
  g.ny = NY[r.below(9)];
  const bool pole = r.chance(.2), region = r.chance(.15);
  g.dx = 360.0 / g.nx;
  g.dy = pole ? 180.0 / (g.ny - 1) : 180.0 / g.ny;
  if (180.0 / (g.ny - 1) != std::floor(1e4 * 180.0 / (g.ny - 1) + .5) / 1e4 && pole)
    g.dy = 180.0 / g.ny;
  g.x0 = r.chance(.2) ? 0 : g.dx / 2;
  g.y0 = g.dy * (g.ny - 1) == 180 ? -90 : -90 + g.dy / 2;
  if (region) {
    g.dx /= 4;
    g.dy /= 4;
    g.x0 = std::floor(r.uni(0, 200) * 4) / 4;
    g.y0 = std::floor(r.uni(-80, 0) * 4) / 4;
  }
  g.xl = g.lon(g.nx - 1);
  g.yl = g.lat(g.ny - 1);
  s.add("f grid");
  put(s, "Ocean Pole Load Tide Deformation Parameters from Self-Consistent");
  put(s, "Equilibrium Model of Ocean Pole Tide (Desai, 2002)");
  put(s, r.chance(.2) ? "" : "Deformation Parameters Generated: CM correction applied");
  char b[300];
  const double val[8] = {0, g.x0, g.xl, g.dx, 0, g.y0, g.yl, g.dy};
  for (int k = 0; k < 8; k++) {
    if (k == 0 || k == 4)
      snprintf(b, sizeof b, "%-28s = %9d", KEYS[k], k ? g.ny : g.nx);
    else
      snprintf(b, sizeof b, "%-28s = %9.5f", KEYS[k], val[k]);
    put(s, b);
  }
  put(s, H1);
  put(s, H2);
  put(s, r.chance(.5) ? "" : std::string(90, '-'));
  const bool smooth = r.chance(.2);
  for (int j = 0; j < g.ny; j++)
    for (int i = 0; i < g.nx; i++) {
      double v[6];
      for (int k = 0; k < 6; k++)
        v[k] = smooth ? (k + 1) * .1 + .01 * i + .001 * j : gval(r);
      snprintf(b, sizeof b, "%10.5f %10.5f %11.6f %11.6f %11.6f %11.6f %11.6f %11.6f", g.lon(i), g.lat(j), v[0], v[1], v[2], v[3], v[4], v[5]);
      put(s, b);
    }
  const long B = script_bytes(s, "grid");
  if (r.chance(.2))
    s.add("trunc grid %ld", B - 1);
  if (cfg != "dmg")
    Files::gen_delivery(r, s, "grid", B);
  if (cfg == "io")
    Files::gen_io_fault(r, s, "grid", B, 2);
  if (cfg == "dmg")
    Files::gen_damage(r, s, "grid", B);
  const int calls = r.range(1, 3);
  for (int c = 0; c < calls; c++) {
    const int n = r.chance(.05) ? 0 : r.range(1, cfg == "bad" ? 3 : r.chance(.1) ? 40 : 7);
    std::string l = "sites";
    for (int k = 0; k < n; k++) {
      double lon, lat;
      if (region && r.chance(.9)) {
        lon = r.uni(g.x0, g.xl);
        lat = r.uni(g.y0, g.yl);
      } else {
        lon = r.uni(0, 360);
        lat = r.uni(g.y0, g.yl);
      }
      if (r.chance(.15)) /* across the seam */
        lon = r.uni(g.xl, g.xl + g.dx);
      if (r.chance(.15)) /* exactly on a node, column or row */
        lon = g.lon(r.below(g.nx));
      if (r.chance(.15))
        lat = g.lat(r.below(g.ny));
      if (r.chance(.1)) /* the first and last row */
        lat = r.chance(.5) ? g.y0 : g.yl;
      if (cfg == "bad" && r.chance(.5)) {
        static const double odd[] = {-90, 90, 89.99999, -89.99999, 1000, -1000, 95};
        lat = r.chance(.5) ? odd[r.below(7)] : r.uni(-90, 90);
        if (region)
          lon = r.uni(0, 360);
      }
      if (r.chance(.03))
        lon = r.chance(.5) ? 0 : 180;
      if (lon > 180)
        lon -= 360;
      if (r.chance(.05))
        lon = lon < 0 ? lon + 360 : lon; /* [0, 360) given */
      char t[80];
      snprintf(t, sizeof t, " %.17g %.17g", lon * 3.14159265358979323846 / 180, lat * 3.14159265358979323846 / 180);
      l += t;
    }
    s.lines.push_back(l);
    if (r.chance(.2))
      s.lines.push_back(l);
  }
}
void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  if (prop == "C19")
    gen19(r, cfg, s);
  else
    gen20(r, cfg, s);
}

/* ---- execution ------------------------------------------------------------------ */
static double kn(int l) { /* IERS/Desai load Love numbers, first degrees and anchors */
  static const double K[] = {-1.0, -1.0, -0.3054020195, -0.1960294041, -0.1336652689, -0.1047066267, -0.09033564429, -0.08206984804, -0.07655494644,
                             -0.07243844815, -0.06913401466, -0.06635869819, -0.06395689877, -0.06183296641, -0.05992172201, -0.05817772516,
                             -0.05656704205, -0.05506474110, -0.05365205058, -0.05231479422, -0.05104204279};
  return l <= 20 ? K[l] : NAN;
}
static Mat *new_mat(int k) {
  Lib lib;
  Mat *m = new Mat(k, k);
  m->fill_with(7.25);
  return m;
}
static void run19(Files &fs, const std::vector<std::string> &ops) {
  std::unique_ptr<dso::OceanPoleTide> opt;
  std::map<std::pair<int, int>, Row4> held;
  int hn = -1, hm = -1;
  bool judged = false;
  for (auto &l : ops) {
    Tok t(l);
    evals();
    if (t.is("parse") || t.is("ctor")) {
      const bool ctor = t.is("ctor");
      int n = (int)t.i(1), m = (int)t.i(2);
      if (ctor && t.i(3) == 1)
        m = n;
      const int o0 = (int)Disk::opens("desai");
      const long f0 = Disk::fired("desai");
      int st = 0;
      Mat *M[4] = {};
      std::unique_ptr<dso::OceanPoleTide> got;
      opcount(ctor ? "ctor" : "parse");
      if (ctor) {
        try {
          Lib lib;
          if (t.i(3) == 1)
            got = std::make_unique<dso::OceanPoleTide>(n, "desai");
          else
            got = std::make_unique<dso::OceanPoleTide>(n, m, "desai");
        } catch (std::exception &e) {
          st = 1;
        }
      } else {
        for (auto &p : M)
          p = new_mat((int)t.i(3));
        Lib lib;
        st = dso::pole_tide_details::parse_desai02_coeffs("desai", n, m, *M[0], *M[1], *M[2], *M[3]);
      }
      const auto v = fs.view("desai", o0 + 1);
      RefC R;
      const bool fired = Disk::fired("desai") > f0;
      if (!v.exists) {
        R.bad = true;
        R.why = "the file cannot be opened";
      } else
        R = ref_coeffs(v, n, m);
      if (fs.recount("desai", o0, 1))
        R.vague = true;
      trace("%s (%d,%d) -> %d", ctor ? "ctor" : "parse", n, m, st);
      if (st) {
        probe(ctor ? "model refused" : "file refused");
        if (!R.bad && !R.vague && !fired && !v.eio)
          fail("good-file-rejected", "(%d,%d) of a well-formed file is rejected", n, m);
        if (R.bad)
          nontrivial();
      } else {
        if (R.bad && !R.vague)
          fail("error-as-success", "(%d,%d) loaded, but %s", n, m, R.why.c_str());
        if (!ctor && !R.vague) {
          for (int k = 0; k < 4; k++)
            if (M[k]->rows() < n + 1 || M[k]->cols() < n + 1)
              fail("shape", "matrix %d is %dx%d for degree %d", k, M[k]->rows(), M[k]->cols(), n);
          const char *nm[] = {"A_real", "A_imag", "B_real", "B_imag"};
          const int ix[] = {0, 2, 1, 3};
          for (int i = 0; i <= n; i++)
            for (int j = 0; j <= i; j++) {
              auto it = j <= m ? R.c.find({i, j}) : R.c.end();
              for (int k = 0; k < 4; k++) {
                const double w = it == R.c.end() ? 0 : it->second.v[ix[k]];
                if ((*M[k])(i, j) != w)
                  fail("coefficient", "%s(%d,%d) is %.17g, the file says %.17g", nm[k], i, j, (*M[k])(i, j), w);
              }
            }
          nontrivial();
          probe("coefficients compared");
          state((uint64_t)(n * 400 + m) * 7 + (uint64_t)t.i(3));
        }
        if (ctor) {
          opt = std::move(got);
          judged = !R.vague;
          held = R.c;
          hn = n;
          hm = m;
          if (opt->max_degree() != n || opt->max_order() != m || (judged && (opt->stokes_coeffs().max_degree() != n || opt->stokes_coeffs().max_order() != m)))
            fail("shape", "the model is (%d,%d), asked for (%d,%d)", opt->max_degree(), opt->max_order(), n, m);
          probe("model built");
        }
      }
      Lib lib;
      for (auto &p : M)
        delete p;
    } else if (t.is("eval") && opt) {
      int n = (int)t.i(1), m = (int)t.i(2);
      opcount("eval");
      const double xp = t.d(5), yp = t.d(6);
      const int day = (int)t.i(3);
      const double sec = t.d(4);
      /* the default constants or ones of the caller */
      const bool own = t.i(7) != 0;
      const double W = own ? 7.25e-5 : 7.2921151467064e-5, G = own ? 6.7e-11 : 6.67428e-11, ge = own ? 9.81 : 9.7803278;
      int st;
      {
        Lib lib;
        const dso::MjdEpoch ep(day, dso::FractionalSeconds{sec});
        st = own ? opt->stokes_coeffs(ep, xp, yp, n, m, W, G, ge) : opt->stokes_coeffs(ep, xp, yp, n, m);
      }
      if (n < 0)
        n = hn;
      if (m < 0)
        m = hm;
      if (n < m || n > hn || m > hm) {
        if (!st)
          fail("error-as-success", "(%d,%d) of a (%d,%d) model evaluated", n, m, hn, hm);
        probe("evaluation refused");
        continue;
      }
      if (st)
        fail("eval-refused", "(%d,%d) of a (%d,%d) model: %d", n, m, hn, hm, st);
      if (!judged)
        continue;
      const LD yr = ((LD)day - 51544.5L + (LD)sec / 86400) / 365.25L;
      const LD as2r = PI / 648000;
      const LD m1 = ((LD)xp - (55.0L + 1.677L * yr) / 1000) * as2r, m2 = -((LD)yp - (320.5L + 3.460L * yr) / 1000) * as2r;
      const LD fr = m1 * .6870L + m2 * .0036L, fi = m2 * .6870L - m1 * .0036L;
      const LD GM = 3.986004418e14L, Re = 6378136.6L;
      const LD F = (LD)W * W * Re * Re * Re * Re / GM * 4 * PI * G * 1025 / ge;
      const auto &cs = static_cast<const dso::OceanPoleTide &>(*opt).stokes_coeffs();
      for (int i = 0; i <= n; i++)
        for (int j = 0; j <= std::min(i, m); j++) {
          auto it = held.find({i, j});
          const Row4 q = it == held.end() ? Row4{{0, 0, 0, 0}} : it->second;
          if (i > 20)
            continue; /* Love numbers listed here up to degree 20 */
          const LD k = F * (1 + (LD)kn(i)) / (2 * i + 1);
          const LD c = k * (q.v[0] * fr + q.v[2] * fi), sn = k * (q.v[1] * fr + q.v[3] * fi);
          const LD mc = fabsl(k) * (fabsl(q.v[0] * fr) + fabsl(q.v[2] * fi)), ms = fabsl(k) * (fabsl(q.v[1] * fr) + fabsl(q.v[3] * fi));
          if (!(fabsl(cs.C(i, j) - c) <= 1e-9L * mc) || !(fabsl(cs.S(i, j) - sn) <= 1e-9L * ms))
            fail("pole-tide-sum", "(%d,%d): %.17g %.17g, expected %.17Lg %.17Lg", i, j, cs.C(i, j), cs.S(i, j), c, sn);
        }
      /* what was not asked for must not carry over from an earlier evaluation */
      for (int i = 0; i <= hn; i++)
        for (int j = 0; j <= std::min(i, hm); j++)
          if ((i > n || j > m) && (cs.C(i, j) != 0 || cs.S(i, j) != 0))
            fail("stale-coefficient", "(%d,%d) was not asked for (%d,%d) but is %.17g %.17g", i, j, n, m, cs.C(i, j), cs.S(i, j));
      if (n < hn)
        probe("part of the model evaluated");
      nontrivial();
    }
  }
  Lib lib;
  opt.reset();
}
static void run20(Files &fs, const std::vector<std::string> &ops) {
  std::vector<dso::OceanPoleTideDesaiCoeffs> prev;
  std::string prevl;
  for (auto &l : ops) {
    Tok t(l);
    if (!t.is("sites"))
      continue;
    evals();
    opcount("query");
    std::vector<Site> S;
    std::vector<dso::SphericalCrd> in;
    for (int k = 1; k + 1 < t.n(); k += 2) {
      S.push_back({t.d(k), t.d(k + 1)});
      dso::SphericalCrd c;
      c.r() = 6371e3;
      c.lon() = t.d(k);
      c.lat() = t.d(k + 1);
      in.push_back(c);
    }
    const int o0 = (int)Disk::opens("grid");
    const long f0 = Disk::fired("grid");
    std::vector<dso::OceanPoleTideDesaiCoeffs> out(2);
    int st;
    {
      Lib lib;
      st = dso::get_desai_ocp_deformation_coeffs("grid", in, out);
    }
    const auto v = fs.view("grid", o0 + 1);
    const bool fired = Disk::fired("grid") > f0;
    RefG R;
    if (!v.exists) {
      R.bad = true;
      R.why = "the file cannot be opened";
    } else
      R = ref_grid(v);
    if (fs.recount("grid", o0, 1))
      R.vague = true;
    std::vector<RefS> E;
    bool bad = R.bad, vague = R.vague;
    std::string why = R.why;
    if (!R.bad && !R.vague)
      for (auto &s : S) {
        E.push_back(ref_site(R, s));
        if (E.back().bad && !bad) {
          bad = true;
          why = E.back().why;
        }
        vague |= E.back().vague;
      }
    trace("%d sites -> %d (%s)", (int)S.size(), st, bad ? why.c_str() : vague ? "vague" : "good");
    if (st) {
      probe("request refused");
      if (!bad && !vague && !fired && !v.eio && (v.text == fs.clean["grid"] || v.text + "\n" == fs.clean["grid"]))
        fail("good-file-rejected", "%d sites on a well-formed grid are rejected", (int)S.size());
      if (bad)
        nontrivial();
      Lib lib;
      out = std::vector<dso::OceanPoleTideDesaiCoeffs>();
      continue;
    }
    if (bad && !vague)
      fail("error-as-success", "coefficients returned, but %s", why.c_str());
    if (out.size() != S.size() && !S.empty())
      fail("count", "%d sites, %d coefficient sets", (int)S.size(), (int)out.size());
    if (S.empty() && !out.empty())
      fail("count", "no sites, %d coefficient sets", (int)out.size());
    if (!R.bad && !R.vague)
      for (size_t k = 0; k < E.size(); k++) {
        if (E[k].bad || E[k].vague)
          continue;
        const double g[6] = {out[k].rR, out[k].rI, out[k].nR, out[k].nI, out[k].eR, out[k].eI};
        for (int c = 0; c < 6; c++)
          if (!(fabsl(g[c] - E[k].v[c]) <= 1e-9L * E[k].mag[c] + 1e-300L))
            fail("interpolation", "site %d (%.9g, %.9g) deg, component %d: %.17g, the surrounding records give %.17Lg", (int)k,
                 S[k].lon * 57.29577951308232, S[k].lat * 57.29577951308232, c, g[c], E[k].v[c]);
        nontrivial();
        probe("site interpolated");
        LD x = fmodl((LD)S[k].lon * 180 / PI + 720, 360);
        if (R.g.global() && (x > R.g.xl || x < R.g.x0))
          probe("site across the seam");
        state((uint64_t)(R.g.nx * 100 + R.g.ny) * 1000003 + (uint64_t)((long)((x - R.g.x0) / R.g.dx) + 1) * 1000 + (uint64_t)S.size());
      }
    Lib lib;
    out = std::vector<dso::OceanPoleTideDesaiCoeffs>();
    in = std::vector<dso::SphericalCrd>();
  }
}
void world::execute(const Script &s, const std::string &prop) {
  Files fs;
  std::vector<std::string> ops;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("bulk")) { /* a file of all degrees up to the model's limit */
      const int N = (int)t.i(1);
      Rng g((uint64_t)t.i(2));
      std::string d = "n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)\n";
      for (int i = 1; i <= N; i++)
        for (int j = 0; j <= i; j++) {
          char b[160];
          const double a = gval(g), p = j ? gval(g) : 0, c = gval(g), q = j ? gval(g) : 0;
          snprintf(b, sizeof b, "%4d%5d  %20.13E  %20.13E  %20.13E  %20.13E\n", i, j, a, p, c, q);
          d += b;
        }
      fs.cur = "desai";
      fs.data["desai"] = fs.clean["desai"] = d;
    } else if (!fs.feed(l))
      ops.push_back(l);
  }
  fs.materialise();
  if (prop == "C19")
    run19(fs, ops);
  else
    run20(fs, ops);
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  check_leaks("at the end");
}
