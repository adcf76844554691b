/* World "gravity": the gravity evaluators.
 *   C03  histories of evaluations over shared coefficients, with and without
 *        caller scratch (holding garbage), inadmissible requests, failed
 *        allocations; oracle: an independent harmonic sum (unnormalised basis,
 *        derivatives taken in coefficient space, long double)
 *   C27  histories of Legendre evaluations into dirty matrices; oracle: direct
 *        unnormalised recurrence in long double, normalised at the end
 *   C01  (flavour "sched") several simulated threads evaluating at once; oracle:
 *        the same call as first and only call of a fresh process
 */
#include "sim.hpp"
#include "gravity.hpp"
#include <cmath>
#include <memory>
#ifdef SIM_OWN_ALLOC
#include "threads.hpp"
#endif
using namespace sim;
const char *const world::name = "gravity";
using Mat = dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>;
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
typedef long double LD;

/* ---- coefficient sets as plain arrays ----------------------------------- */
struct Field {
  int deg = 0, ord = 0;
  double Re = 1, GM = 1;
  std::vector<double> c, s; /* (n,m) -> n*(deg+1)+m */
  double &C(int n, int m) { return c[n * (deg + 1) + m]; }
  double &S(int n, int m) { return s[n * (deg + 1) + m]; }
};
static Field make_field(int deg, int ord, uint64_t seed, double Re, double GM, int kind) {
  Field f;
  f.deg = deg;
  f.ord = ord;
  f.Re = Re;
  f.GM = GM;
  f.c.assign((deg + 1) * (deg + 1), 0e0);
  f.s.assign((deg + 1) * (deg + 1), 0e0);
  Rng r(seed);
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= std::min(n, ord); m++) {
      double k = kind == 0 ? 1e0 : (kind == 1 ? 1e0 / ((n + 1.0) * (n + 1.0)) : 1e-5 / (n * n + 1.0));
      f.C(n, m) = k * r.uni(-1, 1);
      f.S(n, m) = m ? k * r.uni(-1, 1) : (kind == 2 ? 0.3 * r.uni() : 0e0);
      if (kind == 3) { /* one single coefficient */
        f.C(n, m) = f.S(n, m) = 0e0;
      }
    }
  if (kind == 3) {
    int n = r.range(0, deg), m = r.range(0, std::min(n, ord));
    if (m && r.chance(0.5))
      f.S(n, m) = 1e0;
    else
      f.C(n, m) = 1e0;
  }
  return f;
}
/* store: 0 just so; 1 whatever lies past the order is garbage; 2 was larger once */
static dso::StokesCoeffs to_stokes(Field &f, int store) {
  const int more = store == 2 ? 1 + (f.deg * 7 + f.ord) % 9 : 0;
  dso::StokesCoeffs cs(f.deg + more, f.ord + more, f.GM, f.Re);
  cs.clear();
  if (store)
    for (int n = 0; n <= f.deg + more; n++)
      for (int m = 0; m <= n; m++)
        cs.C(n, m) = cs.S(n, m) = (n * 31 + m) % 3 ? 1e3 * (1 + n + m) : -1e150;
  if (more && cs.shrink_dimensions(f.deg, f.ord))
    fail("shrink", "a %dx%d field does not shrink to %dx%d", f.deg + more, f.ord + more, f.deg, f.ord);
  for (int n = 0; n <= f.deg; n++)
    for (int m = 0; m <= std::min(n, f.ord); m++) {
      cs.C(n, m) = f.C(n, m);
      cs.S(n, m) = f.S(n, m);
    }
  return cs;
}

/* ---- reference ----------------------------------------------------------- */
struct Tri {
  int N;
  std::vector<LD> c, s;
  explicit Tri(int n) : N(n), c((n + 1) * (n + 1), 0), s((n + 1) * (n + 1), 0) {}
  LD &C(int n, int m) { return c[n * (N + 1) + m]; }
  LD &S(int n, int m) { return s[n * (N + 1) + m]; }
};
/* derivative of sum C V + S W along axis k, as coefficients one degree up */
static Tri deriv(Tri &a, int k) {
  Tri d(a.N + 1);
  for (int n = 0; n <= a.N; n++)
    for (int m = 0; m <= n; m++) {
      LD C = a.C(n, m), S = m ? a.S(n, m) : 0;
      if (C == 0 && S == 0)
        continue;
      LD f = (LD)(n - m + 2) * (n - m + 1);
      if (k == 0) {
        if (m == 0) {
          d.C(n + 1, 1) += -C;
        } else {
          d.C(n + 1, m + 1) += -C / 2;
          d.S(n + 1, m + 1) += -S / 2;
          d.C(n + 1, m - 1) += f * C / 2;
          d.S(n + 1, m - 1) += f * S / 2;
        }
      } else if (k == 1) {
        if (m == 0) {
          d.S(n + 1, 1) += -C;
        } else {
          d.S(n + 1, m + 1) += -C / 2;
          d.C(n + 1, m + 1) += S / 2;
          d.S(n + 1, m - 1) += -f * C / 2;
          d.C(n + 1, m - 1) += f * S / 2;
        }
      } else {
        d.C(n + 1, m) += -(LD)(n - m + 1) * C;
        d.S(n + 1, m) += -(LD)(n - m + 1) * S;
      }
    }
  return d;
}
struct Ref {
  LD acc[3], grad[3][3], aacc[3], agrad[3][3]; /* values and sums of magnitudes */
};
static Ref reference(Field &f, int deg, int ord, double Re, double GM, const double *r) {
  Tri a(deg);
  for (int m = 0; m <= ord; m++) {
    for (int n = m; n <= deg; n++) {
      LD lr = 0; /* log of normalisation to stay in range */
      for (int k = n - m + 1; k <= n + m; k++)
        lr -= logl((LD)k);
      LD N = sqrtl((m ? 2.0L : 1.0L) * (2 * n + 1)) * expl(lr / 2);
      a.C(n, m) = N * (LD)f.C(n, m);
      a.S(n, m) = m ? N * (LD)f.S(n, m) : 0;
    }
  }
  /* unnormalised V, W up to deg+2 */
  const int D = deg + 2;
  Tri b(D);
  LD x = r[0], y = r[1], z = r[2], R = Re;
  LD r2 = x * x + y * y + z * z;
  LD u = x * R / r2, v = y * R / r2, w = z * R / r2, q = R * R / r2;
  b.C(0, 0) = R / sqrtl(r2);
  for (int m = 0; m <= D; m++) {
    if (m) {
      b.C(m, m) = (2 * m - 1) * (u * b.C(m - 1, m - 1) - v * b.S(m - 1, m - 1));
      b.S(m, m) = (2 * m - 1) * (u * b.S(m - 1, m - 1) + v * b.C(m - 1, m - 1));
    }
    for (int n = m + 1; n <= D; n++) {
      LD c2 = n >= m + 2 ? b.C(n - 2, m) : 0, s2 = n >= m + 2 ? b.S(n - 2, m) : 0;
      b.C(n, m) = ((2 * n - 1) * w * b.C(n - 1, m) - (n + m - 1) * q * c2) / (n - m);
      b.S(n, m) = ((2 * n - 1) * w * b.S(n - 1, m) - (n + m - 1) * q * s2) / (n - m);
    }
  }
  auto sum = [&](Tri &d, LD &val, LD &mag) {
    val = mag = 0;
    for (int n = 0; n <= d.N; n++)
      for (int m = 0; m <= n; m++) {
        LD t = d.C(n, m) * b.C(n, m), s = m ? d.S(n, m) * b.S(n, m) : 0;
        val += t + s;
        mag += fabsl(t) + fabsl(s);
      }
  };
  Ref o;
  LD k = (LD)GM / R / R;
  for (int i = 0; i < 3; i++) {
    Tri d = deriv(a, i);
    sum(d, o.acc[i], o.aacc[i]);
    o.acc[i] *= k;
    o.aacc[i] *= k;
    for (int j = 0; j < 3; j++) {
      Tri e = deriv(d, j);
      sum(e, o.grad[i][j], o.agrad[i][j]);
      o.grad[i][j] *= k / R;
      o.agrad[i][j] *= k / R;
    }
  }
  return o;
}

/* ---- generation ----------------------------------------------------------- */
static int pick_deg(Rng &g, int cap) {
  double u = g.uni();
  int d = u < 0.35 ? g.range(0, 4) : (u < 0.8 ? g.range(0, 20) : g.range(0, cap));
  return std::min(d, cap);
}
static void pick_pos(Rng &g, double Re, double *r) {
  double rad = Re * (g.chance(0.7) ? g.uni(1.0, 1.3) : g.uni(0.9, 9));
  double a[3];
  int k = g.below(8);
  if (k == 0) { /* on an axis */
    a[0] = a[1] = a[2] = 0;
    a[g.below(3)] = g.chance(0.5) ? 1 : -1;
  } else {
    for (int i = 0; i < 3; i++)
      a[i] = g.uni(-1, 1);
    if (k == 1)
      a[g.below(3)] = 0;
    if (k == 2)
      a[2] *= 1e-6;
    if (k == 3)
      a[0] *= 1e-7, a[1] *= 1e-7;
  }
  double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  if (n == 0)
    a[2] = n = 1;
  for (int i = 0; i < 3; i++)
    r[i] = a[i] / n * rad;
}
static void gen_field(Rng &g, Script &s, int id, int cap) {
  int deg = pick_deg(g, cap), ord = g.chance(0.6) ? deg : g.range(0, deg);
  static const double RE[] = {6378136.3, 6378137.0, 1.0, 6371e3};
  static const double GMs[] = {3.986004415e14, 1.0, 4.9e12, 3.986004418e14};
  const double re = RE[g.below(4)], gm = GMs[g.below(4)];
  const int kind = g.below(4);
  s.add("field %d %d %d %d %.17g %.17g %d %d", id, deg, ord, g.below(1 << 30), re, gm, kind, g.chance(.5) ? 0 : g.range(1, 2));
}
struct FieldInfo {
  int deg, ord;
  double Re;
};
static FieldInfo info(const std::string &line) {
  Tok t(line);
  return {(int)t.i(2), (int)t.i(3), t.d(5)};
}
/* eval <field> <deg> <ord> <Re> <GM> <W mode> <M mode> <garbage> x y z
 * modes: -1 internal; k >= 0 caller-supplied with k more rows than needed;
 * -2-k: caller-supplied and too small by 1+k rows */
static const double *g_near; /* a position asked about before, or null */
static void pick_related(Rng &g, const double *q, double *r) {
  double a[3] = {q[0], q[1], q[2]};
  switch (g.below(6)) {
  case 0: /* the mirror image, the same distance */
    a[g.below(3)] *= -1;
    break;
  case 1: /* another axis order, the same distance */
    std::swap(a[g.below(3)], a[g.below(3)]);
    std::swap(a[0], a[1]);
    break;
  case 2: { /* turned about z: the same distance and height */
    const double t = g.uni(0, 6), c = std::cos(t), d = std::sin(t);
    a[0] = c * q[0] - d * q[1];
    a[1] = d * q[0] + c * q[1];
    break;
  }
  case 3: /* a step along the orbit */
    for (double &v : a)
      v *= 1 + g.uni(-1, 1) * 1e-8;
    break;
  case 4: /* further out in the same direction */
    for (double &v : a)
      v *= 1.5;
    break;
  default:
    break;
  }
  for (int i = 0; i < 3; i++)
    r[i] = a[i];
}
static void gen_eval(Rng &g, Script &s, int id, const FieldInfo &f, bool errors) {
  int deg = g.chance(0.25) ? -1 : g.range(0, f.deg);
  int dd = deg < 0 ? f.deg : deg;
  int ord = g.chance(0.25) && f.ord <= dd ? -1 : g.range(0, std::min(dd, f.ord));
  int wm = g.chance(0.35) ? -1 : g.below(4), mm = g.chance(0.35) ? -1 : g.below(4);
  if (errors && g.chance(0.15)) {
    int k = g.below(5);
    if (k == 0)
      deg = f.deg + g.range(1, 3);
    else if (k == 1)
      ord = std::max(dd, f.ord) + g.range(1, 3);
    else if (k == 2)
      wm = -2 - g.below(2);
    else if (k == 3)
      mm = -2 - g.below(2);
    else
      wm = -2, mm = -1;
  }
  double Re = g.chance(0.7) ? -1 : f.Re * g.uni(0.9, 1.1), GM = g.chance(0.7) ? -1 : g.uni(0.5, 2) * 1e14;
  double r[3];
  pick_pos(g, f.Re, r);
  if (g_near) {
    double q[3];
    pick_related(g, g_near, q);
    const double d = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) / f.Re;
    if (d > .88 && d < 12 && g.chance(.6))
      r[0] = q[0], r[1] = q[1], r[2] = q[2];
  }
  if (g_near && wm >= -1 && mm >= -1 && g.chance(.4))
    wm = 1000 + g.below(2), mm = 1002 + g.below(2);
  s.add("eval %d %d %d %.17g %.17g %d %d %d %.17g %.17g %.17g", id, deg, ord, Re, GM, wm, mm, g.below(4), r[0], r[1],
        r[2]);
}
static void gen_point(Rng &g, Script &s) {
  double r[3], b[3];
  pick_pos(g, 7e6, r);
  pick_pos(g, g.chance(0.5) ? 3.8e8 : 1.5e11, b);
  s.add("point %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g", g.below(2), r[0], r[1], r[2], b[0], b[1], b[2],
        g.chance(0.5) ? 4.9e12 : 1.327e20);
}
static void gen_alf(Rng &g, Script &s, int cap) {
  int deg = pick_deg(g, cap), ord = g.chance(0.5) ? deg : g.range(0, deg);
  int extra = g.chance(0.6) ? 0 : g.range(1, 4);
  double th = g.chance(0.1) ? 0e0 : g.uni(-1.5, 1.5);
  const int der = g.below(2);
  if (!der && g.chance(.08))
    th = g.chance(.5) ? M_PI_2 : -M_PI_2;
  if (!der && g.chance(.12)) /* close to a pole */
    th = (g.chance(.5) ? 1 : -1) * (M_PI_2 - std::pow(10., -g.uni(1, 9)));
  double before = 9;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("alf"))
      before = t.d(6);
  }
  if (before < 9 && g.chance(.4)) /* the same latitude again, or its mirror image */
    th = der && std::fabs(before) > 1.5 ? th : g.chance(.5) ? before : -before;
  /* the matrix: new and full of garbage, or as the last call left it */
  s.add("alf %d %d %d %d %d %.17g", der, deg, ord, extra, !s.lines.empty() && g.chance(.4) ? -1 : g.below(4), th);
}

void world::generate(Rng &g, const std::string &prop, const std::string &cfg, Script &s) {
  if (prop == "C27" && cfg == "huge") {
    /* degrees of the high resolution fields, where products of three indices
     * outgrow an int (and, well above, sectorial terms a double) */
    const int deg = g.range(990, 1500), der = g.below(2);
    s.add("alf %d %d %d %d %d %.17g", der, deg, g.chance(.5) ? g.range(0, 30) : g.chance(.5) ? deg : g.range(0, deg), g.chance(.7) ? 0 : g.range(1, 3), g.below(4), g.uni(-1.2, 1.2));
    return;
  }
  if (prop == "C27") {
    int n = g.range(1, 6);
    for (int i = 0; i < n; i++)
      gen_alf(g, s, cfg == "deep" ? 190 : 60);
    return;
  }
  int nf = g.range(1, 3);
  int cap = cfg == "deep" ? (g.chance(0.3) ? 198 : 120) : (prop == "C01" ? 12 : 40);
  std::vector<FieldInfo> fi;
  if (g.chance(0.3))
    s.add("heap %d", g.below(256));
  for (int i = 0; i < nf; i++) {
    gen_field(g, s, i, cap);
    fi.push_back(info(s.lines.back()));
  }
  if (prop == "C01") {
    int nt = g.range(2, 4);
    for (int t = 0; t < nt; t++) {
      int k = g.range(1, 3);
      for (int i = 0; i < k; i++) {
        s.add("thread %d", t);
        double u = g.uni();
        if (u < 0.65) {
          int f = g.below(nf);
          gen_eval(g, s, f, fi[f], false);
        } else if (u < 0.8)
          gen_point(g, s);
        else
          gen_alf(g, s, 12);
      }
    }
#ifdef SIM_OWN_ALLOC
    SchedPlan::gen(g, s, nt, g.chance(0.5) ? 4000 : 90000);
#endif
    return;
  }
  int n = cfg == "deep" ? g.range(1, 3) : g.range(2, 10);
  double near[3] = {7e6, 1e5, 1e6};
  g_near = near;
  for (int i = 0; i < n; i++) {
    for (size_t q = s.lines.size(); q-- && i;) { /* the last position asked about */
      Tok t(s.lines[q]);
      if (t.is("eval")) {
        for (int k = 0; k < 3; k++)
          near[k] = t.d(9 + k);
        break;
      }
    }
    if (i && g.chance(.2)) { /* the field changes between calls */
      const int f = g.below(nf);
      const int q = g.below(4);
      if (q < 2) {
        const int dn = g.range(0, fi[f].deg), om = g.range(0, std::min(dn, fi[f].ord));
        s.add("mod %d %d %d %d %.17g", f, dn, om, g.below(2), g.uni(-1, 1));
      } else if (q == 2)
        s.add("scalef %d %.17g", f, g.uni(-2, 2));
      else
        s.add("gmre %d %.17g %.17g", f, g.uni(.5, 2) * 1e14, fi[f].Re * g.uni(.95, 1.05));
    }
    if (cfg == "alloc" && g.chance(0.5))
      s.add("failalloc %d", g.range(1, 8));
    if (g.chance(0.06) && cfg != "alloc") {
      /* degree at and beyond what the implementation can factor */
      int deg = g.pick(std::vector<int>{197, 198, 199, 200, 230});
      s.add("field 9 %d %d %d 6378136.3 3.986004415e14 1", deg, g.range(0, 4), g.below(1 << 30));
      FieldInfo b = info(s.lines.back());
      gen_eval(g, s, 9, b, true);
      continue;
    }
    if (g.chance(0.1)) {
      gen_point(g, s);
      continue;
    }
    int f = g.below(nf);
    gen_eval(g, s, f, fi[f], true);
    if (g.chance(0.2)) /* same arguments again later, other scratch */
      s.add("again %d %d", g.below(5) - 1, g.below(5) - 1);
  }
  g_near = nullptr;
}

/* ---- execution ------------------------------------------------------------ */
static void fill(Mat &m, int pat) {
  static const double v[] = {0e0, 1e300, -7.25, NAN};
  m.fill_with(v[pat & 3]);
}
struct EvalOut {
  int status = -99;
  V3 a;
  M3 g;
};
static int needed(int deg) { return deg + 3; }

/* scratch of the caller's that lives on from call to call (mode 1000+k) */
static std::unique_ptr<Mat> *g_arena;
static EvalOut do_eval(const dso::StokesCoeffs &cs, const Tok &t, int wm, int mm, int garbage) {
  EvalOut o;
  int deg = (int)t.i(2), ord = (int)t.i(3);
  int dd = deg < 0 ? cs.max_degree() : deg;
  V3 r(t.d(9), t.d(10), t.d(11));
  auto mk = [&](int mode) -> std::unique_ptr<Mat> {
    if (mode == -1 || mode >= 1000)
      return nullptr;
    int n = needed(dd) + (mode >= 0 ? mode : mode + 1);
    n = std::max(n, 0);
    auto p = std::make_unique<Mat>(n, n);
    fill(*p, garbage);
    return p;
  };
  auto W = mk(wm);
  auto M = mk(mm);
  auto kept = [&](int mode) {
    std::unique_ptr<Mat> &p = g_arena[mode & 3];
    const int n = needed(dd) + (mode & 3) * 2;
    if (!p || p->rows() < needed(dd)) {
      p = std::make_unique<Mat>(n, n);
      fill(*p, garbage);
    }
    return p.get();
  };
  Mat *pw = wm >= 1000 && g_arena ? kept(wm) : W.get();
  Mat *pm = mm >= 1000 && g_arena ? kept(mm) : M.get();
  o.a = V3::Constant(0.5);
  o.g = M3::Constant(0.25);
  {
    Lib l;
    o.status = dso::sh2gradient_cunningham(cs, r, o.a, o.g, deg, ord, t.d(4), t.d(5), pw, pm);
  }
  return o;
}
static void check_eval(Field &f, const Tok &t, int wm, int mm, const EvalOut &o, bool injected) {
  int deg = (int)t.i(2), ord = (int)t.i(3);
  int dd = deg < 0 ? f.deg : deg, oo = ord < 0 ? f.ord : ord;
  bool bad = dd > f.deg || oo > f.ord || oo > dd || wm <= -2 || mm <= -2;
  evals();
  if (bad) {
    if (o.status == 0)
      fail("bad-request-accepted", "degree %d order %d of a %dx%d field, scratch %d/%d, status 0", deg, ord, f.deg,
           f.ord, wm, mm);
    probe("rejected request");
    return;
  }
  if (o.status != 0) {
    if (injected) {
      probe("allocation failure reported");
      return;
    }
    /* a documented ceiling on the degree is admissible, silently wrong values are not */
    if (dd > 190) {
      probe("degree beyond factor table rejected");
      return;
    }
    fail("good-request-rejected", "degree %d order %d of a %dx%d field: status %d", deg, ord, f.deg, f.ord, o.status);
  }
  double Re = t.d(4) < 0 ? f.Re : t.d(4), GM = t.d(5) < 0 ? f.GM : t.d(5);
  double r[3] = {t.d(9), t.d(10), t.d(11)};
  Ref ref = reference(f, dd, oo, Re, GM, r);
  LD ma = 0, mg = 0;
  for (int i = 0; i < 3; i++) {
    ma = std::max(ma, ref.aacc[i]);
    for (int j = 0; j < 3; j++)
      mg = std::max(mg, ref.agrad[i][j]);
  }
  const LD tol = dd > 60 ? 1e-10L : 1e-12L;
  for (int i = 0; i < 3; i++) {
    if (!(fabsl((LD)o.a(i) - ref.acc[i]) <= tol * ma + 1e-300L))
      fail("acceleration", "degree %d order %d component %d: %.15e, harmonic sum %.15Le", dd, oo, i, o.a(i),
           ref.acc[i]);
    for (int j = 0; j < 3; j++)
      if (!(fabsl((LD)o.g(i, j) - ref.grad[i][j]) <= tol * mg + 1e-300L))
        fail("gradient", "degree %d order %d component %d,%d: %.15e, harmonic sum %.15Le", dd, oo, i, j, o.g(i, j),
             ref.grad[i][j]);
  }
  trace("eval deg=%d ord=%d a=%a %a %a", dd, oo, o.a(0), o.a(1), o.a(2));
  probe(oo < dd ? "order below degree" : "full order");
  probe(wm == -1 && mm == -1 ? "internal scratch" : (wm == -1 || mm == -1 ? "half internal scratch" : "caller scratch"));
}
static void do_point(const Tok &t, V3 &a, M3 &j) {
  V3 r(t.d(2), t.d(3), t.d(4)), b(t.d(5), t.d(6), t.d(7));
  j = M3::Zero();
  Lib l;
  if (t.i(1))
    a = dso::point_mass_acceleration(r, b, t.d(8), j);
  else
    a = dso::point_mass_acceleration(r, b, t.d(8));
}
static void check_point(const Tok &t, const V3 &a, const M3 &J) {
  evals();
  LD s[3], b[3], S2 = 0, B2 = 0, GM = t.d(8);
  for (int i = 0; i < 3; i++) {
    b[i] = t.d(5 + i);
    s[i] = (LD)t.d(2 + i) - b[i];
    S2 += s[i] * s[i];
    B2 += b[i] * b[i];
  }
  LD S3 = S2 * sqrtl(S2), B3 = B2 * sqrtl(B2);
  /* the two terms nearly cancel: the error scales with each of them */
  LD mag = GM / S2 + GM / B2;
  for (int i = 0; i < 3; i++) {
    LD e = -GM * (s[i] / S3 + b[i] / B3);
    if (!(fabsl(e - a(i)) <= 1e-14L * mag))
      fail("point-mass", "component %d: %.17e, expected %.17Le", i, a(i), e);
    if (t.i(1))
      for (int j = 0; j < 3; j++) {
        LD g = -GM * ((i == j ? 1 / S3 : 0) - 3 * s[i] * s[j] / (S3 * S2));
        if (!(fabsl(g - J(i, j)) <= 1e-13L * GM / S3))
          fail("point-mass", "jacobian %d,%d: %.17e, expected %.17Le", i, j, J(i, j), g);
      }
  }
  probe("point mass");
}
/* alf <deriv> <deg> <ord> <extra rows> <pattern> <theta> */
static void do_alf(const Tok &t, Mat &P, Mat &D, int &rc) {
  if (t.i(5) >= 0) {
    fill(P, (int)t.i(5));
    fill(D, (int)t.i(5) + 1);
  }
  Lib l;
  rc = t.i(1) ? dso::normalised_associated_legendre_functions(t.d(6), (int)t.i(2), (int)t.i(3), P, D)
              : dso::normalised_associated_legendre_functions(t.d(6), (int)t.i(2), (int)t.i(3), P);
}
static void check_alf(const Tok &t, const Mat &P, const Mat &D, int rc) {
  evals();
  int deg = (int)t.i(2), ord = (int)t.i(3);
  LD th = t.d(6), u = cosl(th), x = sinl(th);
  if (rc != 0)
    fail("legendre-status", "status %d for degree %d order %d", rc, deg, ord);
  for (int m = 0; m <= ord; m++) {
    LD p0 = 1;
    for (int k = 1; k <= m; k++)
      p0 *= (2 * k - 1) * u;
    LD pm1 = 0, p = p0, col = 0;
    bool lost = false; /* the sectorial term is about to underflow */
    for (int n = m; n <= deg; n++) {
      if (n > m) {
        LD q = ((2 * n - 1) * x * p - (n + m - 1) * pm1) / (n - m);
        pm1 = p;
        p = q;
      }
      LD lr = 0;
      if (deg > 400)
        lr = lgammal((LD)(n - m + 1)) - lgammal((LD)(n + m + 1));
      else
        for (int k = n - m + 1; k <= n + m; k++)
          lr -= logl((LD)k);
      LD N = sqrtl((m ? 2.0L : 1.0L) * (2 * n + 1)) * expl(lr / 2);
      LD e = N * p;
      /* the largest value of the column so far is what the recurrence of a column rounds at */
      col = fmaxl(col, fabsl(e));
      if (n == m)
        lost = fabsl(e) < 1e-280L;
      LD tol = lost ? 1e-12L * sqrtl((LD)(2 * n + 1)) : 5e-14L * (n + 5) * col;
      if (!(fabsl(e - P(n, m)) <= tol))
        fail("legendre-value", "degree %d order %d of %dx%d theta %g: %.15e expected %.15Le", n, m, deg, ord, t.d(6),
             P(n, m), e);
      if (t.i(1)) {
        /* d/dtheta of P(sin theta): (n x P(n) - (n+m) P(n-1)) / (-u) in x; with latitude theta the
         * library returns the derivative w.r.t. colatitude-type argument: n t/u P(n) - f P(n-1)/u */
        LD e2 = (n * x * p - (n + m) * pm1) / u * N;
        LD tol2 = 1e-10L * (fabsl(e2) + (LD)(n + 1) * sqrtl((LD)(2 * n + 1)) / fabsl(u));
        if (!(fabsl(e2 - D(n, m)) <= tol2))
          fail("legendre-derivative", "degree %d order %d of %dx%d theta %g: %.15e expected %.15Le", n, m, deg, ord,
               t.d(6), D(n, m), e2);
      }
    }
  }
  probe(t.i(4) ? "larger matrix" : "exact matrix");
  if (ord < deg)
    probe("order below degree");
}

static Field field_of(const Tok &t) {
  return make_field((int)t.i(2), (int)t.i(3), t.u(4), t.d(5), t.d(6), (int)t.i(7));
}

#ifdef SIM_OWN_ALLOC
static std::string run_op(const Tok &t, std::vector<dso::StokesCoeffs> &cs) {
  std::string out;
  auto put = [&](const void *p, size_t n) { out.append((const char *)p, n); };
  if (t.is("eval")) {
    EvalOut o = do_eval(cs[t.i(1)], t, (int)t.i(6), (int)t.i(7), (int)t.i(8));
    put(&o.status, sizeof o.status);
    put(o.a.data(), sizeof(double) * 3);
    put(o.g.data(), sizeof(double) * 9);
  } else if (t.is("point")) {
    V3 a;
    M3 j;
    do_point(t, a, j);
    put(a.data(), sizeof(double) * 3);
    put(j.data(), sizeof(double) * 9);
  } else if (t.is("alf")) {
    int n = (int)t.i(2) + 1 + (int)t.i(4), rc;
    Mat P(n, n), D(n, n);
    do_alf(t, P, D, rc);
    for (int m = 0; m <= t.i(3); m++)
      for (int k = m; k <= t.i(2); k++) {
        double a = P(k, m), b = t.i(1) ? D(k, m) : 0;
        put(&a, 8);
        put(&b, 8);
      }
  }
  return out;
}
static void execute_mt(const Script &s) {
  std::vector<dso::StokesCoeffs> cs;
  std::vector<std::vector<Tok>> ops;
  SchedPlan plan;
  int cur = 0;
  for (auto &l : s.lines) {
    Tok t(l);
    plan.feed(t);
    if (t.is("heap"))
      heap_pattern((unsigned char)t.i(1));
    if (t.is("field")) {
      Field f = field_of(t);
      cs.push_back(to_stokes(f, (int)t.i(8)));
    } else if (t.is("thread")) {
      cur = (int)t.i(1) % 6;
      if ((int)ops.size() <= cur)
        ops.resize(cur + 1);
    } else if (t.is("eval") || t.is("point") || t.is("alf")) {
      if (ops.empty())
        ops.resize(1);
      if (t.is("eval") && t.i(1) >= (long)cs.size())
        continue;
      ops[cur].push_back(t);
    }
  }
  if (ops.empty())
    return;
  /* what each call gives as the first call of a fresh process */
  std::vector<std::vector<std::string>> want(ops.size()), got(ops.size());
  for (size_t i = 0; i < ops.size(); i++)
    for (auto &t : ops[i])
      want[i].push_back(in_fresh_process([&] { return run_op(t, cs); }));
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < ops.size(); i++)
    bodies.push_back([&, i] {
      for (auto &t : ops[i])
        got[i].push_back(run_op(t, cs));
    });
  run_threads(plan, bodies);
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t k = 0; k < ops[i].size(); k++) {
      evals();
      opcount(ops[i][k].s(0).c_str());
      trace("thread %zu op %zu %s %016lx", i, k, ops[i][k].s(0).c_str(), (unsigned long)fnvs(got[i][k]));
      if (want[i][k].empty())
        fail("isolated-call-failed", "the call alone in a fresh process did not return");
      if (got[i][k] != want[i][k])
        fail("concurrent-result", "thread %zu operation %zu (%s) differs from the same call alone", i, k,
             ops[i][k].s(0).c_str());
    }
  if (sched_switches() > 1) {
    nontrivial();
    probe("interleaved run");
  }
}
#endif

void world::execute(const Script &s, const std::string &prop) {
#ifdef SIM_OWN_ALLOC
  if (prop == "C01")
    return execute_mt(s);
#endif
  (void)prop;
  Field fs[10];
  std::unique_ptr<dso::StokesCoeffs> cs[10];
  std::unique_ptr<Mat> arena[4];
  g_arena = arena;
  struct Done {
    ~Done() { g_arena = nullptr; }
  } done;
  Tok last("");
  bool have = false, pending = false;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("heap"))
      heap_pattern((unsigned char)t.i(1));
    else if (t.is("failalloc"))
      pending = true;
    if (t.is("failalloc")) {
      alloc_fail_after(t.i(1));
      continue;
    }
    if (t.is("field") && t.i(1) >= 0 && t.i(1) < 10) {
      bool p = pending;
      (void)p;
      fs[t.i(1)] = field_of(t);
      cs[t.i(1)] = std::make_unique<dso::StokesCoeffs>(to_stokes(fs[t.i(1)], (int)t.i(8)));
    } else if ((t.is("mod") || t.is("scalef") || t.is("gmre")) && t.i(1) >= 0 && t.i(1) < 10 && cs[t.i(1)]) {
      Field &f = fs[t.i(1)];
      dso::StokesCoeffs &c = *cs[t.i(1)];
      opcount("change the field");
      if (t.is("mod")) {
        const int n = (int)t.i(2), m = (int)t.i(3);
        if (n < 0 || n > f.deg || m < 0 || m > std::min(n, f.ord))
          continue;
        if (t.i(4) && m)
          f.S(n, m) = c.S(n, m) = t.d(5);
        else
          f.C(n, m) = c.C(n, m) = t.d(5);
      } else if (t.is("scalef")) {
        for (int n = 0; n <= f.deg; n++)
          for (int m = 0; m <= std::min(n, f.ord); m++)
            f.C(n, m) *= t.d(2), f.S(n, m) *= t.d(2);
        Lib l2;
        c.scale(t.d(2));
      } else {
        f.GM = c.GM() = t.d(2);
        f.Re = c.Re() = t.d(3);
      }
      probe("field changed between calls");
    } else if (t.is("point")) {
      V3 a;
      M3 j;
      do_point(t, a, j);
      check_point(t, a, j);
      opcount("point");
      nontrivial();
    } else if (t.is("alf")) {
      int n = (int)t.i(2) + 1 + (int)t.i(4), rc = 0;
      static std::unique_ptr<Mat> kp, kd;
      if (t.i(5) >= 0 || !kp || kp->rows() < n) {
        kp = std::make_unique<Mat>(n, n);
        kd = std::make_unique<Mat>(n, n);
        fill(*kp, 1);
        fill(*kd, 2);
      } else
        probe("matrix of an earlier call");
      Mat &P = *kp, &D = *kd;
      do_alf(t, P, D, rc);
      check_alf(t, P, D, rc);
      opcount(t.i(1) ? "alf+derivative" : "alf");
      trace("alf %ld %ld %a", t.i(2), t.i(3), P((int)t.i(2), 0));
      state(fnvs(l.substr(0, 12)));
      nontrivial();
    } else if (t.is("eval") || (t.is("again") && have)) {
      Tok e = t.is("eval") ? t : last;
      int wm = (int)(t.is("eval") ? t.i(6) : t.i(1)), mm = (int)(t.is("eval") ? t.i(7) : t.i(2));
      if (e.i(1) < 0 || e.i(1) >= 10 || !cs[e.i(1)])
        continue;
      last = e;
      have = true;
      long before = alloc_failed();
      EvalOut o = do_eval(*cs[e.i(1)], e, wm, mm, (int)e.i(8));
      bool inj = alloc_failed() > before;
      alloc_fail_clear();
      pending = false;
      if (inj)
        fault("allocation failure");
      check_eval(fs[e.i(1)], e, wm, mm, o, inj);
      if (t.is("again"))
        probe("repeated call");
      if (wm >= 1000)
        probe("scratch of an earlier call");
      opcount("eval");
      state(((uint64_t)fs[e.i(1)].deg << 40) ^ ((uint64_t)(e.i(2) + 1) << 24) ^ ((uint64_t)(e.i(3) + 1) << 8) ^ wm ^ (mm << 4));
      nontrivial();
    }
  }
  for (int i = 0; i < 10; i++) /* evaluating changes no field */
    if (cs[i])
      for (int n = 0; n <= fs[i].deg; n++)
        for (int m = 0; m <= std::min(n, fs[i].ord); m++)
          if (cs[i]->C(n, m) != fs[i].C(n, m) || cs[i]->S(n, m) != fs[i].S(n, m))
            fail("field-changed", "coefficient %d,%d of field %d is not what it was", n, m, i);
  for (auto &p : arena)
    p.reset();
  check_leaks("end of run");
}
