/* World "sums": compensated accumulators under histories (C32). Several
 * accumulators are created, fed, read, copied, assigned and reset in a seeded
 * order; the oracle keeps every sum exactly, as a non-overlapping expansion. */
#include "sim.hpp"
#include "kahan.hpp"
#include <cmath>
#include <cstring>
#include <new>
#include <vector>
using namespace sim;
const char *const world::name = "sums";

/* ---- exact sums ------------------------------------------------------------ */
struct Exact {
  std::vector<double> e; /* non-overlapping, increasing magnitude */
  long double mag = 0;   /* sum of the magnitudes of all terms */
  long n = 0;
  void add(double v) {
    std::vector<double> r;
    double q = v;
    for (double x : e) {
      const double s = q + x, b = s - q, err = (q - (s - b)) + (x - b);
      if (err != 0)
        r.push_back(err);
      q = s;
    }
    if (q != 0)
      r.push_back(q);
    e.swap(r);
    mag += fabsl((long double)v);
    n++;
  }
  __float128 value() const {
    __float128 s = 0;
    for (double x : e)
      s += x;
    return s;
  }
};

/* ---- generation --------------------------------------------------------------- */
static double term(Rng &r, int style, double last) {
  const double m = (r.chance(.5) ? -1 : 1) * (1 + r.below(1 << 20) / 1048576. + r.below(1 << 30) * 0x1p-52);
  switch (style) {
  case 0: /* alike */
    return m;
  case 1: /* wide */
    return std::ldexp(m, r.range(-60, 60));
  case 2: /* cancelling */
    return r.chance(.45) ? -last : std::ldexp(m, r.range(-50, 20));
  case 3: /* a large one among small ones */
    return r.chance(.1) ? std::ldexp(m, r.range(40, 55)) : m * 1e-3;
  case 4: /* a series, all of one sign */
    return std::fabs(m) * .1;
  case 5: /* ties in magnitude and signed zeros */
    return r.chance(.2) ? (r.chance(.5) ? 0. : -0.) : r.chance(.5) ? last : -last;
  default: /* far apart */
    return std::ldexp(m, r.chance(.5) ? r.range(-900, -700) : r.range(-30, 30));
  }
}
void world::generate(Rng &r, const std::string &, const std::string &, Script &s) {
  const int ops = r.range(6, r.chance(.2) ? 300 : 60), style = r.below(8);
  double last = 1, big = 0;
  for (int k = 0; k < ops; k++) {
    const int a = r.below(4), b = r.below(4), w = k < 3 ? 0 : r.below(60);
    const double v = term(r, style == 7 ? r.below(7) : style, last);
    if (w < 3)
      s.add("new %d %.17g", a, r.chance(.4) ? 0. : v);
    else if (w < 40) {
      s.add("add %d %.17g", a, r.chance(.05) && big != 0 ? -big : v);
      last = v;
      if (std::fabs(v) > std::fabs(big) || r.chance(.02))
        big = v;
    } else if (w < 42) {
      /* the same terms, many times */
      s.add("rep %d %.17g %d", a, v, r.range(2, 2000));
    } else if (w < 50)
      s.add("read %d", a);
    else if (w < 53)
      s.add("copy %d %d", a, b);
    else if (w < 56)
      s.add("assign %d %d", a, b);
    else if (w < 57)
      s.add("set %d %.17g", a, r.chance(.4) ? 0. : v);
    else if (w < 58)
      s.add("def %d", a);
    else
      s.add("same %d %d", a, b);
  }
  for (int a = 0; a < 4; a++)
    s.add("read %d", a);
}

/* ---- execution ---------------------------------------------------------------------- */
typedef dso::KahanSum K;
struct Slot {
  alignas(K) unsigned char raw[sizeof(K)];
  K *k = nullptr;
  Exact x;
};
static uint64_t dirt = 0x9e3779b97f4a7c15ULL;
static void soil(Slot &s) {
  for (auto &c : s.raw)
    c = (unsigned char)((dirt = dirt * 6364136223846793005ULL + 1442695040888963407ULL) >> 56);
}
static double value(const K &k) {
  Lib lib;
  return (double)k;
}
static void judge(Slot &s, int a, const char *when) {
  const double got = value(*s.k), again = value(*s.k);
  if (memcmp(&got, &again, sizeof got))
    fail("read", "accumulator %d reads %.17g and then %.17g", a, got, again);
  const __float128 want = s.x.value();
  const __float128 u = 0x1p-53;
  const __float128 aw = want < 0 ? -want : want;
  const __float128 tol = 4 * u * aw + 4 * (__float128)(s.x.n + 2) * (s.x.n + 2) * u * u * s.x.mag + 0x1p-1070;
  __float128 d = want - got;
  if (d < 0)
    d = -d;
  evals();
  trace("%s %d: %.17g of %ld terms", when, a, got, s.x.n);
  if (!(d <= tol))
    fail("sum", "%s: accumulator %d of %ld terms (magnitudes %.6Lg) holds %.17g, the exact sum is %.17g", when, a, s.x.n, s.x.mag, got, (double)want);
  if (s.x.n > 1) {
    nontrivial();
    if (aw < (__float128)s.x.mag * 0x1p-30)
      probe("cancelled");
    uint64_t h;
    memcpy(&h, &got, 8);
    state(h ^ ((uint64_t)s.x.n << 52));
  }
}
static void add(Slot &s, double v) {
  {
    Lib lib;
    *s.k += v;
  }
  s.x.add(v);
}
void world::execute(const Script &sc, const std::string &) {
  Slot slot[4];
  for (auto &l : sc.lines) {
    Tok t(l);
    const int a = (int)((t.i(1) % 4 + 4) % 4), b = (int)((t.i(2) % 4 + 4) % 4);
    Slot &s = slot[a], &o = slot[b];
    const double v = t.s(2).empty() ? 0 : atof(t.s(2).c_str());
    if (t.is("new") || t.is("def")) {
      opcount("new");
      soil(s);
      {
        Lib lib;
        s.k = t.is("def") ? new (s.raw) K : new (s.raw) K(v);
      }
      s.x = Exact();
      if (t.is("new"))
        s.x.add(v);
      judge(s, a, "new");
    } else if (!s.k) {
      continue;
    } else if (t.is("add")) {
      opcount("add");
      add(s, v);
    } else if (t.is("rep")) {
      opcount("add");
      for (long q = 0; q < t.i(3); q++)
        add(s, v);
      probe("long series");
      judge(s, a, "series");
    } else if (t.is("read")) {
      opcount("read");
      judge(s, a, "read");
    } else if (t.is("set")) {
      opcount("set");
      {
        Lib lib;
        *s.k = K(v);
      }
      s.x = Exact();
      s.x.add(v);
      judge(s, a, "set");
    } else if (!o.k) {
      continue;
    } else if (t.is("copy")) {
      if (a == b)
        continue;
      opcount("copy");
      soil(s);
      {
        Lib lib;
        s.k = new (s.raw) K(*o.k);
      }
      s.x = o.x;
      judge(s, a, "copy");
    } else if (t.is("assign")) {
      opcount("assign");
      {
        Lib lib;
        *s.k = *o.k;
      }
      if (a != b)
        s.x = o.x;
      judge(s, a, "assigned");
    } else if (t.is("same")) {
      /* two accumulators carry on alike from a copy */
      if (a == b)
        continue;
      opcount("same");
      K c(*o.k);
      for (int q = 0; q < 3; q++) {
        const double w = std::ldexp(1 + q * .37, 3 * q - 40);
        add(o, w);
        Lib lib;
        c += w;
      }
      const double x = value(c), y = value(*o.k);
      if (memcmp(&x, &y, sizeof x))
        fail("copy", "a copy that was fed the same terms reads %.17g, the original %.17g", x, y);
      judge(o, b, "same");
      probe("copy carried on");
    }
  }
  check_leaks("at the end");
}
