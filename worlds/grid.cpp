/* World "grid": two-dimensional node grids under histories (C33). Grids with
 * either leading axis are built, copied, assigned and asked for the cell of a
 * point, the node of an index and the nodes around a point. */
#include "sim.hpp"
#include "grid.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <new>
using namespace sim;
typedef long double LD;
const char *const world::name = "grid";

/* ---- generation --------------------------------------------------------------- */
static void axis(Rng &r, char *out, size_t n) {
  const int style = r.below(4);
  const int pts = r.chance(.15) ? 1 : r.chance(.1) ? r.range(200, 1500) : r.range(2, 40);
  double start, step;
  if (style == 0) { /* dyadic */
    step = std::ldexp((double)r.range(1, 5), r.range(-4, 2));
    start = r.range(-400, 400) * .25;
  } else if (style == 1) { /* as in geodetic products */
    static const double st[] = {.5, 1, 2.5, .25, .1, .05, 1. / 3};
    step = st[r.below(7)];
    start = r.chance(.5) ? -90 + (r.chance(.5) ? step / 2 : 0) : (r.chance(.5) ? -180. : 0.) + (r.chance(.5) ? step / 2 : 0);
  } else if (style == 2) {
    step = (1 + r.below(100000)) * 1e-4;
    start = (r.below(2000001) - 1000000) * 1e-3;
  } else {
    step = std::ldexp(1 + r.below(1 << 20) / 1048576., r.range(-20, 10));
    start = std::ldexp((r.chance(.5) ? -1 : 1) * (1 + r.below(1 << 20) / 1048576.), r.range(-10, 12));
  }
  snprintf(out, n, "%.17g %.17g %d", start, step, pts);
}
void world::generate(Rng &r, const std::string &, const std::string &, Script &s) {
  const int ops = r.range(10, 90);
  for (int k = 0; k < ops; k++) {
    const int a = r.below(3), b = r.below(3), w = k < 2 ? 0 : r.below(50);
    char x[96], y[96];
    if (w < 3) {
      axis(r, x, sizeof x);
      axis(r, y, sizeof y);
      s.add("new %d %d %s %s", a, r.below(2), x, y);
    } else if (w < 4)
      s.add("empty %d %d", a, r.below(2));
    else if (w < 6)
      s.add("copy %d %d", a, b);
    else if (w < 8)
      s.add("assign %d %d", a, b);
    else if (w < 18)
      s.add("node %d %d %d", a, r.chance(.2) ? r.range(-1, 0) : r.below(100000), r.chance(.2) ? r.range(-1, 0) : r.below(100000));
    else if (w < 34) /* column, row, fraction of the cell in 1/1000 (0: on a node) */
      s.add("%s %d %d %d %d %d", w < 26 ? "line" : "around", a, r.chance(.2) ? r.range(-1, 0) : r.below(100000), r.chance(.2) ? r.range(-1, 0) : r.below(100000),
            r.chance(.3) ? 0 : r.range(1, 999), r.chance(.3) ? 0 : r.range(1, 999));
    else if (w < 40) /* next to a border: which axis, side, how far */
      s.add("edge %d %d %d %d %d", a, r.below(2), r.below(2), r.range(-3, 3), r.below(100000));
    else
      s.add("out %d %d %d %d", a, r.below(8), r.range(1, 5000), r.below(2));
  }
}

/* ---- execution ---------------------------------------------------------------------- */
struct Model {
  double xs = 0, dx = 0, ys = 0, dy = 0;
  int nx = 0, ny = 0;
  bool xlead = false;
  long index(long i, long j) const { return xlead ? i * ny + j : j * nx + i; }
};
typedef dso::TwoDimGrid<dso::GridAxis::X> GX;
typedef dso::TwoDimGrid<dso::GridAxis::Y> GY;
struct Slot {
  std::unique_ptr<GX> x;
  std::unique_ptr<GY> y;
  Model m;
  bool any() const { return x || y; }
};
template <class F> static auto on(const Slot &s, F f) {
  Lib lib;
  return s.m.xlead ? f(*s.x) : f(*s.y);
}
static void close(double got, LD want, LD scale, const char *what) {
  if (!(fabsl(got - want) <= 8 * 0x1p-53L * scale))
    fail("node", "%s is %.17g, not %.17Lg", what, got, want);
}
static LD node(double start, double step, long k) { return (LD)start + (LD)k * step; }
static void shape(const Slot &s) {
  const Model &m = s.m;
  const bool ok = on(s, [&](auto &g) {
    return g.xpts() == m.nx && g.ypts() == m.ny && g.xstart() == m.xs && g.ystart() == m.ys && g.xstep() == m.dx && g.ystep() == m.dy;
  });
  if (!ok)
    fail("shape", "a grid reports another shape than it was made with");
  close(on(s, [&](auto &g) { return g.xstop(); }), node(m.xs, m.dx, m.nx), fabs(m.xs) + m.nx * fabs(m.dx), "the end in x");
  close(on(s, [&](auto &g) { return g.ystop(); }), node(m.ys, m.dy, m.ny), fabs(m.ys) + m.ny * fabs(m.dy), "the end in y");
}
static void where(const Slot &s, long idx, double &x, double &y) {
  on(s, [&](auto &g) {
    auto n = g.xyindex2node(idx);
    x = n.x, y = n.y;
  });
}
/* the columns a coordinate may belong to: one, or two when it is (all but) on a node */
static void cell(double v, double start, double step, long &lo, long &hi) {
  const LD q = ((LD)v - start) / step;
  const LD slack = 4 * 0x1p-53L * (fabsl((LD)v) + fabsl((LD)start)) / step + 4 * 0x1p-53L * fabsl(q);
  lo = (long)floorl(q - slack);
  hi = (long)floorl(q + slack);
}
static long line(const Slot &s, double x, double y) {
  return on(s, [&](auto &g) { return g.line(x, y); });
}
struct Four {
  long bl, br, tl, tr;
};
static Four around(const Slot &s, double x, double y) {
  Four f;
  static long junk = 77;
  f.bl = f.br = f.tl = f.tr = junk++ * 1000003;
  on(s, [&](auto &g) { g.surrounding_nodes(x, y, f.bl, f.br, f.tl, f.tr); });
  return f;
}
/* a point that may or may not be in range; ask and judge */
static void ask(const Slot &s, double x, double y, bool four) {
  const Model &m = s.m;
  evals();
  long xl = 0, xh = 0, yl = 0, yh = 0;
  bool sure_out = !std::isfinite(x) || !std::isfinite(y) || !m.nx || !m.ny;
  if (!sure_out) {
    cell(x, m.xs, m.dx, xl, xh);
    cell(y, m.ys, m.dy, yl, yh);
    sure_out = xh < 0 || xl >= m.nx || yh < 0 || yl >= m.ny;
  }
  bool sure_in = !sure_out && xl >= 0 && xh < m.nx && yl >= 0 && yh < m.ny;
  long got;
  Four f{0, 0, 0, 0};
  if (four) {
    f = around(s, x, y);
    got = f.bl;
  } else
    got = line(s, x, y);
  trace("%s (%.17g, %.17g): %ld", four ? "around" : "line", x, y, got);
  if (sure_out) {
    probe("out of range");
    if (got >= 0)
      fail("range", "(%.17g, %.17g) is out of range, and was given index %ld", x, y, got);
    if (four && (f.br >= 0 || f.tl >= 0 || f.tr >= 0))
      fail("range", "(%.17g, %.17g) is out of range, and was given the nodes %ld %ld %ld %ld", x, y, f.bl, f.br, f.tl, f.tr);
    return;
  }
  if (got < 0) {
    if (sure_in)
      fail("range", "(%.17g, %.17g) is in range and was refused", x, y);
    return;
  }
  bool hit = false;
  for (long i = std::max(0L, xl); i <= std::min<long>(m.nx - 1, xh); i++)
    for (long j = std::max(0L, yl); j <= std::min<long>(m.ny - 1, yh); j++) {
      if (got != m.index(i, j))
        continue;
      hit = true;
      if (four && i + 1 < m.nx && j + 1 < m.ny) {
        if (f.br != m.index(i + 1, j) || f.tl != m.index(i, j + 1) || f.tr != m.index(i + 1, j + 1))
          fail("around", "the nodes around column %ld, row %ld of %d x %d (%c first) are %ld %ld %ld %ld", i, j, m.nx, m.ny, m.xlead ? 'x' : 'y', f.bl, f.br, f.tl, f.tr);
        probe("surrounded");
      }
    }
  if (!hit)
    fail("cell", "(%.17g, %.17g) is in column %ld, row %ld of %d x %d (%c first), and was given index %ld", x, y, xl, yl, m.nx, m.ny, m.xlead ? 'x' : 'y', got);
  nontrivial();
  state((uint64_t)got * 1000003 + (uint64_t)m.nx * 4099 + m.ny * 2 + m.xlead);
  probe(xl != xh || yl != yh ? "on a node line" : "inside a cell");
  /* the node of the index is at or before the point */
  double nx, ny;
  where(s, got, nx, ny);
  const LD ex = (LD)x - nx, ey = (LD)y - ny, sx = 16 * 0x1p-53L * (fabs(x) + fabs(m.xs) + m.nx * m.dx), sy = 16 * 0x1p-53L * (fabs(y) + fabs(m.ys) + m.ny * m.dy);
  if (!(ex >= -sx && ex < m.dx + sx && ey >= -sy && ey < m.dy + sy))
    fail("node", "(%.17g, %.17g) was given index %ld, whose node is (%.17g, %.17g) (steps %g, %g)", x, y, got, nx, ny, m.dx, m.dy);
}
static long pick(long v, int n) { return v < 0 ? n - 1 : v % n; }
void world::execute(const Script &sc, const std::string &) {
  Slot slot[3];
  for (auto &l : sc.lines) {
    Tok t(l);
    const int a = (int)((t.i(1) % 3 + 3) % 3), b = (int)((t.i(2) % 3 + 3) % 3);
    Slot &s = slot[a], &o = slot[b];
    auto d = [&](int k) { return atof(t.s(k).c_str()); };
    if (t.is("new") || t.is("empty")) {
      opcount(t.s(0).c_str());
      s.x.reset();
      s.y.reset();
      s.m = Model();
      s.m.xlead = t.i(2) & 1;
      Model &m = s.m;
      if (t.is("new")) {
        m.xs = d(3), m.dx = d(4), m.nx = (int)std::max(1L, t.i(5)), m.ys = d(6), m.dy = d(7), m.ny = (int)std::max(1L, t.i(8));
        if (!(m.dx > 0) || !(m.dy > 0)) {
          s.m = Model();
          continue;
        }
        Lib lib;
        if (m.xlead)
          s.x = std::make_unique<GX>(m.xs, m.dx, m.nx, m.ys, m.dy, m.ny);
        else
          s.y = std::make_unique<GY>(m.xs, m.dx, m.nx, m.ys, m.dy, m.ny);
      } else {
        Lib lib;
        if (m.xlead)
          s.x = std::make_unique<GX>();
        else
          s.y = std::make_unique<GY>();
      }
      shape(s);
    } else if (!s.any()) {
      continue;
    } else if (t.is("copy") || t.is("assign")) {
      if (!o.any())
        continue;
      opcount(t.s(0).c_str());
      if (t.is("assign") && s.m.xlead == o.m.xlead) {
        Lib lib;
        if (s.m.xlead)
          *s.x = *o.x;
        else
          *s.y = *o.y;
      } else if (a != b) {
        Lib lib;
        s.x = o.x ? std::make_unique<GX>(*o.x) : nullptr;
        s.y = o.y ? std::make_unique<GY>(*o.y) : nullptr;
      }
      if (a != b)
        s.m = o.m;
      shape(s);
      shape(o);
    } else if (t.is("node")) {
      const Model &m = s.m;
      if (!m.nx)
        continue;
      opcount("node");
      evals();
      const long i = pick(t.i(2), m.nx), j = pick(t.i(3), m.ny);
      double x, y;
      where(s, m.index(i, j), x, y);
      trace("node %ld: %.17g %.17g", m.index(i, j), x, y);
      close(x, node(m.xs, m.dx, i), fabs(m.xs) + m.nx * m.dx, "the node's x");
      close(y, node(m.ys, m.dy, j), fabs(m.ys) + m.ny * m.dy, "the node's y");
      nontrivial();
      probe(m.nx != m.ny ? "node of an oblong grid" : "node of a square grid");
      ask(s, x, y, false);
      ask(s, x, y, true);
    } else if (t.is("line") || t.is("around")) {
      const Model &m = s.m;
      if (!m.nx)
        continue;
      opcount(t.s(0).c_str());
      const long i = pick(t.i(2), m.nx), j = pick(t.i(3), m.ny);
      ask(s, (double)(node(m.xs, m.dx, i) + t.i(4) / 1000.L * m.dx), (double)(node(m.ys, m.dy, j) + t.i(5) / 1000.L * m.dy), t.is("around"));
    } else if (t.is("edge")) {
      const Model &m = s.m;
      if (!m.nx)
        continue;
      opcount("edge");
      const bool onx = t.i(2) & 1, far = t.i(3) & 1;
      double v = onx ? (far ? on(s, [](auto &g) { return g.xstop(); }) : m.xs) : (far ? on(s, [](auto &g) { return g.ystop(); }) : m.ys);
      for (long k = t.i(4); k; k += k < 0 ? 1 : -1)
        v = std::nextafter(v, k < 0 ? -HUGE_VAL : HUGE_VAL);
      const long q = pick(t.i(5), onx ? m.ny : m.nx);
      const double w = (double)(onx ? node(m.ys, m.dy, q) + m.dy * .375L : node(m.xs, m.dx, q) + m.dx * .375L);
      probe("at a border");
      ask(s, onx ? v : w, onx ? w : v, t.i(5) & 1);
    } else if (t.is("out")) {
      const Model &m = s.m;
      opcount("out");
      const double far = t.i(3) * .01, x0 = m.xs + m.dx * .5, y0 = m.ys + m.dy * .5;
      const double nan = std::numeric_limits<double>::quiet_NaN();
      double x = x0, y = y0;
      switch (t.i(2) & 7) {
      case 0: x = m.xs - far; break;
      case 1: x = m.xs + m.nx * m.dx + far; break;
      case 2: y = m.ys - far; break;
      case 3: y = m.ys + m.ny * m.dy + far; break;
      case 4: x = nan; break;
      case 5: y = nan; break;
      case 6: x = t.i(3) & 1 ? HUGE_VAL : -HUGE_VAL; break;
      default: y = t.i(3) & 1 ? HUGE_VAL : -HUGE_VAL; break;
      }
      ask(s, x, y, t.i(4) & 1);
    }
  }
  for (auto &s : slot) {
    s.x.reset();
    s.y.reset();
  }
  check_leaks("at the end");
}
