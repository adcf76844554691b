/* World "coeffs": coefficient matrices and Stokes coefficient sets driven by
 * random operation histories over a simulated heap (fresh memory holds seeded
 * garbage, blocks are accounted for, the n-th allocation can fail).
 * Reference model: a plain (row,column) -> value map per object.
 *
 *   C04  matrix histories, fault free        C07  expressions
 *   C06  Stokes set histories, fault free    C05  allocation failures
 */
#include "sim.hpp"
#include "coeff_matrix_2d.hpp"
#include "stokes_coefficients.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <optional>
using namespace sim;
using S = dso::MatrixStorageType;
const char *const world::name = "coeffs";

static const char *const stn[] = {"row", "col", "trap", "ltrow", "ltcol"};
static bool tri(int st) { return st >= 3; }
/* which (i,j) exist */
static bool valid(int st, int i, int j, int r, int c) {
  if (i < 0 || j < 0 || i >= r || j >= c)
    return false;
  return st < 2 ? true : j <= i;
}
struct Model {
  int r = 0, c = 0;
  std::map<std::pair<int, int>, double> v; /* only specified entries */
  bool dead = true;                        /* no object in the slot */
  bool any = false;                        /* moved-from or torn: only assign/resize/destroy */
};
static bool fits(int st, int r, int c) { return r >= 0 && c >= 0 && r <= 24 && c <= 24 && (!tri(st) || r == c); }

template <S ST> struct Mach {
  using M = dso::CoeffMatrix2D<ST>;
  static constexpr int st = (int)ST;
  static constexpr int N = 4;
  M *o[N] = {nullptr, nullptr, nullptr, nullptr};
  Model m[N];
  bool faulty;
  explicit Mach(bool f) : faulty(f) {}

  void check(int k, const char *after) {
    if (m[k].dead || m[k].any)
      return;
    const M &x = *o[k];
    evals();
    if (x.rows() != m[k].r || x.cols() != m[k].c)
      fail("matrix-dims", "%s after %s: %dx%d, expected %dx%d", stn[st], after, x.rows(), x.cols(), m[k].r, m[k].c);
    std::size_t want = 0;
    for (int i = 0; i < m[k].r; i++)
      for (int j = 0; j < m[k].c; j++)
        want += valid(st, i, j, m[k].r, m[k].c);
    if (x.num_elements() != want)
      fail("matrix-dims", "%s after %s: %zu elements, expected %zu", stn[st], after, x.num_elements(), want);
    uint64_t h = fnv(&m[k].r, sizeof(int), 77 + st);
    for (auto &e : m[k].v) {
      int i = e.first.first, j = e.first.second;
      double got = x(i, j);
      h = fnv(&e, sizeof e, h);
      if (!(got == e.second))
        fail("matrix-value", "%s after %s: (%d,%d) is %.17g, expected %.17g", stn[st], after, i, j, got, e.second);
      /* the same element through the row/column pointers */
      double p;
      if constexpr (dso::StorageImplementation<ST>::isRowMajor)
        p = x.row(i)[j];
      else
        p = x.column(j)[st == 4 ? i - j : i];
      if (!(p == e.second))
        fail("matrix-slice", "%s after %s: slice access of (%d,%d) is %.17g, expected %.17g", stn[st], after, i, j, p,
             e.second);
    }
    state(h);
  }
  void checkall(const char *after) {
    for (int k = 0; k < N; k++)
      check(k, after);
  }
  void put(int k, M *p) {
    {
      Lib l;
      delete o[k];
    }
    o[k] = p;
  }
  bool alive(int k) const { return k >= 0 && k < N && !m[k].dead; }
  bool usable(int k) const { return alive(k) && !m[k].any; }
  /* element-wise combination of known entries */
  template <class F> Model zip(const Model &a, const Model &b, F f) {
    Model q;
    q.r = a.r;
    q.c = a.c;
    q.dead = false;
    for (auto &e : a.v) {
      auto it = b.v.find(e.first);
      if (it != b.v.end())
        q.v[e.first] = f(e.second, it->second);
    }
    return q;
  }
  template <class F> Model map1(const Model &a, F f) {
    Model q = a;
    for (auto &e : q.v)
      e.second = f(e.second);
    return q;
  }
  Model view(const Model &a, int r, int c) {
    Model q;
    q.r = r;
    q.c = c;
    q.dead = false;
    for (auto &e : a.v)
      if (e.first.first < r && e.first.second < c)
        q.v[e.first] = e.second;
    return q;
  }
  /* a += q on q's region: result unknown where q or a is unknown */
  void addto(Model &a, const Model &q) {
    for (int i = 0; i < q.r; i++)
      for (int j = 0; j < q.c; j++) {
        if (!valid(st, i, j, a.r, a.c))
          continue;
        auto x = a.v.find({i, j});
        auto y = q.v.find({i, j});
        if (x == a.v.end())
          continue;
        if (y == q.v.end())
          a.v.erase(x);
        else
          x->second += y->second;
      }
  }
  bool same(int a, int b) const { return m[a].r == m[b].r && m[a].c == m[b].c; }
  bool has(int k, int r, int c) const { return r >= 0 && c >= 0 && r <= m[k].r && c <= m[k].c; }

  void step(const Tok &t) {
    const std::string &op = t.s(0);
    int k = (int)t.i(1);
    if (k < 0 || k >= N)
      return;
    if (op == "new") {
      int r = (int)t.i(2), c = (int)t.i(3);
      if (!fits(st, r, c))
        return;
      M *p;
      {
        Lib l;
        p = new M(r, c);
      }
      put(k, p);
      m[k] = Model();
      m[k].r = r;
      m[k].c = c;
      m[k].dead = false;
      if (t.n() > 4) {
        double v = t.d(4);
        /* distinct values everywhere */
        for (int i = 0; i < r; i++)
          for (int j = 0; j < c; j++)
            if (valid(st, i, j, r, c)) {
              (*p)(i, j) = v;
              m[k].v[{i, j}] = v;
              v += 1;
            }
      }
    } else if (op == "del") {
      if (!alive(k))
        return;
      put(k, nullptr);
      m[k] = Model();
    } else if (op == "set") {
      int i = (int)t.i(2), j = (int)t.i(3);
      if (!usable(k) || !valid(st, i, j, m[k].r, m[k].c))
        return;
      (*o[k])(i, j) = t.d(4);
      m[k].v[{i, j}] = t.d(4);
    } else if (op == "wptr") { /* write through a row/column pointer */
      int i = (int)t.i(2), j = (int)t.i(3);
      if (!usable(k) || !valid(st, i, j, m[k].r, m[k].c))
        return;
      if constexpr (dso::StorageImplementation<ST>::isRowMajor)
        o[k]->row(i)[j] = t.d(4);
      else
        o[k]->column(j)[st == 4 ? i - j : i] = t.d(4);
      m[k].v[{i, j}] = t.d(4);
    } else if (op == "fill") {
      if (!usable(k))
        return;
      {
        Lib l;
        o[k]->fill_with(t.d(2));
      }
      for (int i = 0; i < m[k].r; i++)
        for (int j = 0; j < m[k].c; j++)
          if (valid(st, i, j, m[k].r, m[k].c))
            m[k].v[{i, j}] = t.d(2);
    } else if (op == "mul") {
      if (!usable(k))
        return;
      {
        Lib l;
        o[k]->multiply(t.d(2));
      }
      double f = t.d(2);
      m[k] = map1(m[k], [=](double x) { return x * f; });
    } else if (op == "resize" || op == "cresize") {
      int r = (int)t.i(2), c = (int)t.i(3);
      if (!alive(k) || !fits(st, r, c))
        return;
      if (m[k].any && op == "cresize")
        return;
      Model before = m[k];
      bool threw = false;
      try {
        Lib l;
        if (op == "resize")
          o[k]->resize(r, c);
        else
          o[k]->cresize(r, c);
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      if (threw) {
        /* the failed operation may have changed nothing, or emptied the
         * matrix: it must stay usable. Whatever it claims to hold it holds. */
        probe("alloc_failure_survived");
        nontrivial();
        trace("%s failed for lack of memory", op.c_str());
        if (!alloc_failed())
          fail("alloc-spurious", "bad_alloc without an injected failure");
        const M &x = *o[k];
        if (x.rows() == before.r && x.cols() == before.c) {
          check(k, "failed resize");
        } else {
          m[k].any = true;
          m[k].v.clear();
          m[k].r = x.rows();
          m[k].c = x.cols();
        }
        /* every element it claims is readable and writable */
        for (int i = 0; i < x.rows(); i++)
          for (int j = 0; j < x.cols(); j++)
            if (valid(st, i, j, x.rows(), x.cols())) {
              volatile double d = x(i, j);
              (*o[k])(i, j) = d;
            }
        return;
      }
      Model q;
      q.dead = false;
      q.r = r;
      q.c = c;
      if (op == "cresize")
        for (auto &e : before.v)
          if (valid(st, e.first.first, e.first.second, r, c))
            q.v[e.first] = e.second;
      m[k] = q;
      /* all of it is writable */
      if (op == "resize" && t.n() > 4) {
        double v = t.d(4);
        for (int i = 0; i < r; i++)
          for (int j = 0; j < c; j++)
            if (valid(st, i, j, r, c)) {
              (*o[k])(i, j) = v;
              m[k].v[{i, j}] = v;
              v += 0.5;
            }
      }
    } else if (op == "copy" || op == "mctor") {
      int b = (int)t.i(2);
      if (!alive(b) || b == k || (m[b].any && op == "copy"))
        return;
      M *p;
      {
        Lib l;
        p = op == "copy" ? new M(*o[b]) : new M(std::move(*o[b]));
      }
      put(k, p);
      m[k] = m[b];
      if (op == "mctor") {
        m[b].any = true;
        m[b].v.clear();
      }
    } else if (op == "assign") {
      int b = (int)t.i(2);
      if (!alive(k) || !usable(b))
        return;
      {
        Lib l;
        *o[k] = static_cast<const M &>(*o[b]);
      }
      m[k] = m[b];
      if (k == b)
        probe("self_assignment");
    } else if (op == "massign") {
      int b = (int)t.i(2);
      if (!alive(k) || !alive(b) || k == b)
        return;
      {
        Lib l;
        *o[k] = std::move(*o[b]);
      }
      m[k] = m[b];
      m[b].any = true;
      m[b].v.clear();
    } else if (op == "selfmove") {
      if (!usable(k))
        return;
      {
        Lib l;
        M &r = *o[k];
        r = std::move(*o[k]);
      }
      /* valid but unspecified */
      m[k].any = true;
      m[k].v.clear();
    } else if (op == "swap") {
      int b = (int)t.i(2);
      if (!alive(k) || !alive(b))
        return;
      {
        Lib l;
        if (t.i(3))
          o[k]->swap(*o[b]);
        else {
          using std::swap;
          swap(*o[k], *o[b]);
        }
      }
      if (k != b)
        std::swap(m[k], m[b]);
    } else if (op == "add") { /* k += b */
      int b = (int)t.i(2);
      if (!usable(k) || !usable(b) || !same(k, b))
        return;
      Model q = m[b];
      {
        Lib l;
        *o[k] += *o[b];
      }
      addto(m[k], q);
      if (k == b)
        probe("self_addition");
    } else if (op == "addsc") { /* k += f*b */
      int b = (int)t.i(2);
      double f = t.d(3);
      if (!usable(k) || !usable(b) || !same(k, b))
        return;
      Model q = map1(m[b], [=](double x) { return x * f; });
      {
        Lib l;
        if (t.i(4))
          *o[k] += f * *o[b];
        else
          *o[k] += *o[b] * f;
      }
      addto(m[k], q);
    } else if (op == "addsum") { /* k += b + c */
      int b = (int)t.i(2), c = (int)t.i(3);
      if (!usable(k) || !usable(b) || c < 0 || c >= N || !usable(c) || !same(k, b) || !same(b, c))
        return;
      Model q = zip(m[b], m[c], [](double x, double y) { return x + y; });
      {
        Lib l;
        *o[k] += *o[b] + *o[c];
      }
      addto(m[k], q);
    } else if (op == "addred") { /* k += b.view(r,c) */
      int b = (int)t.i(2), r = (int)t.i(3), c = (int)t.i(4);
      if (!usable(k) || !usable(b) || !has(k, r, c) || !has(b, r, c) || k == b)
        return;
      Model q = view(m[b], r, c);
      {
        Lib l;
        *o[k] += o[b]->reduced_view(r, c);
      }
      addto(m[k], q);
      if (r < m[k].r)
        probe("strictly_reduced_add");
    } else if (op == "addredsc") { /* k += f * b.view(r,c) */
      int b = (int)t.i(2), r = (int)t.i(3), c = (int)t.i(4);
      double f = t.d(5);
      if (!usable(k) || !usable(b) || !has(k, r, c) || !has(b, r, c) || k == b)
        return;
      Model q = map1(view(m[b], r, c), [=](double x) { return x * f; });
      {
        Lib l;
        if (t.i(6))
          *o[k] += f * o[b]->reduced_view(r, c);
        else
          *o[k] += o[b]->reduced_view(r, c) * f;
      }
      addto(m[k], q);
    } else if (op == "addredsum") { /* k += b.view(r,c) + d.view(r,c) [ + f*e.view ] */
      int b = (int)t.i(2), d = (int)t.i(3), r = (int)t.i(4), c = (int)t.i(5);
      if (d < 0 || d >= N || !usable(k) || !usable(b) || !usable(d) || !has(k, r, c) || !has(b, r, c) || !has(d, r, c) ||
          k == b || k == d)
        return;
      double f = t.d(6, 0);
      Model q = zip(view(m[b], r, c), view(m[d], r, c), [=](double x, double y) { return x + (f != 0 ? f * y : y); });
      {
        Lib l;
        if (f != 0)
          *o[k] += o[b]->reduced_view(r, c) + f * o[d]->reduced_view(r, c);
        else
          *o[k] += o[b]->reduced_view(r, c) + o[d]->reduced_view(r, c);
      }
      addto(m[k], q);
    } else if (op == "sum" || op == "asum") { /* k = b + c (construct / assign) */
      int b = (int)t.i(2), c = (int)t.i(3);
      if (c < 0 || c >= N || !usable(b) || !usable(c) || !same(b, c) || m[b].r == 0 || m[b].c == 0)
        return;
      Model q = zip(m[b], m[c], [](double x, double y) { return x + y; });
      if (op == "sum") {
        M *p;
        {
          Lib l;
          p = new M(*o[b] + *o[c]);
        }
        put(k, p);
      } else {
        if (!alive(k))
          return;
        if (k == b || k == c)
          probe("aliased_expression_assignment");
        Lib l;
        *o[k] = *o[b] + *o[c];
      }
      m[k] = q;
    } else if (op == "sumsc" || op == "asumsc") { /* k = b + f*c */
      int b = (int)t.i(2), c = (int)t.i(3);
      double f = t.d(4);
      if (c < 0 || c >= N || !usable(b) || !usable(c) || !same(b, c) || m[b].r == 0 || m[b].c == 0)
        return;
      Model q = zip(m[b], m[c], [=](double x, double y) { return x + f * y; });
      if (op == "sumsc") {
        M *p;
        {
          Lib l;
          p = new M(*o[b] + f * *o[c]);
        }
        put(k, p);
      } else {
        if (!alive(k))
          return;
        Lib l;
        *o[k] = *o[b] + *o[c] * f;
      }
      m[k] = q;
    } else if (op == "scsc") { /* k = f*b + g*c */
      int b = (int)t.i(2), c = (int)t.i(3);
      double f = t.d(4), g = t.d(5);
      if (c < 0 || c >= N || !usable(b) || !usable(c) || !same(b, c) || m[b].r == 0 || m[b].c == 0)
        return;
      Model q = zip(m[b], m[c], [=](double x, double y) { return f * x + g * y; });
      M *p;
      {
        Lib l;
        p = new M(f * *o[b] + g * *o[c]);
      }
      put(k, p);
      m[k] = q;
    } else if (op == "sum3") { /* k = b + c + d (+ f*d) */
      int b = (int)t.i(2), c = (int)t.i(3), d = (int)t.i(4);
      double f = t.d(5);
      if (c < 0 || c >= N || d < 0 || d >= N || !usable(b) || !usable(c) || !usable(d) || !same(b, c) || !same(b, d) ||
          m[b].r == 0 || m[b].c == 0)
        return;
      Model q = zip(zip(m[b], m[c], [](double x, double y) { return x + y; }), m[d],
                    [=](double x, double y) { return x + (f != 0 ? f * y : y); });
      M *p;
      {
        Lib l;
        if (f != 0)
          p = new M(*o[b] + *o[c] + f * *o[d]);
        else
          p = new M(*o[b] + *o[c] + *o[d]);
      }
      put(k, p);
      m[k] = q;
    } else if (op == "scaled" || op == "ascaled") { /* k = f*b */
      int b = (int)t.i(2);
      double f = t.d(3);
      if (!usable(b) || m[b].r == 0 || m[b].c == 0)
        return;
      Model q = map1(m[b], [=](double x) { return x * f; });
      if (op == "scaled") {
        M *p;
        {
          Lib l;
          p = new M(f * *o[b]);
        }
        put(k, p);
      } else {
        if (!alive(k))
          return;
        Lib l;
        *o[k] = f * *o[b];
      }
      m[k] = q;
    } else if (op == "redsum") { /* k = b.view(r,c) + d.view(r,c) (construct) */
      int b = (int)t.i(2), d = (int)t.i(3), r = (int)t.i(4), c = (int)t.i(5);
      if (d < 0 || d >= N || !usable(b) || !usable(d) || !has(b, r, c) || !has(d, r, c) || r == 0 || c == 0 ||
          !fits(st, r, c))
        return;
      Model q = zip(view(m[b], r, c), view(m[d], r, c), [](double x, double y) { return x + y; });
      M *p;
      {
        Lib l;
        p = new M(o[b]->reduced_view(r, c) + o[d]->reduced_view(r, c));
      }
      put(k, p);
      m[k] = q;
    } else
      return;
    opcount(op.c_str());
  }
  void end() {
    for (int k = 0; k < N; k++)
      put(k, nullptr);
  }
};

/* ------------------------------------------------------- Stokes coefficients */
struct SMach {
  using C = dso::StokesCoeffs;
  static constexpr int N = 4;
  C *o[N] = {nullptr, nullptr, nullptr, nullptr};
  struct SM {
    bool dead = true, any = false, empty = false;
    int deg = 0, ord = 0;
    int room = 0; /* degree the storage is known to cover */
    double GM = 0, Re = 0;
    bool norm = true;
    std::map<std::pair<int, int>, double> c, s;
  } m[N];
  bool alive(int k) const { return k >= 0 && k < N && !m[k].dead; }
  bool usable(int k) const { return alive(k) && !m[k].any && !m[k].empty; }
  void put(int k, C *p) {
    {
      Lib l;
      delete o[k];
    }
    o[k] = p;
  }
  static bool same(double a, double b) { return a == b; }
  void check(int k, const char *after) {
    if (m[k].dead || m[k].any)
      return;
    const C &x = *o[k];
    evals();
    if (x.max_degree() != m[k].deg || x.max_order() != m[k].ord)
      fail("stokes-dims", "after %s: degree/order %d/%d, expected %d/%d", after, x.max_degree(), x.max_order(), m[k].deg,
           m[k].ord);
    if (!same(x.GM(), m[k].GM) || !same(x.Re(), m[k].Re) || x.normalized() != m[k].norm)
      fail("stokes-const", "after %s: GM/Re/normalisation changed (%.17g %.17g %d vs %.17g %.17g %d)", after, x.GM(),
           x.Re(), (int)x.normalized(), m[k].GM, m[k].Re, (int)m[k].norm);
    uint64_t h = fnv(&m[k].deg, 8, 5);
    for (int q = 0; q < 2; q++)
      for (auto &e : (q ? m[k].s : m[k].c)) {
        int n = e.first.first, mm = e.first.second;
        if (n > m[k].deg)
          continue;
        double got = q ? x.S(n, mm) : x.C(n, mm);
        h = fnv(&e, sizeof e, h);
        if (!(got == e.second))
          fail("stokes-value", "after %s: %c(%d,%d) is %.17g, expected %.17g", after, q ? 'S' : 'C', n, mm, got,
               e.second);
      }
    if (m[k].deg >= 2 && m[k].c.count({2, 0})) {
      if (!(x.J2() == -m[k].c[{2, 0}]))
        fail("stokes-value", "after %s: J2 is %.17g, expected %.17g", after, x.J2(), -m[k].c[{2, 0}]);
    }
    state(h);
  }
  void checkall(const char *a) {
    for (int k = 0; k < N; k++)
      check(k, a);
  }
  void trim(SM &q) {
    for (auto *mp : {&q.c, &q.s})
      for (auto it = mp->begin(); it != mp->end();)
        it = it->first.first > q.room ? mp->erase(it) : std::next(it);
  }
  void step(const Tok &t) {
    const std::string &op = t.s(0);
    int k = (int)t.i(1);
    if (k < 0 || k >= N)
      return;
    if (op == "snew") { /* snew k degree order GM Re first_value (order -1: default) */
      int n = (int)t.i(2), mo = (int)t.i(3);
      if (n < 0 || n > 20 || mo > n)
        return;
      C *p;
      {
        Lib l;
        p = new C(n, mo, t.d(4), t.d(5));
      }
      put(k, p);
      m[k] = SM();
      m[k].dead = false;
      m[k].deg = m[k].room = n;
      m[k].ord = mo < 0 ? n : mo;
      m[k].GM = t.d(4);
      m[k].Re = t.d(5);
      double v = t.d(6);
      for (int i = 0; i <= n; i++)
        for (int j = 0; j <= i; j++) {
          p->C(i, j) = m[k].c[{i, j}] = v;
          p->S(i, j) = m[k].s[{i, j}] = j ? -v - 0.25 : 0.0;
          v += 1;
        }
    } else if (op == "sdef") {
      C *p;
      {
        Lib l;
        p = new C();
      }
      put(k, p);
      m[k] = SM();
      m[k].dead = false;
      m[k].empty = true;
      m[k].room = -1;
      m[k].deg = m[k].ord = 0;
      m[k].GM = p->GM();
      m[k].Re = p->Re();
      if (!p->normalized())
        fail("stokes-const", "a default-constructed set is not marked normalized");
    } else if (op == "sdel") {
      if (!alive(k))
        return;
      put(k, nullptr);
      m[k] = SM();
    } else if (op == "sset") {
      int i = (int)t.i(2), j = (int)t.i(3);
      if (!usable(k) || i > m[k].deg || j > i || i < 0 || j < 0)
        return;
      o[k]->C(i, j) = m[k].c[{i, j}] = t.d(4);
      o[k]->S(i, j) = m[k].s[{i, j}] = t.d(5);
    } else if (op == "sconst") {
      if (!alive(k) || m[k].any)
        return;
      o[k]->GM() = m[k].GM = t.d(2);
      o[k]->Re() = m[k].Re = t.d(3);
      o[k]->normalized() = m[k].norm = t.i(4) != 0;
    } else if (op == "sclear") {
      if (!alive(k) || m[k].any)
        return;
      {
        Lib l;
        o[k]->clear();
      }
      for (int i = 0; i <= m[k].room; i++)
        for (int j = 0; j <= i; j++)
          m[k].c[{i, j}] = m[k].s[{i, j}] = 0;
    } else if (op == "sscale") {
      if (!alive(k) || m[k].any)
        return;
      double f = t.d(2);
      {
        Lib l;
        o[k]->scale(f);
      }
      for (auto &e : m[k].c)
        e.second *= f;
      for (auto &e : m[k].s)
        e.second *= f;
      /* what lies above a reduced degree is unspecified from here on */
      if (m[k].room > m[k].deg) {
        m[k].room = m[k].deg;
        trim(m[k]);
      }
      if (m[k].deg == 0)
        probe("scale_degree_zero");
    } else if (op == "sresize" || op == "scresize") {
      int n = (int)t.i(2), mo = (int)t.i(3);
      if (!alive(k) || n < 0 || n > 20 || mo < 0 || mo > n)
        return;
      if (m[k].any && op == "scresize")
        return;
      {
        Lib l;
        if (op == "sresize")
          o[k]->resize(n, mo);
        else
          o[k]->cresize(n, mo);
      }
      if (m[k].any) { /* constants of a moved-from set are unspecified */
        m[k].GM = o[k]->GM();
        m[k].Re = o[k]->Re();
        m[k].norm = o[k]->normalized();
      }
      if (op == "sresize") {
        m[k].c.clear();
        m[k].s.clear();
      } else {
        /* only what was within the old dimensions is kept */
        m[k].room = std::min(m[k].room, m[k].deg);
        trim(m[k]);
      }
      m[k].any = m[k].empty = false;
      m[k].deg = n;
      m[k].ord = mo;
      m[k].room = n;
      trim(m[k]);
      /* everything up to the new degree is writable */
      if (op == "sresize" && t.n() > 4) {
        double v = t.d(4);
        for (int i = 0; i <= n; i++)
          for (int j = 0; j <= i; j++) {
            o[k]->C(i, j) = m[k].c[{i, j}] = v;
            o[k]->S(i, j) = m[k].s[{i, j}] = -v;
            v += 0.5;
          }
      }
    } else if (op == "sshrink") {
      int n = (int)t.i(2), mo = (int)t.i(3);
      if (!usable(k) || n < 0 || mo < 0)
        return;
      bool okd = mo <= n && n <= m[k].deg && mo <= m[k].ord;
      int r;
      {
        Lib l;
        r = o[k]->shrink_dimensions(n, mo);
      }
      if ((r == 0) != okd)
        fail("stokes-shrink", "shrink %d/%d -> %d/%d returned %d", m[k].deg, m[k].ord, n, mo, r);
      if (okd) {
        m[k].deg = n;
        m[k].ord = mo;
      } else
        probe("shrink_refused");
    } else if (op == "scopy" || op == "smctor") {
      int b = (int)t.i(2);
      if (!alive(b) || b == k || (m[b].any && op == "scopy"))
        return;
      C *p;
      {
        Lib l;
        p = op == "scopy" ? new C(*o[b]) : new C(std::move(*o[b]));
      }
      put(k, p);
      m[k] = m[b];
      if (op == "smctor")
        m[b].any = true;
    } else if (op == "sassign") {
      int b = (int)t.i(2);
      if (!alive(k) || !alive(b) || m[b].any)
        return;
      {
        Lib l;
        *o[k] = static_cast<const C &>(*o[b]);
      }
      m[k] = m[b];
    } else if (op == "smassign") {
      int b = (int)t.i(2);
      if (!alive(k) || !alive(b))
        return;
      {
        Lib l;
        C &r = *o[k];
        r = std::move(*o[b]);
      }
      if (k != b) {
        m[k] = m[b];
        m[b].any = true;
      } else
        m[k].any = true; /* self move: valid, unspecified */
    } else if (op == "sswap") {
      int b = (int)t.i(2);
      if (!alive(k) || !alive(b))
        return;
      {
        Lib l;
        if (t.i(3))
          o[k]->swap(*o[b]);
        else {
          using std::swap;
          swap(*o[k], *o[b]);
        }
      }
      if (k != b)
        std::swap(m[k], m[b]);
    } else if (op == "sadd") {
      int b = (int)t.i(2);
      if (!usable(k) || !usable(b))
        return;
      bool okd = m[k].deg >= m[b].deg && m[k].ord >= m[b].ord;
      bool threw = false;
      SM q = m[b];
      try {
        Lib l;
        *o[k] += *o[b];
      } catch (const std::exception &) {
        threw = true;
      }
      if (threw == okd)
        fail("stokes-add", "adding %d/%d to %d/%d %s", q.deg, q.ord, m[k].deg, m[k].ord, threw ? "threw" : "was accepted");
      if (threw) {
        probe("oversized_addition_refused");
        return; /* checked unchanged by check() */
      }
      for (int i = 0; i <= q.deg; i++)
        for (int j = 0; j <= std::min(i, q.ord); j++) {
          for (int w = 0; w < 2; w++) {
            auto &dst = w ? m[k].s : m[k].c;
            auto &src = w ? q.s : q.c;
            auto x = dst.find({i, j});
            if (x == dst.end())
              continue;
            auto y = src.find({i, j});
            if (y == src.end())
              dst.erase(x);
            else
              x->second += y->second;
          }
        }
      if (q.deg < m[k].deg)
        probe("smaller_set_added");
      if (m[b].room > m[b].deg)
        probe("shrunk_set_added");
    } else if (op == "stoanm" || op == "sfromanm") {
      int b = (int)t.i(2);
      if (!usable(b))
        return;
      Eigen::MatrixXd A;
      {
        Lib l;
        A = o[b]->to_anm();
      }
      if (A.rows() != m[b].deg + 1 || A.cols() != m[b].deg + 1)
        fail("stokes-anm", "packed matrix is %dx%d for degree %d", (int)A.rows(), (int)A.cols(), m[b].deg);
      for (int i = 0; i <= m[b].deg; i++)
        for (int j = 0; j <= i; j++) {
          auto x = m[b].c.find({i, j});
          if (x != m[b].c.end() && !(A(i, j) == x->second))
            fail("stokes-anm", "packed C(%d,%d) is %.17g, expected %.17g", i, j, A(i, j), x->second);
          auto y = m[b].s.find({i, j});
          if (j > 0 && y != m[b].s.end() && !(A(j - 1, i) == y->second))
            fail("stokes-anm", "packed S(%d,%d) is %.17g, expected %.17g", i, j, A(j - 1, i), y->second);
        }
      if (op == "sfromanm") {
        int mo = (int)t.i(3, -1);
        if (mo > m[b].deg)
          mo = m[b].deg;
        C *p;
        {
          Lib l;
          p = new C(C::from_anm(A, mo));
        }
        SM q;
        q.dead = false;
        q.deg = q.room = m[b].deg;
        q.ord = mo < 0 ? q.deg : mo;
        q.GM = p->GM();
        q.Re = p->Re();
        for (auto &e : m[b].c)
          if (e.first.first <= q.deg && e.first.second <= q.ord)
            q.c[e.first] = e.second;
        for (auto &e : m[b].s)
          if (e.first.first <= q.deg && e.first.second > 0 && e.first.second <= q.ord)
            q.s[e.first] = e.second;
        /* the packed form holds no order-zero S: it reads back as zero */
        for (int i = 0; i <= q.deg; i++)
          q.s[{i, 0}] = 0;
        put(k, p);
        m[k] = q;
      }
    } else
      return;
    opcount(op.c_str());
  }
  void end() {
    for (int k = 0; k < N; k++)
      put(k, nullptr);
  }
};

/* ------------------------------------------------------------------ generate */
static double val(Rng &r) { return r.range(-64, 64) * (r.chance(0.3) ? 0.125 : 1.0); }
static double fac(Rng &r) {
  static const double f[] = {2, 0.5, -1, 4, -0.25, 3, 0.0, 1};
  return f[r.below(8)];
}
void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  static const int pats[] = {0xA5, 0x00, 0xFF, 0x7F, 0x40, 0x3F};
  s.add("heap %d", pats[r.below(6)]);
  bool stokes = prop == "C06" || (prop == "C05" && (cfg == "stokes"));
  bool exprs = prop == "C07";
  int st = r.below(5);
  if (!stokes)
    s.add("storage %s", stn[st]);
  else
    s.add("stokes");
  int nops = r.chance(0.5) ? r.range(3, 10) : r.range(10, 45);
  bool big = r.chance(0.15);
  auto dim = [&] { return r.chance(0.1) ? r.below(2) : r.range(1, big ? 16 : 6); };
  /* a base shape so that same-size operations happen often */
  int br = dim(), bc = tri(st) ? br : (st == 2 ? std::max(1, std::min(br, dim())) : dim());
  auto shape = [&](int &a, int &b) {
    if (r.chance(0.5)) {
      a = br;
      b = bc;
    } else {
      a = dim();
      b = tri(st) ? a : (st == 2 && r.chance(0.8) ? std::max(1, std::min(a, dim())) : dim());
    }
  };
  int failat = -1;
  if (prop == "C05") {
    failat = r.below(nops + 2);
  }
  auto mk = [&](int k) {
    int a, b;
    shape(a, b);
    s.add("new %d %d %d %g", k, a, b, val(r));
  };
  auto snew = [&](int k) {
    int n = r.chance(0.15) ? r.below(2) : r.range(1, big ? 14 : 6);
    int mo = r.chance(0.6) ? -1 : r.below(n + 1);
    s.add("snew %d %d %d %g %g %g", k, n, mo, r.range(1, 1000) * 1.0, r.range(1, 1000) * 1.0, val(r));
  };
  if (stokes) {
    snew(0);
    snew(1);
    if (r.chance(0.7))
      snew(2);
  } else {
    mk(0);
    mk(1);
    if (r.chance(0.8))
      mk(2);
  }
  for (int i = 0; i < nops; i++) {
    if (prop == "C05" && (i == failat || r.chance(0.06)))
      s.add("failalloc %d", r.range(1, r.chance(0.7) ? 2 : 6));
    int k = r.below(4), b = r.below(4), c = r.below(4), d = r.below(4);
    if (stokes) {
      switch (r.below(18)) {
      case 0: snew(k); break;
      case 1: if (r.chance(0.3)) s.add("sdef %d", k); else s.add("sset %d %d %d %g %g", k, r.below(6), r.below(6), val(r), val(r)); break;
      case 2: s.add("sset %d %d %d %g %g", k, r.below(8), r.below(8), val(r), val(r)); break;
      case 3: s.add("sconst %d %g %g %d", k, val(r), val(r), r.below(2)); break;
      case 4: if (r.chance(0.4)) s.add("sclear %d", k); else s.add("sscale %d %g", k, fac(r)); break;
      case 5: s.add("sscale %d %g", k, fac(r)); break;
      case 6: { int n = r.below(9); s.add("sresize %d %d %d %g", k, n, r.below(n + 1), val(r)); break; }
      case 7: case 8: { int n = r.below(10); s.add("scresize %d %d %d", k, n, r.chance(0.6) ? n : r.below(n + 1)); break; }
      case 9: { int n = r.below(7); s.add("sshrink %d %d %d", k, n, r.chance(0.5) ? n : r.below(8)); break; }
      case 10: s.add("scopy %d %d", k, b); break;
      case 11: s.add("smctor %d %d", k, b); break;
      case 12: s.add("sassign %d %d", k, b); break;
      case 13: s.add("smassign %d %d", k, b); break;
      case 14: s.add("sswap %d %d %d", k, b, r.below(2)); break;
      case 15: case 16: s.add("sadd %d %d", k, b); break;
      case 17: if (r.chance(0.5)) s.add("stoanm %d %d", k, b); else s.add("sfromanm %d %d %d", k, b, r.chance(0.5) ? -1 : r.below(6)); break;
      }
      continue;
    }
    int w = exprs ? (r.chance(0.75) ? 14 + r.below(12) : r.below(14)) : (r.chance(0.85) ? r.below(16) : 16 + r.below(10));
    int a1, a2;
    int rr = r.range(0, br), rc = tri(st) ? rr : (st == 2 ? std::max(1, std::min(rr, bc)) : r.range(0, bc));
    if (st == 2 && rr == 0)
      rc = 0;
    switch (w) {
    case 0: mk(k); break;
    case 1: if (r.chance(0.3)) s.add("del %d", k); else mk(k); break;
    case 2: case 3: s.add("set %d %d %d %g", k, r.below(br + 1), r.below(bc + 1), val(r)); break;
    case 4: s.add("wptr %d %d %d %g", k, r.below(br + 1), r.below(bc + 1), val(r)); break;
    case 5: s.add("fill %d %g", k, val(r)); break;
    case 6: s.add("mul %d %g", k, fac(r)); break;
    case 7: shape(a1, a2); s.add("resize %d %d %d %g", k, a1, a2, val(r)); break;
    case 8: case 9: shape(a1, a2); s.add("cresize %d %d %d", k, a1, a2); break;
    case 10: s.add("copy %d %d", k, b); break;
    case 11: s.add("mctor %d %d", k, b); break;
    case 12: s.add("assign %d %d", k, b); break;
    case 13: if (r.chance(0.15)) s.add("selfmove %d", k); else s.add("massign %d %d", k, b); break;
    case 14: s.add("swap %d %d %d", k, b, r.below(2)); break;
    case 15: s.add("add %d %d", k, b); break;
    case 16: s.add("addsc %d %d %g %d", k, b, fac(r), r.below(2)); break;
    case 17: s.add("addsum %d %d %d", k, b, c); break;
    case 18: s.add("addred %d %d %d %d", k, b, rr, rc); break;
    case 19: s.add("addredsc %d %d %d %d %g %d", k, b, rr, rc, fac(r), r.below(2)); break;
    case 20: s.add("addredsum %d %d %d %d %d %g", k, b, c, rr, rc, r.chance(0.5) ? 0.0 : fac(r)); break;
    case 21: s.add("%s %d %d %d", r.chance(0.5) ? "sum" : "asum", k, b, c); break;
    case 22: s.add("%s %d %d %d %g", r.chance(0.5) ? "sumsc" : "asumsc", k, b, c, fac(r)); break;
    case 23: s.add("scsc %d %d %d %g %g", k, b, c, fac(r), fac(r)); break;
    case 24: s.add("sum3 %d %d %d %d %g", k, b, c, d, r.chance(0.4) ? 0.0 : fac(r)); break;
    case 25: if (r.chance(0.5)) s.add("%s %d %d %g", r.chance(0.5) ? "scaled" : "ascaled", k, b, fac(r)); else s.add("redsum %d %d %d %d %d", k, b, c, rr, rc); break;
    }
  }
}

template <class X> static void drive(X &x, const Script &s, bool faulty) {
  int done = 0;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.n() == 0 || t.is("storage") || t.is("stokes") || t.is("heap"))
      continue;
    if (t.is("failalloc")) {
      if (faulty)
        alloc_fail_after(t.i(1));
      continue;
    }
    dirty_stack((unsigned char)(0x5A + done));
    try {
      x.step(t);
    } catch (const std::bad_alloc &) {
      if (!alloc_failed())
        fail("alloc-spurious", "bad_alloc without an injected failure at: %s", l.c_str());
      /* a constructor (or a temporary of the statement) could not be made:
       * the operands must be unchanged */
      probe("construction_failed_cleanly");
      nontrivial();
      trace("out of memory at: %s", l.c_str());
    }
    trace("%s", l.c_str());
    x.checkall(l.c_str());
    done++;
  }
  x.end();
  alloc_fail_clear();
  trace("end %ld", live_lib_blocks());
  check_leaks("all objects destroyed");
  if (!faulty && done > 2)
    nontrivial();
}
void world::execute(const Script &s, const std::string &prop) {
  bool faulty = prop == "C05";
  int st = -1;
  bool stokes = false;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("heap"))
      heap_pattern((unsigned char)t.i(1));
    if (t.is("storage"))
      for (int i = 0; i < 5; i++)
        if (t.s(1) == stn[i])
          st = i;
    if (t.is("stokes"))
      stokes = true;
  }
  fault("heap_garbage");
  if (stokes) {
    SMach x;
    drive(x, s, faulty);
  } else if (st == 0) {
    Mach<S::RowWise> x(faulty);
    drive(x, s, faulty);
  } else if (st == 1) {
    Mach<S::ColumnWise> x(faulty);
    drive(x, s, faulty);
  } else if (st == 2) {
    Mach<S::Trapezoid> x(faulty);
    drive(x, s, faulty);
  } else if (st == 3) {
    Mach<S::LwTriangularRowWise> x(faulty);
    drive(x, s, faulty);
  } else if (st == 4) {
    Mach<S::LwTriangularColWise> x(faulty);
    drive(x, s, faulty);
  }
}
