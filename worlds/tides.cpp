/* World "tides": tide atlases built wave by wave and the ocean and atmospheric
 * models built from them (C31).
 *   flavour "asan":  histories of operations; cfg "alloc" with failing allocations
 *   flavour "sched": threads that build their own models from shared atlases and
 *                    evaluate them, also as the first calls of the process
 * Oracle: an in-memory model of the atlases, the sum over the waves in long
 * double, and (threads) the same operations alone in a fresh process. */
#include "sim.hpp"
#ifdef SIM_OWN_ALLOC
#include "threads.hpp"
#endif
#include "tide_ref.hpp"
#include "atmospheric_tides.hpp"
#include "ocean_tide.hpp"
#include <map>
#include <memory>
using namespace sim;
typedef long double LD;
const char *const world::name = "tides";

struct Doo {
  int n[6];
  int pif;
  bool operator==(const Doo &o) const { return !memcmp(n, o.n, sizeof n) && pif == o.pif; }
};
static Doo get_doo(const Tok &t, int k) {
  Doo d;
  for (int i = 0; i < 6; i++)
    d.n[i] = (int)t.i(k + i);
  d.pif = (int)t.i(k + 6);
  return d;
}
static dso::DoodsonConstituent lib_doo(const Doo &d) { return dso::DoodsonConstituent(d.n[0], d.n[1], d.n[2], d.n[3], d.n[4], d.n[5], (double)d.pif); }
struct RWave {
  Doo d;
  std::string name;
  double per = 0, hgt = 0;
  int n = 0, m = 0;
  long seed = 0; /* of the coefficients */
  /* a single coefficient written later: position, value */
  std::map<std::array<int, 4>, double> over;
  double coef(int t, int sc, int i, int j) const {
    auto it = over.find({t, sc, i, j});
    if (it != over.end())
      return it->second;
    if (sc && !j)
      return 0;
    Rng r((uint64_t)seed * 1000003u + (uint64_t)(((t * 2 + sc) * 64 + i) * 64 + j));
    return r.uni(-1, 1) * 1e-9;
  }
};
struct RAtlas {
  std::vector<RWave> w;
  std::string name;
  bool judged = true;
  void top(int &n, int &m) const {
    n = m = 0;
    for (auto &x : w)
      n = std::max(n, x.n), m = std::max(m, x.m);
  }
};
struct RAdm {
  bool on = false;
  std::vector<Doo> D;
  std::vector<std::vector<double>> A;
};
/* admittance information for an atlas, drawn from a seed */
static RAdm make_adm(const RAtlas &a, long seed) {
  RAdm r;
  r.on = true;
  Rng g((uint64_t)seed);
  for (auto &w : a.w)
    r.D.push_back(w.d);
  for (int k = g.below(9); k > 0; k--) {
    Doo d;
    for (int i = 0; i < 6; i++)
      d.n[i] = i ? g.range(-4, 4) : g.range(0, 4);
    d.pif = 0;
    r.D.push_back(d);
  }
  for (size_t i = 0; i < a.w.size(); i++) {
    r.A.emplace_back();
    for (size_t j = 0; j < r.D.size(); j++)
      r.A[i].push_back(i == j ? 1 : j < a.w.size() || g.chance(.3) ? 0 : g.uni(-1, 1));
  }
  return r;
}
static dso::GroopsTideModel lib_adm(const RAdm &r) {
  Eigen::Matrix<int, Eigen::Dynamic, 6> D((int)r.D.size(), 6);
  Eigen::MatrixXd A((int)r.A.size(), (int)r.D.size());
  for (size_t i = 0; i < r.D.size(); i++)
    for (int j = 0; j < 6; j++)
      D((int)i, j) = r.D[i].n[j];
  for (size_t i = 0; i < r.A.size(); i++)
    for (size_t j = 0; j < r.D.size(); j++)
      A((int)i, (int)j) = r.A[i][j];
  return dso::GroopsTideModel(D, A);
}
static void fill(dso::TidalConstituent &c, const RWave &w) {
  for (int t = 0; t < 2; t++) {
    auto &cs = t ? c.stokes_sin() : c.stokes_cos();
    for (int i = 0; i <= w.n; i++)
      for (int j = 0; j <= std::min(i, w.m); j++) {
        cs.C(i, j) = w.coef(t, 0, i, j);
        cs.S(i, j) = w.coef(t, 1, i, j);
      }
  }
}
static dso::MjdEpoch mjd(long d, double s) { return dso::MjdEpoch((int)d, dso::FractionalSeconds{s}); }

/* the correction of the reference: [0],[1] C and S, [2],[3] magnitudes */
typedef std::map<std::pair<int, int>, std::array<LD, 4>> Sum;
static Sum ref_sum(const RAtlas &r, const RAdm *adm, bool atm, const tideref::Epoch &e) {
  LD b[6];
  tideref::doodson(e, b);
  Sum S;
  for (size_t k = 0; k < r.w.size(); k++) {
    LD ca = 0, sa = 0, mag = 0;
    if (adm && adm->on) {
      for (size_t f = 0; f < adm->D.size(); f++) {
        const LD a = tideref::argument(b, adm->D[f].n, 0), A = adm->A[k][f];
        ca += A * cosl(a);
        sa += A * sinl(a);
        mag += fabsl(A);
      }
    } else {
      const LD a = tideref::argument(b, r.w[k].d.n, atm ? r.w[k].d.pif : 0);
      ca = cosl(a);
      sa = sinl(a);
      mag = 1;
    }
    for (int t = 0; t < 2; t++)
      for (int i = 0; i <= r.w[k].n; i++)
        for (int j = 0; j <= std::min(i, r.w[k].m); j++) {
          auto &x = S[{i, j}];
          const LD f = t ? sa : ca, c = r.w[k].coef(t, 0, i, j), s = r.w[k].coef(t, 1, i, j);
          x[0] += f * c;
          x[1] += f * s;
          x[2] += mag * fabsl(c);
          x[3] += mag * fabsl(s);
        }
  }
  return S;
}
static void cmp_sum(const dso::StokesCoeffs &cs, const Sum &S, const char *what) {
  for (auto &kv : S)
    if (kv.first.first > cs.max_degree() || kv.first.second > cs.max_order())
      fail("tide-degree", "%s: the correction ends at (%d,%d), a wave has (%d,%d)", what, cs.max_degree(), cs.max_order(), kv.first.first, kv.first.second);
  for (int i = 0; i <= cs.max_degree(); i++)
    for (int j = 0; j <= std::min(i, cs.max_order()); j++) {
      auto it = S.find({i, j});
      std::array<LD, 4> x{};
      if (it != S.end())
        x = it->second;
      if (!(fabsl(cs.C(i, j) - x[0]) <= 3e-10L * x[2]) || !(fabsl(cs.S(i, j) - x[1]) <= 3e-10L * x[3]))
        fail("tide-sum", "%s: (%d,%d): %.17g %.17g, the waves sum to %.17Lg %.17Lg", what, i, j, cs.C(i, j), cs.S(i, j), x[0], x[1]);
    }
}
static void cmp_atlas(const dso::TideAtlas &a, const RAtlas &r, const char *what) {
  if (!r.judged)
    return;
  const auto &W = a.waves();
  if (W.size() != r.w.size())
    fail("wave-count", "%s: %d waves, %d were appended", what, (int)W.size(), (int)r.w.size());
  for (size_t k = 0; k < W.size(); k++) {
    const auto &g = W[k];
    const RWave &q = r.w[k];
    if (!(g.doodson() == lib_doo(q.d)) || g.wave().period() != q.per || g.wave().height() != q.hgt)
      fail("wave-identity", "%s: wave %d is another one (speed %g, appended %g)", what, (int)k, g.wave().period(), q.per);
    for (int i = 0; i < 6; i++)
      if (g.doodson()(i) != q.d.n[i])
        fail("wave-identity", "%s: wave %d multiplier %d is %d, not %d", what, (int)k, i, g.doodson()(i), q.d.n[i]);
    if (q.name.substr(0, 15) != std::string(g.name(), strnlen(g.name(), 16)))
      fail("wave-identity", "%s: wave %d is named \"%.16s\", not \"%s\"", what, (int)k, g.name(), q.name.c_str());
    for (int t = 0; t < 2; t++) {
      const auto &cs = t ? g.stokes_sin() : g.stokes_cos();
      if (cs.max_degree() != q.n || cs.max_order() != q.m)
        fail("wave-shape", "%s: wave %d is (%d,%d), asked (%d,%d)", what, (int)k, cs.max_degree(), cs.max_order(), q.n, q.m);
      for (int i = 0; i <= q.n; i++)
        for (int j = 0; j <= std::min(i, q.m); j++)
          if (cs.C(i, j) != q.coef(t, 0, i, j) || cs.S(i, j) != q.coef(t, 1, i, j))
            fail("wave-coeff", "%s: wave %d %s (%d,%d): %.17g %.17g, written were %.17g %.17g", what, (int)k, t ? "sin" : "cos", i, j, cs.C(i, j),
                 cs.S(i, j), q.coef(t, 0, i, j), q.coef(t, 1, i, j));
    }
  }
  int n, m, gm = -1;
  r.top(n, m);
  const int gn = a.max_atlas_degree(gm);
  if (gn != n || gm != m || a.max_atlas_degree() != n)
    fail("atlas-degree", "%s: reported (%d,%d) / %d, the waves reach (%d,%d)", what, gn, gm, a.max_atlas_degree(), n, m);
  if (r.name.substr(0, 63) != std::string(a.name(), strnlen(a.name(), 64)))
    fail("atlas-name", "%s: named \"%.64s\", not \"%s\"", what, a.name(), r.name.c_str());
}

/* ---- generation --------------------------------------------------------------------- */
static std::string gen_doo(Rng &r, const std::vector<std::string> &have) {
  if (!have.empty() && r.chance(.2))
    return r.pick(have);
  char b[100];
  int n[6];
  for (int i = 0; i < 6; i++)
    n[i] = i ? r.chance(.5) ? 0 : r.range(-4, 4) : r.range(0, 4);
  if (!have.empty() && r.chance(.3)) { /* differs in one place from a wave that is there */
    Tok t(r.pick(have));
    for (int i = 0; i < 6; i++)
      n[i] = (int)t.i(i);
    const int k = r.below(7);
    if (k < 6)
      n[k] += r.chance(.5) ? 1 : -1;
    snprintf(b, sizeof b, "%d %d %d %d %d %d %ld", n[0], n[1], n[2], n[3], n[4], n[5], k < 6 ? t.i(6) : t.i(6) + 1);
    return b;
  }
  snprintf(b, sizeof b, "%d %d %d %d %d %d %d", n[0], n[1], n[2], n[3], n[4], n[5], r.chance(.6) ? 0 : r.range(-2, 2));
  return b;
}
static void gen_wave(Rng &r, Script &s, int a, std::vector<std::string> &have, int nmax) {
  const std::string d = gen_doo(r, have);
  have.push_back(d);
  const int n = r.chance(.5) ? nmax : r.range(0, nmax), m = r.chance(.6) ? n : r.range(0, n);
  s.add("wave %d %s %d %d %d %d %s", a, d.c_str(), n, m, r.range(1, 1000000), r.below(5), std::string((size_t)r.range(1, r.chance(.1) ? 30 : 8), (char)('A' + r.below(26))).c_str());
}
/* epochs: half of the time related to an earlier one of the run */
static std::string gen_epoch(Rng &r, std::vector<std::string> &ep) { return tideref::gen_related(r, ep); }
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  std::vector<std::string> have, ep;
  const int nmax = r.range(0, r.chance(.1) ? 12 : 5);
#ifdef SIM_OWN_ALLOC
  for (int a = 0; a < 2; a++)
    for (int k = r.range(1, 4); k > 0; k--)
      gen_wave(r, s, a, have, nmax);
  const int nt = r.range(2, 4);
  for (int t = 0; t < nt; t++) {
    for (int k = r.range(1, 3); k > 0; k--) {
      const int w = r.below(3), a = r.below(2);
      s.add("t %d %s %d %d %s", t, w == 0 ? "atm" : "ocean", a, w == 2 ? r.range(1, 1000) : 0, gen_epoch(r, ep).c_str());
    }
  }
  SchedPlan::gen(r, s, nt, 6000);
#else
  const int ops = r.range(6, 40);
  for (int k = 0; k < ops; k++) {
    const int a = r.below(3), b = r.below(3);
    if (cfg == "alloc" && r.chance(.25))
      s.add("failalloc %d", r.range(1, r.chance(.6) ? 3 : 12));
    switch (k < 3 ? 0 : r.below(22)) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
      gen_wave(r, s, a, have, nmax);
      break;
    case 5:
    case 6:
      s.add("find %d %s", a, gen_doo(r, have).c_str());
      break;
    case 7:
      s.add("write %d %d %d %d %d %d %.17g", a, r.below(8), r.below(2), r.below(2), r.range(0, nmax), r.range(0, nmax), r.uni(-1, 1));
      break;
    case 8:
      s.add("%s %d %d", r.chance(.4) ? "copy" : r.chance(.5) ? "move" : "swap", a, b);
      break;
    case 9:
      s.add("%s %d %d", r.chance(.5) ? "cctor" : "mctor", a, b);
      break;
    case 10:
      s.add("name %d %s", a, std::string((size_t)r.range(1, r.chance(.2) ? 63 : 20), (char)('a' + r.below(26))).c_str());
      break;
    case 11:
      s.add("drop %d", a);
      break;
    case 12:
    case 13:
      s.add("ocean %d %d %d %s", b, a, r.chance(.5) ? r.range(1, 100000) : 0, r.chance(.5) ? "-" : std::string((size_t)r.range(1, r.chance(.2) ? 90 : 20), 'o').c_str());
      break;
    case 14:
      s.add("atm %d %d %s", b, a, r.chance(.5) ? "-" : std::string((size_t)r.range(1, r.chance(.2) ? 90 : 20), 'q').c_str());
      break;
    case 15: /* write through a model's own atlas */
      s.add("mwrite %d %d %d %d %d %d %d %.17g", r.below(2), b, r.below(8), r.below(2), r.below(2), r.range(0, nmax), r.range(0, nmax), r.uni(-1, 1));
      break;
    case 16:
      s.add("setadm %d %d", b, r.range(1, 100000));
      break;
    default:
      s.add("eval %d %d %s", r.below(2), b, gen_epoch(r, ep).c_str());
      break;
    }
  }
#endif
}

/* ---- execution -------------------------------------------------------------------------- */
static RWave get_wave(const Tok &t, int k) {
  RWave w;
  w.d = get_doo(t, k);
  w.n = (int)t.i(k + 7);
  w.m = std::min((int)t.i(k + 8), w.n);
  w.seed = t.i(k + 9);
  w.name = t.s(k + 11);
  w.per = (double)(w.seed % 997) * .125;
  w.hgt = (double)(w.seed % 13) * .25;
  return w;
}
#ifdef SIM_OWN_ALLOC
static std::string bytes(const dso::StokesCoeffs &cs) {
  std::string o;
  for (int i = 0; i <= cs.max_degree(); i++)
    for (int j = 0; j <= std::min(i, cs.max_order()); j++) {
      const double v[2] = {cs.C(i, j), cs.S(i, j)};
      o.append((const char *)v, sizeof v);
    }
  return o;
}
static std::string one(const Tok &t, const dso::TideAtlas *A, const RAtlas *R) {
  const tideref::Epoch e = tideref::get_epoch(t, 5);
  const int a = (int)t.i(3) & 1;
  std::string out;
  if (t.s(2) == "atm") {
    dso::AtmosphericTide m(A[a], "model");
    m.stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
    out = bytes(m.stokes_coeffs());
  } else if (!t.i(4)) {
    dso::OceanTide m(A[a]);
    m.stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
    out = bytes(m.stokes_coeffs());
  } else {
    dso::OceanTide m(A[a], lib_adm(make_adm(R[a], t.i(4))), "model");
    const int st = m.stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
    out = bytes(m.stokes_coeffs()) + (char)st;
  }
  return out + "+";
}
void world::execute(const Script &s, const std::string &) {
  SchedPlan plan;
  dso::TideAtlas A[2];
  RAtlas R[2];
  std::vector<std::vector<Tok>> ops;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("wave")) {
      const int a = (int)t.i(1) & 1;
      RWave w = get_wave(t, 2);
      bool dup = false;
      for (auto &x : R[a].w)
        dup |= x.d == w.d;
      if (dup)
        continue;
      R[a].w.push_back(w);
      fill(*A[a].append_wave(dso::TidalWave(lib_doo(w.d), w.per, w.hgt, w.name.c_str()), w.n, w.m), w);
    } else if (t.is("t")) {
      const size_t k = (size_t)(t.i(1) & 7);
      if (ops.size() <= k)
        ops.resize(k + 1);
      ops[k].push_back(t);
    } else
      plan.feed(t);
  }
  std::vector<std::vector<std::string>> want(ops.size()), got(ops.size());
  for (size_t i = 0; i < ops.size(); i++)
    for (auto &t : ops[i]) {
      want[i].push_back(in_fresh_process([&] { return one(t, A, R); }));
      opcount(t.s(2) == "atm" ? "atmospheric model" : t.i(4) ? "ocean model with admittance" : "ocean model");
    }
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < ops.size(); i++)
    bodies.push_back([&, i] {
      for (auto &t : ops[i])
        got[i].push_back(one(t, A, R));
    });
  run_threads(plan, bodies);
  for (size_t i = 0; i < ops.size(); i++)
    for (size_t k = 0; k < ops[i].size(); k++) {
      evals();
      trace("thread %zu op %zu %s %016lx", i, k, ops[i][k].s(2).c_str(), (unsigned long)fnvs(got[i][k]));
      if (want[i][k].empty())
        fail("isolated-call-failed", "the evaluation alone in a fresh process did not return");
      if (got[i][k] != want[i][k])
        fail("concurrent-result", "thread %zu operation %zu (%s) differs from the same operation alone", i, k, ops[i][k].s(2).c_str());
    }
  for (int a = 0; a < 2; a++)
    cmp_atlas(A[a], R[a], "the shared atlas afterwards");
  if (sched_switches() > 1) {
    nontrivial();
    probe("interleaved run");
  }
}
#else
struct Model {
  std::unique_ptr<dso::OceanTide> o;
  std::unique_ptr<dso::AtmosphericTide> a;
  RAtlas r;
  RAdm adm;
  bool fits = true;
};
void world::execute(const Script &s, const std::string &) {
  std::unique_ptr<dso::TideAtlas> A[3];
  RAtlas R[3];
  Model M[2][3];
  for (auto &a : A) {
    Lib lib;
    a = std::make_unique<dso::TideAtlas>();
  }
  auto dims = [](const Model &m, const char *what) {
    if (!m.r.judged || (!m.o && !m.a))
      return;
    int n, q;
    m.r.top(n, q);
    const int gn = m.o ? m.o->max_degree() : m.a->max_degree(), gq = m.o ? m.o->max_order() : m.a->max_order();
    if (gn != n || gq != q)
      fail("model-shape", "%s: the model reports (%d,%d), its waves reach (%d,%d)", what, gn, gq, n, q);
    cmp_atlas(m.o ? m.o->atlas() : m.a->atlas(), m.r, what);
  };
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("failalloc")) {
      alloc_fail_after(t.i(1));
      continue;
    }
    const long af = alloc_failed();
    evals();
    bool threw = false, oom = false;
    try {
      if (t.is("wave")) {
        auto &a = *A[t.i(1) % 3];
        auto &r = R[t.i(1) % 3];
        const RWave w = get_wave(t, 2);
        const int kind = (int)t.i(12);
        bool dup = false;
        for (auto &x : r.w)
          dup |= x.d == w.d;
        opcount(dup ? "append again" : "append");
        try {
          Lib lib;
          dso::TidalWave q(lib_doo(w.d), w.per, w.hgt, w.name.c_str());
          if (kind == 0) {
            auto it = a.append_wave(q, w.n, w.m);
            if (&*it != &a.waves().back()) {
              NoLib nl;
              fail("append-iterator", "the iterator returned is not at the new wave");
            }
            fill(*it, w);
          } else {
            dso::detail::TidalConstituentArrayEntry en{lib_doo(w.d), w.per, w.hgt, ""};
            strncpy(en._n, w.name.c_str(), sizeof en._n - 1);
            /* from a wave, or from an entry of the tables of known waves */
            dso::TidalConstituent c = kind < 3 ? dso::TidalConstituent(q, w.n, w.m) : dso::TidalConstituent(&en, w.n, w.m);
            {
              NoLib nl;
              for (int i = 0; i <= w.n; i++)
                for (int j = 0; j <= std::min(i, w.m); j++)
                  if (c.stokes_cos().C(i, j) != 0 || c.stokes_cos().S(i, j) != 0 || c.stokes_sin().C(i, j) != 0 || c.stokes_sin().S(i, j) != 0)
                    fail("wave-coeff", "a new constituent has nonzero coefficients at (%d,%d)", i, j);
            }
            fill(c, w);
            auto it = (kind & 1) ? a.append_wave(c) : a.append_wave((const dso::TidalConstituent &)dso::TidalConstituent(c));
            if (&*it != &a.waves().back()) {
              NoLib nl;
              fail("append-iterator", "the iterator returned is not at the new wave");
            }
          }
        } catch (std::bad_alloc &) {
          threw = oom = true;
        } catch (std::exception &) {
          threw = true;
        }
        if (oom && alloc_failed() == af)
          fail("alloc-spurious", "bad_alloc without an injected failure");
        if (!threw && dup && r.judged)
          fail("duplicate-accepted", "a wave the atlas holds is appended again");
        if (threw && !oom && !dup && r.judged)
          fail("append-refused", "a wave the atlas does not hold is refused");
        if (!threw)
          r.w.push_back(w);
        if (dup && threw)
          probe("duplicate refused");
        cmp_atlas(a, r, threw ? "after a refused append" : "after an append");
        state((uint64_t)r.w.size() * 1000 + (uint64_t)w.n * 20 + (uint64_t)w.m);
        nontrivial();
      } else if (t.is("find")) {
        auto &a = *A[t.i(1) % 3];
        auto &r = R[t.i(1) % 3];
        const Doo d = get_doo(t, 2);
        opcount("find");
        if (r.judged) {
          size_t k = 0;
          while (k < r.w.size() && !(r.w[k].d == d))
            k++;
          const dso::TideAtlas &ca = a;
          const long g1 = ca.find_tidal_wave(lib_doo(d)) - ca.waves().begin(), g2 = a.find_tidal_wave(lib_doo(d)) - a.waves().begin();
          if (g1 != (long)k || g2 != (long)k)
            fail("find", "found at %ld and %ld, the wave is at %d of %d", g1, g2, (int)k, (int)r.w.size());
          probe(k < r.w.size() ? "wave found" : "wave not found");
        }
      } else if (t.is("write") || t.is("mwrite")) {
        const int o = t.is("mwrite") ? 1 : 0;
        Model *m = o ? &M[t.i(1) & 1][t.i(2) % 3] : nullptr;
        if (m && !m->o && !m->a)
          continue;
        auto &a = !m ? *A[t.i(1) % 3] : m->o ? m->o->atlas() : m->a->atlas();
        auto &r = m ? m->r : R[t.i(1) % 3];
        if (!r.judged || r.w.empty())
          continue;
        auto &w = r.w[(size_t)t.i(2 + o) % r.w.size()];
        const int sc = (int)t.i(4 + o) & 1, i = (int)t.i(5 + o), j = (int)t.i(6 + o);
        if (i > w.n || j > std::min(i, w.m) || (sc && !j))
          continue;
        opcount("write");
        auto it = a.find_tidal_wave(lib_doo(w.d));
        if (it == a.waves().end())
          fail("find", "a wave of the atlas is not found");
        auto &cs = t.i(3 + o) & 1 ? it->stokes_sin() : it->stokes_cos();
        (sc ? cs.S(i, j) : cs.C(i, j)) = t.d(7 + o);
        w.over[{(int)t.i(3 + o) & 1, sc, i, j}] = t.d(7 + o);
      } else if (t.is("copy") || t.is("move") || t.is("swap") || t.is("cctor") || t.is("mctor")) {
        const int x = (int)t.i(1) % 3, y = (int)t.i(2) % 3;
        if (x == y && !t.is("copy"))
          continue;
        opcount(t.s(0).c_str());
        try {
          Lib lib;
          if (t.is("copy"))
            *A[x] = *A[y];
          else if (t.is("move"))
            *A[x] = std::move(*A[y]);
          else if (t.is("swap"))
            std::swap(*A[x], *A[y]);
          else if (t.is("cctor"))
            A[x] = std::make_unique<dso::TideAtlas>(*A[y]);
          else
            A[x] = std::make_unique<dso::TideAtlas>(std::move(*A[y]));
        } catch (std::bad_alloc &) {
          threw = oom = true;
        }
        if (threw) {
          if (alloc_failed() == af)
            fail("alloc-spurious", "bad_alloc without an injected failure");
          if (t.is("copy"))
            R[x].judged = false; /* partly assigned: must stay usable and destructible */
        } else if (t.is("swap"))
          std::swap(R[x], R[y]);
        else if (x != y) {
          R[x] = R[y];
          if (t.is("move") || t.is("mctor")) {
            const long af1 = alloc_failed();
            alloc_fail_clear();
            if (af1 > af)
              fault("allocation failure");
            Lib lib;
            A[y] = std::make_unique<dso::TideAtlas>();
            NoLib nl;
            R[y] = RAtlas();
          }
        }
        cmp_atlas(*A[x], R[x], t.s(0).c_str());
        cmp_atlas(*A[y], R[y], "the source");
        nontrivial();
      } else if (t.is("name")) {
        auto &a = *A[t.i(1) % 3];
        strncpy(a.name(), t.s(2).c_str(), dso::TideAtlas::NAME_MAX_CHARS - 1);
        R[t.i(1) % 3].name = t.s(2);
      } else if (t.is("drop")) {
        Lib lib;
        A[t.i(1) % 3].reset();
        alloc_fail_clear();
        A[t.i(1) % 3] = std::make_unique<dso::TideAtlas>();
        NoLib nl;
        R[t.i(1) % 3] = RAtlas();
      } else if (t.is("ocean") || t.is("atm")) {
        const bool oc = t.is("ocean");
        Model &m = M[oc ? 0 : 1][t.i(1) % 3];
        auto &a = *A[t.i(2) % 3];
        auto &r = R[t.i(2) % 3];
        const std::string nm = t.s(oc ? 4 : 3);
        const char *np = nm == "-" ? nullptr : nm.c_str();
        opcount(oc ? "ocean model" : "atmospheric model");
        Model q;
        q.r = r;
        if (np)
          q.r.name = nm;
        try {
          if (!oc) {
            Lib lib;
            q.a = std::make_unique<dso::AtmosphericTide>(a, np);
          } else if (t.i(3) && r.judged) {
            q.adm = make_adm(r, t.i(3));
            Lib lib;
            q.o = std::make_unique<dso::OceanTide>(a, lib_adm(q.adm), np);
          } else {
            Lib lib;
            q.o = std::make_unique<dso::OceanTide>(a, np);
          }
        } catch (std::bad_alloc &) {
          threw = oom = true;
        }
        if (threw && alloc_failed() == af)
          fail("alloc-spurious", "bad_alloc without an injected failure");
        if (!threw) {
          {
            Lib lib;
            m.o = std::move(q.o);
            m.a = std::move(q.a);
          }
          m.r = q.r;
          m.adm = q.adm;
          m.fits = true;
          dims(m, "after building");
          nontrivial();
        }
        cmp_atlas(a, r, "the atlas a model was built from");
      } else if (t.is("setadm")) {
        Model &m = M[0][t.i(1) % 3];
        auto &r = R[t.i(1) % 3]; /* information that may belong to another atlas */
        if (!m.o || !r.judged || !m.r.judged)
          continue;
        opcount("set admittance");
        const RAdm q = make_adm(t.i(2) & 1 ? m.r : r, t.i(2));
        int st;
        try {
          Lib lib;
          st = m.o->set_groops_admittance(lib_adm(q));
        } catch (std::bad_alloc &) {
          threw = oom = true;
        }
        if (threw && alloc_failed() == af)
          fail("alloc-spurious", "bad_alloc without an injected failure");
        const bool fits = q.A.size() == m.r.w.size();
        if (!threw && st && fits)
          fail("admittance-rejected", "fitting admittance information is rejected");
        if (threw)
          m.r.judged = false;
        else if (!st) {
          m.adm = q;
          m.fits = fits;
        }
        dims(m, "after attaching admittance");
      } else if (t.is("eval")) {
        Model &m = M[t.i(1) & 1][t.i(2) % 3];
        if (!m.o && !m.a)
          continue;
        const tideref::Epoch e = tideref::get_epoch(t, 3);
        opcount("eval");
        int st;
        {
          Lib lib;
          st = m.o ? m.o->stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del) : m.a->stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
        }
        if (!m.r.judged)
          continue;
        if (!m.fits) {
          if (!st)
            fail("mismatch-accepted", "a model whose admittance does not fit its waves is evaluated");
          probe("mismatch reported");
          continue;
        }
        if (st)
          fail("eval-refused", "evaluation returns %d", st);
        cmp_sum(m.o ? static_cast<const dso::OceanTide &>(*m.o).stokes_coeffs() : static_cast<const dso::AtmosphericTide &>(*m.a).stokes_coeffs(),
                ref_sum(m.r, &m.adm, !m.o, e), m.o ? "ocean" : "atmosphere");
        dims(m, "after an evaluation");
        trace("eval %ld %ld", t.i(1) & 1, t.i(2) % 3);
        nontrivial();
      }
    } catch (std::bad_alloc &) {
      fail("alloc-spurious", "bad_alloc escapes at %s", l.substr(0, 60).c_str());
    }
    if (alloc_failed() > af) {
      fault("allocation failure");
      if (!threw && !t.is("drop"))
        probe("allocation failure absorbed");
    }
    alloc_fail_clear();
  }
  for (int k = 0; k < 3; k++)
    cmp_atlas(*A[k], R[k], "at the end");
  for (auto &x : M)
    for (auto &m : x)
      dims(m, "at the end");
  {
    Lib lib;
    for (auto &a : A)
      a.reset();
    for (auto &x : M)
      for (auto &m : x) {
        m.o.reset();
        m.a.reset();
      }
  }
  check_leaks("at the end");
}
#endif
