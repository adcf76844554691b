/* World "spice": kernels, constants and positions over a simulated SPICE toolkit
 * (C23). The toolkit (kernel pool, error subsystem in RETURN mode, constants,
 * ephemerides) is the harness's; the library's calls to it are real. */
#include "sim.hpp"
#include "planets.hpp"
#include <cmath>
#include <map>
using namespace sim;
typedef long double LD;
const char *const world::name = "spice";

/* ---- the simulated toolkit --------------------------------------------------------- */
struct Kern {
  char type = 'S'; /* L leap seconds, P constants, S ephemeris, X not a kernel */
  double t0 = -1e11, t1 = 1e11;
  unsigned mask = 0; /* bodies / constants held */
  int seed = 0;
};
static std::map<std::string, Kern> g_files;
static std::vector<std::string> g_pool; /* load order */
static std::vector<std::string> g_furnsh;
static bool g_failed;
static long g_fired;
static long g_injected; /* failures put in, not brought about by the request */
static int g_failat; /* the n-th next toolkit operation that reads fails */
static const int BODY[8] = {399, 301, 10, 199, 299, 499, 599, 699};
static const char *const BNAME[8] = {"EARTH", "MOON", "SUN", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN"};
static void signal_error(const char *what) {
  g_failed = true;
  g_fired++;
  fault(what);
}
static bool read_fault(const char *what) {
  if (g_failat > 0 && --g_failat == 0) {
    g_injected++;
    signal_error(what);
    return true;
  }
  return false;
}
static void put(SpiceChar *o, SpiceInt len, const std::string &v) {
  if (len < 1)
    return;
  const size_t n = std::min<size_t>(v.size(), (size_t)len - 1);
  memcpy(o, v.data(), n);
  o[n] = 0;
}
static const char *tname(char t) { return t == 'S' ? "SPK" : "TEXT"; }
static bool of_kind(const std::string &f, const std::string &kind) { return kind.find("ALL") != std::string::npos || kind.find(tname(g_files[f].type)) != std::string::npos; }
extern "C" {
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count) {
  NoLib n;
  if (g_failed)
    return;
  *count = 0;
  for (auto &f : g_pool)
    *count += of_kind(f, kind);
}
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt fl, SpiceInt tl, SpiceInt sl, SpiceChar *file, SpiceChar *typ, SpiceChar *src, SpiceInt *handle, SpiceBoolean *found) {
  NoLib nl;
  if (g_failed)
    return;
  *found = SPICEFALSE;
  for (auto &f : g_pool)
    if (of_kind(f, kind) && which-- == 0) {
      put(file, fl, f);
      put(typ, tl, tname(g_files[f].type));
      put(src, sl, "");
      *handle = g_files[f].type == 'S' ? 7 : 0;
      *found = SPICETRUE;
      return;
    }
}
void kinfo_c(ConstSpiceChar *file, SpiceInt tl, SpiceInt sl, SpiceChar *typ, SpiceChar *src, SpiceInt *handle, SpiceBoolean *found) {
  NoLib nl;
  if (g_failed)
    return;
  *found = SPICEFALSE;
  for (auto &f : g_pool)
    if (f == file) {
      put(typ, tl, tname(g_files[f].type));
      put(src, sl, "");
      *handle = g_files[f].type == 'S' ? 7 : 0;
      *found = SPICETRUE;
    }
}
void furnsh_c(ConstSpiceChar *file) {
  NoLib nl;
  if (g_failed)
    return;
  const std::string f = file;
  g_furnsh.push_back(f);
  if (f.empty() || f.size() > 255 || !g_files.count(f)) {
    signal_error(f.size() > 255 ? "kernel_name_too_long" : "kernel_missing");
    return;
  }
  if (g_files[f].type == 'X') {
    signal_error("kernel_corrupt");
    return;
  }
  if (read_fault("kernel_read_error"))
    return;
  for (size_t k = 0; k < g_pool.size(); k++)
    if (g_pool[k] == f)
      g_pool.erase(g_pool.begin() + (long)k--);
  g_pool.push_back(f);
}
void unload_c(ConstSpiceChar *file) {
  NoLib nl;
  if (g_failed)
    return;
  for (size_t k = 0; k < g_pool.size(); k++)
    if (g_pool[k] == file)
      g_pool.erase(g_pool.begin() + (long)k--);
}
void kclear_c() {
  NoLib nl;
  if (!g_failed)
    g_pool.clear();
}
/* from a small moon's to the Sun's size */
static double gm_of(const Kern &k, int b) { return (1e5 * (b + 1) + k.seed * 1.25) * std::pow(10., k.seed % 13 - 5); }
void bodvrd_c(ConstSpiceChar *body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values) {
  NoLib nl;
  if (g_failed)
    return;
  int b = -1;
  for (int k = 0; k < 8; k++)
    if (!strcmp(body, BNAME[k]) || atoi(body) == BODY[k])
      b = k;
  if (b < 0 || strcmp(item, "GM")) {
    signal_error("constant_unknown");
    return;
  }
  if (read_fault("constant_read_error"))
    return;
  for (size_t k = g_pool.size(); k-- > 0;) {
    const Kern &q = g_files[g_pool[k]];
    if (q.type != 'P' || !(q.mask >> b & 1))
      continue;
    *dim = (q.mask >> (8 + b) & 1) ? 3 : 1;
    if (*dim > maxn) {
      signal_error("constant_wrong_size");
      return;
    }
    for (int i = 0; i < *dim; i++)
      values[i] = gm_of(q, b);
    return;
  }
  signal_error("constant_missing");
}
SpiceDouble unitim_c(SpiceDouble ep, ConstSpiceChar *in, ConstSpiceChar *out) {
  NoLib nl;
  if (g_failed)
    return 0;
  bool lsk = false;
  for (auto &f : g_pool)
    lsk |= g_files[f].type == 'L';
  if (!lsk) {
    signal_error("leap_seconds_missing");
    return 0;
  }
  if (read_fault("time_error"))
    return 0;
  const std::string i = in, o = out;
  const double s = i.compare(0, 2, "JD") ? ep : (ep - 2451545e0) * 86400;
  const double p = .001657 * std::sin(6.239996 + 1.99096871e-7 * s);
  const bool tt = i == "JDTDT" || i == "TDT" || i == "TT", et = o == "ET" || o == "TDB";
  return tt == et ? (tt ? s + p : s - p) : s;
}
/* component q of a body's position [km] (q < 3) or velocity [km/s], from Earth */
static LD ephem(const Kern &k, int b, LD et, int q, bool vel) {
  if (!b)
    return 0;
  const LD v = (b * 7 + q * 3 + k.seed % 50) * .17L - 5;
  return vel ? v : 1e6L * (b + 1) * (q + 1) + k.seed % 1000 + v * et;
}
static int find_body(const std::string &w) {
  for (int k = 0; k < 8; k++)
    if (w == BNAME[k] || (w.find_first_not_of("0123456789 ") == std::string::npos && atoi(w.c_str()) == BODY[k]))
      return k;
  return -1;
}
static bool spk(int b, double et, const std::string &ref, const std::string &cor, int obs, double *o, int n) {
  if (b < 0 || obs < 0) {
    signal_error("body_unknown");
    return false;
  }
  if (read_fault("ephemeris_read_error"))
    return false;
  for (size_t k = g_pool.size(); k-- > 0;) {
    const Kern &q = g_files[g_pool[k]];
    if (q.type != 'S' || !(q.mask >> b & 1) || !(q.mask >> obs & 1) || et < q.t0 || et > q.t1)
      continue;
    const double odd = (ref == "J2000" || ref == "ICRF" ? 0 : 1e4) + (cor == "NONE" ? 0 : 3e4);
    for (int i = 0; i < n; i++)
      o[i] = (double)(ephem(q, b, et, i % 3, i > 2) - ephem(q, obs, et, i % 3, i > 2)) + odd;
    return true;
  }
  signal_error("ephemeris_gap");
  return false;
}
static int index_of(int id) {
  for (int k = 0; k < 8; k++)
    if (BODY[k] == id)
      return k;
  return -1;
}
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *cor, SpiceInt obs, SpiceDouble *pos, SpiceDouble *lt) {
  NoLib nl;
  if (g_failed)
    return;
  if (spk(index_of(targ), et, ref, cor, index_of(obs), pos, 3))
    *lt = 1;
}
void spkezr_c(ConstSpiceChar *targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *cor, ConstSpiceChar *obs, SpiceDouble *st, SpiceDouble *lt) {
  NoLib nl;
  if (g_failed)
    return;
  if (spk(find_body(targ), et, ref, cor, find_body(obs), st, 6))
    *lt = 1;
}
void spkgps_c(SpiceInt, SpiceDouble, ConstSpiceChar *, SpiceInt, SpiceDouble *, SpiceDouble *) {}
SpiceBoolean failed_c() { return g_failed ? SPICETRUE : SPICEFALSE; }
SpiceBoolean return_c() { return g_failed ? SPICETRUE : SPICEFALSE; }
void reset_c() { g_failed = false; }
void erract_c(ConstSpiceChar *, SpiceInt, SpiceChar *) {}
void errprt_c(ConstSpiceChar *, SpiceInt, SpiceChar *) {}
void getmsg_c(ConstSpiceChar *, SpiceInt len, SpiceChar *m) { put(m, len, g_failed ? "SPICE(SIMULATED)" : ""); }
}

/* ---- generation ------------------------------------------------------------------------ */
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  std::vector<std::string> names;
  const char *base[] = {"naif0012.tls", "gm_de431.tpc", "de421.bsp", "data/de440.bsp", "k"};
  const int n = r.range(2, 9);
  for (int k = 0; k < n; k++) {
    std::string f = base[r.below(5)];
    switch (r.below(8)) {
    case 0: /* a longer name with the same start */
      if (!names.empty())
        f = r.pick(names) + (r.chance(.5) ? "x" : ".bak");
      break;
    case 1: /* the start of another name */
      if (!names.empty()) {
        f = r.pick(names);
        f = f.substr(0, (size_t)r.range(1, (int)f.size()));
      }
      break;
    case 2: /* deep directories: names that differ late */
    {
      const int len = r.chance(.5) ? r.range(100, 140) : r.range(60, 250);
      f.clear();
      while ((int)f.size() < len)
        f += "kernels/";
      f = f.substr(0, (size_t)len) + (char)('a' + r.below(3));
      break;
    }
    case 3:
      f = "./" + f;
      break;
    case 4:
      if (!names.empty()) { /* same name, other case or directory */
        f = r.pick(names);
        if (r.chance(.5))
          f[0] = (char)toupper(f[0]);
        else
          f = "old/" + f;
      }
      break;
    }
    if (f.size() > 255)
      f.resize(255);
    names.push_back(f);
    char ty = k == 0 ? 'L' : k == 1 ? 'S' : "LPSSP"[r.below(5)];
    if (cfg == "bad" && r.chance(.12))
      ty = 'X';
    unsigned mask = r.chance(.7) ? 255u : (unsigned)r.below(256) | 1u;
    if (cfg == "bad" && r.chance(.1))
      mask |= (unsigned)r.below(256) << 8;
    const bool part = r.chance(cfg == "bad" ? .4 : .15);
    s.add("file %c %u %d %lld %lld %s", ty, mask, r.range(0, 100000), part ? (long long)r.range(-900, 400) * 1000000LL : -100000000000LL, part ? (long long)r.range(-200, 900) * 1000000LL : 100000000000LL, esc(f).c_str());
  }
  auto any = [&]() {
    if (r.chance(.06))
      return std::string(r.chance(.2) ? "" : r.chance(.2) ? std::string((size_t)r.range(256, 400), 'q') : "nosuch.bsp");
    std::string f = r.pick(names);
    if (r.chance(.08)) /* a start of a kernel's name that may be no kernel */
      f = f.substr(0, (size_t)r.range(1, (int)f.size()));
    return f;
  };
  const int ops = r.range(4, 30);
  for (int k = 0; k < ops; k++) {
    const int w = k < 3 ? r.below(6) : r.below(28);
    if (cfg == "bad" && r.chance(.15))
      s.add("failat %d", r.range(1, 4));
    if (w < 6)
      s.add("%s %s", r.chance(.5) ? "load" : "spiceload", esc(any()).c_str());
    else if (w < 8)
      s.add("furnsh %s", esc(any()).c_str());
    else if (w < 10)
      s.add("unload %s", esc(any()).c_str());
    else if (w < 11)
      s.add("kclear");
    else if (w < 16)
      s.add("gm %d %d %s", r.chance(.1) ? r.pick(std::vector<int>{2, -1, 256}) : r.below(2), r.chance(.5), esc(any()).c_str());
    else if (w < 21)
      s.add("pos %d %d %d", r.chance(.03) ? 99 : r.below(8), r.range(41000, 62000), r.below(86400));
    else if (w < 26)
      s.add("state %d %d %d", r.chance(.03) ? 99 : r.below(8), r.range(41000, 62000), r.below(86400));
    else if (w < 27)
      s.add("id %d %d", r.chance(.1) ? 99 : r.below(8), r.range(4, 12));
    if (r.chance(.5))
      s.add("reset"); /* the caller dealt with an error */
  }
}

/* ---- execution --------------------------------------------------------------------------- */
void world::execute(const Script &s, const std::string &) {
  double lo = 1e300, hi = -1e300;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("file")) {
      Kern k;
      k.type = t.s(1)[0];
      k.mask = (unsigned)t.i(2);
      k.seed = (int)t.i(3);
      k.t0 = t.d(4);
      k.t1 = t.d(5);
      g_files[unesc(rest_of(l, 6))] = k;
      continue;
    }
    if (t.is("failat")) {
      g_failat = (int)t.i(1);
      continue;
    }
    if (t.is("reset")) {
      if (g_failed)
        probe("error cleared by the caller");
      g_failed = false;
      continue;
    }
    const bool pend = g_failed;
    const long f0 = g_fired, i0 = g_injected;
    bool possible = true; /* the toolkit can do what is asked */
    const auto pool0 = g_pool;
    g_furnsh.clear();
    if (t.is("furnsh") || t.is("unload") || t.is("kclear")) {
      /* by somebody else in the program */
      const std::string f = unesc(rest_of(l, 1));
      if (t.is("furnsh"))
        furnsh_c(f.c_str());
      else if (t.is("unload"))
        unload_c(f.c_str());
      else
        kclear_c();
      continue;
    }
    evals();
    std::string want; /* kernel asked for */
    bool asked = false;
    int rc = -999;
    if (t.is("load") || t.is("spiceload")) {
      opcount("load");
      want = unesc(rest_of(l, 1));
      asked = true;
      Lib lib;
      rc = t.is("load") ? dso::cspice::load_if_unloaded(want.c_str()) : dso::load_spice_kernel(want.c_str());
    } else if (t.is("gm")) {
      opcount("constants");
      double a = -77, b = -78;
      if (t.i(2)) {
        want = unesc(rest_of(l, 3));
        asked = true;
      }
      {
        Lib lib;
        rc = dso::sun_moon_gm(a, b, (int)t.i(1), asked ? want.c_str() : nullptr);
      }
      {
        /* what the pool holds now */
        const double f = t.i(1) ? 1e9 : 1;
        for (int q = 0; q < 2; q++) {
          const int body = q ? 1 : 2;
          const Kern *k = nullptr;
          for (auto &n : g_pool)
            if (g_files[n].type == 'P' && (g_files[n].mask >> body & 1))
              k = &g_files[n];
          const bool held = k && !(k->mask >> (8 + body) & 1);
          possible &= held;
          if (rc)
            continue;
          if (!held)
            fail("error-as-success", "no loaded kernel holds the constant of %s, the request succeeds", BNAME[body]);
          const double v = q ? b : a, w = gm_of(*k, body) * f;
          if (!(std::fabs(v - w) <= 1e-14 * std::fabs(w)))
            fail("constant", "GM of %s is %.17g, the kernel says %.17g", BNAME[body], v, w);
        }
        if (!rc) {
          probe("constants read");
          nontrivial();
        }
      }
    } else if (t.is("pos") || t.is("state")) {
      const bool st = t.is("state");
      opcount(st ? "state" : "position");
      const int b = (int)t.i(1);
      const dso::MjdEpoch ep((int)t.i(2), dso::FractionalSeconds{(double)t.i(3)});
      Eigen::Matrix<double, 6, 1> v = Eigen::Matrix<double, 6, 1>::Constant(-5e30);
      Eigen::Matrix<double, 3, 1> p = Eigen::Matrix<double, 3, 1>::Constant(-5e30);
      {
        Lib lib;
        rc = st ? dso::planet_state((dso::Planet)b, ep, v) : dso::planet_pos((dso::Planet)b, ep, p);
      }
      if (b < 0 || b > 7) {
        probe("unknown planet");
        if (!rc)
          fail("error-as-success", "there is no planet %d", b);
        continue;
      }
      {
        const LD s0 = ((LD)t.i(2) + t.i(3) / 86400.L - 51544.5L) * 86400;
        const LD et = s0 + .001657L * sinl(6.239996L + 1.99096871e-7L * s0);
        bool lsk = false;
        const Kern *k = nullptr;
        bool edge = false;
        for (auto &n : g_pool) {
          const Kern &q = g_files[n];
          lsk |= q.type == 'L';
          edge |= fabsl(q.t0 - et) < 1 || fabsl(q.t1 - et) < 1;
          if (q.type == 'S' && (q.mask & 1) && (q.mask >> b & 1) && et >= q.t0 && et <= q.t1)
            k = &q;
        }
        possible = lsk && k && !edge;
        if (edge)
          probe("epoch at the edge of a kernel");
        if (rc || edge)
          goto judged;
        if (!lsk || !k)
          fail("error-as-success", "%s, the request succeeds", lsk ? "no loaded kernel covers the epoch" : "no leap second kernel is loaded");
        for (int q = 0; q < (st ? 6 : 3); q++) {
          const LD w = 1e3L * (ephem(*k, b, et, q % 3, q > 2) - ephem(*k, 0, et, q % 3, q > 2));
          const LD tol = q > 2 ? 1e-12L * fabsl(w) + 1e-9L : fabsl(ephem(*k, b, et, q, true)) * .2L + 1e-13L * fabsl(w) + 1e-6L;
          const double g = st ? v(q) : p(q);
          if (!(fabsl(g - w) <= tol))
            fail("position", "component %d of %s at %ld+%ld s: %.17g, the ephemeris says %.17Lg", q, BNAME[b], t.i(2), t.i(3), g, w);
        }
        lo = std::min(lo, (double)et);
        hi = std::max(hi, (double)et);
        probe(st ? "state read" : "position read");
        nontrivial();
      }
    } else if (t.is("id")) {
      const int b = (int)t.i(1), sz = (int)t.i(2);
      int id = 0;
      std::vector<char> buf((size_t)sz, 'z');
      int r1, r2;
      {
        Lib lib;
        r1 = dso::cspice::planet_to_naif_id((dso::Planet)b, id);
        r2 = dso::cspice::planet_to_naif_idstr((dso::Planet)b, buf.data(), sz);
      }
      if (b < 0 || b > 7) {
        if (!r1 || !r2)
          fail("error-as-success", "there is no planet %d", b);
      } else if (r1 || id != BODY[b] || r2 || std::string(buf.data(), strnlen(buf.data(), (size_t)sz)) != std::to_string(BODY[b]))
        fail("planet-id", "planet %d: %d %d", b, id, BODY[b]);
      continue;
    } else
      continue;
  judged:
    const bool fired = g_fired > f0;
    if (asked) {
      const bool had0 = std::find(pool0.begin(), pool0.end(), want) != pool0.end();
      possible &= had0 || (!want.empty() && want.size() < 256 && g_files.count(want) && g_files[want].type != 'X');
    }
    trace("%s%s -> %d%s, %d loaded", l.substr(0, 80).c_str(), pend ? " (error pending)" : "", rc, fired ? " (failed)" : "", (int)g_pool.size());
    std::string text;
    for (auto &n : g_pool)
      text += n + "|";
    state(fnvs(text + t.s(0)));
    if (pend)
      probe("called with an error pending");
    /* the pool: nothing but the kernel asked for may change */
    const bool had = std::find(pool0.begin(), pool0.end(), want) != pool0.end();
    if (!asked && !g_furnsh.empty())
      fail("other-kernel", "%s loads %s", t.s(0).c_str(), g_furnsh[0].substr(0, 80).c_str());
    for (auto &n : g_furnsh)
      if (n != want)
        fail("other-kernel", "asked for %s, loads %s", want.substr(0, 80).c_str(), n.substr(0, 80).c_str());
    if (asked && had && !g_furnsh.empty())
      fail("loaded-twice", "%s is loaded already, it is loaded again", want.substr(0, 80).c_str());
    if (asked && g_furnsh.size() > 1)
      fail("loaded-twice", "%s is loaded %d times", want.substr(0, 80).c_str(), (int)g_furnsh.size());
    for (auto &n : pool0)
      if (std::find(g_pool.begin(), g_pool.end(), n) == g_pool.end())
        fail("other-kernel", "%s was unloaded", n.substr(0, 80).c_str());
    if (!rc) {
      if (fired)
        fail("error-as-success", "%s reports success, the toolkit failed", l.substr(0, 80).c_str());
      if (asked && std::find(g_pool.begin(), g_pool.end(), want) == g_pool.end())
        fail("not-loaded", "%s reports success, %s is not loaded", t.s(0).c_str(), want.substr(0, 80).c_str());
      if (asked) {
        probe(had ? "loaded already" : "kernel loaded");
        nontrivial();
      }
    } else {
      probe("failure reported");
      if (!pend && possible && g_injected == i0)
        fail("refused", "%s reports %d, but everything it needs is there", l.substr(0, 80).c_str(), rc);
      if (!pend && !fired)
        fail("spurious-error", "%s reports %d, nothing failed", l.substr(0, 80).c_str(), rc);
      nontrivial();
    }
  }
  if (hi > lo)
    simtime(hi - lo);
  check_leaks("at the end");
}
