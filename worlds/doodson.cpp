/* World "doodson": Doodson numbers as text, as values and as keys of the wave
 * lists (C30). Texts lie in buffers of exactly their size (fixed columns of a
 * record need not end with a NUL), whole or damaged; numbers are written, read
 * back, copied and changed in place under a seeded order of operations. The
 * oracle is a table of the character code and integer arithmetic. */
#include "sim.hpp"
#include "doodson.hpp"
#include <cmath>
#include <cstring>
#include <new>
#include <stdexcept>
using namespace sim;
const char *const world::name = "doodson";
typedef dso::DoodsonConstituent DC;

/* ---- the character code ------------------------------------------------------ */
static const char CODE[] = "nopqrstuvwxyz0123456789abcdefghijklm"; /* -13 .. 22 */
static bool value_of(unsigned char c, int &v) {
  if (c >= 'A' && c <= 'Z')
    c = (unsigned char)(c - 'A' + 'a');
  const char *p = c ? strchr(CODE, c) : nullptr;
  if (!p)
    return false;
  v = (int)(p - CODE) - 13;
  return true;
}
static std::string text_of(const int *n, bool fives) {
  std::string s;
  for (int k = 0; k < 6; k++) {
    if (k == 3)
      s += '.';
    s += CODE[n[k] + (fives && k ? 5 : 0) + 13];
  }
  return s;
}

/* ---- generation ------------------------------------------------------------------ */
static const char *const NAMES[] = {"\xcf\x80" "1", "P1", "S1", "K1", "\xcf\x88" "1", "M2", "T2", "S2", "R2", "K2", "N2", "L2", "T3", "S3", "R3", "S4", "S5", "S6",
    "Omega1", "Omega2", "Sa", "Ssa", "Mm", "Mf", "Mtm", "Msqm", "Q1", "O1", "J1", "2N2", "Epsilon2", "Mu2", "Nu2", "La2", "M3", "M4", "N4", "Mn4", "Ms4", "M6", "M8"};
enum { NNAMES = sizeof NAMES / sizeof *NAMES };
/* the Doodson numbers these names stand for (one place may exceed a digit) */
static const char *const NUMBERS[NNAMES] = {"162.556", "163.555", "164.555", "165.555", "166.554", "255.555", "272.556", "273.555", "274.554", "275.555", "245.655", "265.455", "381.555", "382.555", "383.555", "491.555", "5a0.555", "6bz.555",
    "055.565", "055.575", "056.554", "057.555", "065.455", "075.555", "085.455", "093.555", "135.655", "145.555", "175.455", "235.755", "227.655", "237.555", "247.455", "263.655", "355.555", "455.555", "435.755", "445.655", "473.555", "655.555", "855.555"};
static std::string number(Rng &r, bool digits) {
  std::string s;
  for (int k = 0; k < 7; k++)
    s += k == 3 ? '.' : digits || r.chance(.5) ? (char)('0' + r.below(10)) : CODE[r.below(36)];
  if (r.chance(.2))
    for (auto &c : s)
      if (c >= 'a' && r.chance(.6))
        c = (char)(c - 'a' + 'A');
  return s;
}
static std::string damage(Rng &r, std::string s) {
  for (int q = r.chance(.7) ? 1 : r.range(1, 4); q > 0 && !s.empty(); q--)
    switch (r.below(7)) {
    case 0: s[r.below((int)s.size())] = (char)r.below(256); break;
    case 1: s[r.below((int)s.size())] = "/:;<=>?@[`{,-+. '\t_"[r.below(19)]; break;
    case 2: s.resize(r.below((int)s.size())); break;
    case 3: s.erase(r.below((int)s.size()), 1); break;
    case 4: s.insert(s.begin() + r.below((int)s.size()), (char)r.range(32, 126)); break;
    case 5: if (s.size() > 3) std::swap(s[3], s[r.below((int)s.size())]); break;
    default: s[r.below((int)s.size())] ^= (char)(1 << r.below(8)); break;
    }
  return s;
}
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  const int ops = r.range(8, 70);
  const double bad = cfg == "bad" ? .6 : .1;
  const int style = r.below(3); /* close together / anywhere */
  auto six = [&](bool fives) {
    std::string o;
    for (int k = 0; k < 6; k++) {
      const int sh = fives && k ? 5 : 0;
      o += strf(" %d", style == 0 ? r.range(-1, 1) : style == 1 ? r.range(-5, 4) : r.range(-13, 22) - sh);
    }
    return o;
  };
  for (int k = 0; k < ops; k++) {
    const int a = r.below(5), b = r.below(5), w = k < 4 ? r.below(8) : r.below(60);
    if (w < 4 && r.chance(.4)) {
      /* a listed wave, or one close to it */
      const auto &e = dso::detail::OceanicTidalHarmonics[r.below((int)dso::detail::OceanicTidalHarmonics.size())];
      int n[6], q = r.below(12);
      for (int i = 0; i < 6; i++)
        n[i] = e.doodson()(i) + (i == q ? r.range(-1, 1) : 0);
      s.add("num %d %d %d %d %d %d %d %d", a, n[0], n[1], n[2], n[3], n[4], n[5], r.chance(.8) ? (int)e.doodson().pifactor() : r.range(-2, 2));
    } else if (w < 4)
      s.add("num %d%s %d", a, six(true).c_str(), r.chance(.3) ? r.range(-2, 2) : 0);
    else if (w < 18) {
      std::string t = number(r, r.chance(.5));
      if (r.chance(bad))
        t = damage(r, t);
      if (r.chance(.3))
        t += r.chance(.5) ? " 1.5e3" : std::string(r.range(1, 9), (char)r.range(32, 126));
      s.add("text %d %d %s", a, (int)r.chance(.5), esc(t).c_str());
    } else if (w < 28) {
      std::string t = number(r, r.chance(.9));
      if (r.chance(bad))
        t = damage(r, t);
      t = std::string(r.chance(.5) ? r.range(1, 12) : 0, ' ') + t;
      if (r.chance(.3))
        t += r.chance(.5) ? " K1" : std::string(r.range(1, 9), (char)r.range(32, 126));
      s.add("iers %d %d %s", a, (int)r.chance(.5), esc(t).c_str());
    } else if (w < 36)
      s.add("write %d %d", a, (int)r.chance(.7));
    else if (w < 39)
      s.add("put %d %d %d", a, r.below(6), r.range(-8, 17));
    else if (w < 42)
      s.add("copy %d %d", a, b);
    else if (w < 50)
      s.add("cmp %d %d", a, b);
    else if (w < 54)
      s.add("arg %d %.17g %.17g %.17g %.17g %.17g %.17g", a, r.uni(-7, 7), r.uni(-7, 7), r.uni(-7, 7), r.uni(-7, 7), r.uni(-7, 7), r.uni(-7, 7));
    else {
      std::string nm = NAMES[r.below(NNAMES)];
      const int how = r.below(6);
      if (how == 0)
        nm = damage(r, nm);
      else if (how == 1)
        for (auto &c : nm)
          c = (char)(r.chance(.5) ? toupper((unsigned char)c) : tolower((unsigned char)c));
      else if (how == 2)
        nm += r.chance(.5) ? " " : "2";
      s.add(r.chance(.6) ? "find %s" : "wave %s", esc(nm).c_str());
    }
  }
}

/* ---- execution ---------------------------------------------------------------------- */
struct Slot {
  alignas(DC) unsigned char raw[sizeof(DC)];
  DC *d = nullptr;
  int n[6];
  double pi = 0;
};
static void drop_into(Slot &s, const DC &d) {
  memset(s.raw, 0xa5, sizeof s.raw);
  s.d = new (s.raw) DC(d);
}
static void judge(Slot &s, int a, const char *when) {
  bool same = s.d->pifactor() == s.pi;
  for (int k = 0; k < 6; k++)
    same = same && (*s.d)(k) == s.n[k] && s.d->int_array()[k] == s.n[k];
  const DC &c = *s.d;
  for (int k = 0; k < 6; k++)
    same = same && c(k) == s.n[k];
  evals();
  if (!same)
    fail("value", "%s: number %d is %d %d %d %d %d %d (%g), expected %d %d %d %d %d %d (%g)", when, a, c(0), c(1), c(2), c(3), c(4), c(5), c.pifactor(), s.n[0], s.n[1], s.n[2], s.n[3], s.n[4], s.n[5], s.pi);
}
/* a buffer of exactly this size */
struct Column {
  char *p;
  Column(const std::string &s, bool nul) : p((char *)malloc(s.size() + (nul ? 1 : 0))) {
    memcpy(p, s.data(), s.size());
    if (nul)
      p[s.size()] = 0;
  }
  ~Column() { free(p); }
};
/* the six numbers of the text at t[at..at+7), if it has them */
static bool decode(const std::string &t, size_t at, bool letters, int *n) {
  for (int q = 0, k = 0; q < 7; q++) {
    if (at + q >= t.size())
      return false;
    const unsigned char c = (unsigned char)t[at + q];
    if (q == 3) {
      if (c != '.')
        return false;
      continue;
    }
    int v;
    if (!value_of(c, v) || (!letters && !(c >= '0' && c <= '9')))
      return false;
    n[k] = v - (k ? 5 : 0);
    k++;
  }
  return true;
}
typedef dso::detail::TidalConstituentArrayEntry Entry;
static void judge_entry(const Entry &e) {
  static const double RATE[6] = {14.49205211, 0.54901653, 0.04106864, 0.00464183, 0.00220641, 0.00000196};
  double sp = 0;
  for (int k = 0; k < 6; k++)
    sp += RATE[k] * e.doodson()(k);
  if (e.period() != 0 && !(std::fabs(sp - e.period()) < 1e-5))
    fail("speed", "wave %s is listed with a speed of %.9f deg/hour, its multipliers give %.9f", e.name(), e.period(), sp);
  evals();
  for (int k = 0; k < NNAMES; k++)
    if (!strcasecmp(NAMES[k], e.name())) {
      int n[6];
      if (!decode(NUMBERS[k], 0, true, n))
        fail("harness", "bad number %s", NUMBERS[k]);
      for (int q = 0; q < 6; q++)
        if (e.doodson()(q) != n[q])
          fail("number", "wave %s is listed with a multiplier %d of %d, its number is %s", e.name(), q, e.doodson()(q), NUMBERS[k]);
      return;
    }
}
void world::execute(const Script &sc, const std::string &) {
  Slot slot[5];
  for (auto &l : sc.lines) {
    Tok t(l);
    const int a = (int)((t.i(1) % 5 + 5) % 5), b = (int)((t.i(2) % 5 + 5) % 5);
    Slot &s = slot[a], &o = slot[b];
    if (t.is("num")) {
      opcount("num");
      int n[6];
      for (int k = 0; k < 6; k++)
        n[k] = (int)t.i(k + 2);
      const double pi = (double)t.i(8);
      if (pi == 0 && n[0] % 2)
        drop_into(s, DC(n));
      else if (pi == 0)
        drop_into(s, DC({n[0], n[1], n[2], n[3], n[4], n[5]}));
      else
        drop_into(s, DC(n[0], n[1], n[2], n[3], n[4], n[5], pi));
      memcpy(s.n, n, sizeof n);
      s.pi = pi;
      judge(s, a, "built");
    } else if (t.is("text") || t.is("iers")) {
      const bool iers = t.is("iers");
      opcount(iers ? "resolve" : "from_chars");
      const std::string x = unesc(rest_of(l, 3));
      size_t at = 0;
      if (iers)
        while (at < x.size() && x[at] == ' ')
          at++;
      int n[6];
      const bool ok = decode(x, at, !iers, n);
      /* fixed columns end where the number does; shorter text ends with a NUL */
      const bool nul = t.i(2) || x.size() < at + 7;
      Column c(x, nul);
      bool thrown = false;
      DC got;
      try {
        Lib lib;
        got = iers ? dso::resolve_iers10_doodson_string(c.p) : DC::from_chars(c.p);
      } catch (const std::exception &) {
        thrown = true;
      }
      evals();
      trace("%s '%s': %s", iers ? "resolve" : "from_chars", esc(x).c_str(), thrown ? "refused" : "read");
      state(fnvs(x.substr(at, 7)));
      /* an IERS number in which letters stand for numbers beyond a digit is
       * not one of the form the function is for; not judged */
      bool vague = false;
      if (iers && !ok)
        vague = decode(x, at, true, n);
      if (vague) {
        probe("letters in an IERS number");
        continue;
      }
      if (thrown && ok)
        fail("refused", "'%s' is a Doodson number and was refused", esc(x).c_str());
      if (!thrown && !ok)
        fail("accepted", "'%s' is not a Doodson number and was read as %d %d %d %d %d %d", esc(x).c_str(), got(0), got(1), got(2), got(3), got(4), got(5));
      if (!ok) {
        fault("damaged number");
        probe("refused");
        nontrivial();
        continue;
      }
      drop_into(s, got);
      memcpy(s.n, n, sizeof n);
      s.pi = 0;
      judge(s, a, "read");
      probe(nul ? "read a string" : "read a column");
    } else if (t.is("find") || t.is("wave")) {
      opcount("find");
      const std::string nm = unesc(rest_of(l, 1));
      if (nm.find('\0') != std::string::npos)
        continue;
      Column c(nm, true);
      const Entry *e, *want = nullptr;
      if (t.is("find")) {
        for (auto &w : dso::detail::AtmosphericTidalHarmonics)
          if (!want && nm == w.name())
            want = &w;
        e = dso::find_wave_entry(c.p);
        bool thrown = false;
        dso::TidalWave tw;
        try {
          Lib lib;
          tw = dso::get_wave(c.p);
        } catch (const std::exception &) {
          thrown = true;
        }
        if (thrown != !want)
          fail("wave", "wave '%s' %s listed but was %s", esc(nm).c_str(), want ? "is" : "is not", thrown ? "refused" : "given");
        if (want && (nm != tw.name() || tw.doodson() != want->doodson() || tw.period() != want->period() || tw.height() != want->height()))
          fail("wave", "wave '%s' differs from the list's", esc(nm).c_str());
      } else {
        for (auto &w : dso::detail::OceanicTidalHarmonics)
          if (!want && !strcasecmp(nm.c_str(), w.name()))
            want = &w;
        e = dso::detail::match_ocean_tide_wave(c.p);
      }
      evals();
      if (!want != !e || (want && (strcmp(want->name(), e->name()) || want->doodson() != e->doodson() || want->period() != e->period() || want->height() != e->height())))
        fail("wave", "looking up '%s' gave %s", esc(nm).c_str(), e ? e->name() : "nothing");
      probe(want ? "wave found" : "wave not found");
      if (want) {
        nontrivial();
        judge_entry(*want);
        /* and by its number */
        if (t.is("wave")) {
          const DC d = want->doodson();
          const Entry *x = dso::detail::match_ocean_tide_wave(d);
          if (!x || x->doodson() != d || strcmp(x->name(), want->name()))
            fail("wave", "the number of %s is matched with %s", want->name(), x ? x->name() : "nothing");
        }
      }
    } else if (!s.d) {
      continue;
    } else if (t.is("write")) {
      bool f = t.i(2) != 0, fits = true;
      for (int k = 0; k < 6; k++) {
        const int v = s.n[k] + (f && k ? 5 : 0);
        fits = fits && v >= -13 && v <= 22;
      }
      if (!fits)
        continue;
      opcount("write");
      Column c(std::string(7, '#'), true);
      const char *r;
      {
        Lib lib;
        r = s.d->str(c.p, f);
      }
      const std::string want = text_of(s.n, f);
      evals();
      if (r != c.p || memcmp(c.p, want.data(), 7))
        fail("text", "number %d %d %d %d %d %d is written as '%s', expected '%s'", s.n[0], s.n[1], s.n[2], s.n[3], s.n[4], s.n[5], esc(std::string(c.p, 7)).c_str(), want.c_str());
      if (f) {
        Column k(std::string(c.p, 7), false);
        DC d;
        try {
          Lib lib;
          d = DC::from_chars(k.p);
        } catch (const std::exception &) {
          fail("refused", "'%s', as written, is refused", want.c_str());
        }
        for (int q = 0; q < 6; q++)
          if (d(q) != s.n[q])
            fail("text", "'%s' reads back with a multiplier %d of %d, expected %d", want.c_str(), q, d(q), s.n[q]);
        probe("read back");
        nontrivial();
      }
      judge(s, a, "written");
    } else if (t.is("put")) {
      opcount("put");
      const int k = (int)((t.i(2) % 6 + 6) % 6), v = (int)t.i(3);
      (*s.d)(k) = v;
      s.n[k] = v;
      judge(s, a, "changed");
    } else if (t.is("arg")) {
      opcount("arg");
      double f[6];
      __float128 want = 0, mag = 0;
      for (int k = 0; k < 6; k++) {
        f[k] = t.d(k + 2);
        want += (__float128)f[k] * s.n[k];
        mag += std::fabs(f[k] * s.n[k]);
      }
      const double got = s.d->argument(f);
      const __float128 pi2 = (__float128)6.283185307179586 + (__float128)2.4492935982947064e-16;
      if (!(got >= 0 && got <= (double)pi2))
        fail("argument", "argument %.17g is not within a turn", got);
      const __float128 turns = (want - got) / pi2;
      const __float128 rest = want - got - pi2 * (__float128)std::llround((double)turns);
      evals();
      if (std::fabs((double)rest) > 1e-14 * (double)(mag + 10))
        fail("argument", "argument of %d %d %d %d %d %d is %.17g, off by %g", s.n[0], s.n[1], s.n[2], s.n[3], s.n[4], s.n[5], got, (double)rest);
      /* the same wave in Delaunay arguments and sidereal time */
      double dl[5] = {f[0], f[1], f[2], f[3], f[4]}, dd[6] = {9e9, 9e9, 9e9, 9e9, 9e9, 9e9};
      dso::delaunay2doodson(dl, f[5], dd);
      const __float128 S = (__float128)f[2] + f[4], H = S - f[3], P = S - f[0], N = -(__float128)f[4], PS = H - f[1], T = (__float128)f[5] + pi2 / 2 - S;
      const __float128 w6[6] = {T, S, H, P, N, PS};
      for (int k = 0; k < 6; k++) {
        const double q = (double)((w6[k] - dd[k]) / pi2);
        const double off = (double)(w6[k] - dd[k] - pi2 * (__float128)std::llround(q));
        if (!(dd[k] >= 0 && dd[k] <= (double)pi2) || std::fabs(off) > 1e-13)
          fail("variables", "Doodson variable %d is %.17g, off by %g", k, dd[k], off);
      }
      judge(s, a, "argument");
      probe("argument");
    } else if (!o.d) {
      continue;
    } else if (t.is("copy")) {
      opcount("copy");
      if (a == b)
        continue;
      if (s.n[0] % 2)
        *s.d = *o.d;
      else
        drop_into(s, *o.d);
      memcpy(s.n, o.n, sizeof s.n);
      s.pi = o.pi;
      judge(s, a, "copied");
    } else if (t.is("cmp")) {
      opcount("compare");
      const bool sp = s.n[0] == o.n[0], gr = sp && s.n[1] == o.n[1], co = gr && s.n[2] == o.n[2], eq = co && !memcmp(s.n, o.n, sizeof s.n) && s.pi == o.pi;
      const DC &x = *s.d, &y = *o.d;
      evals();
      if ((x == y) != eq || (x != y) == eq || x.same_species(y) != sp || x.same_group(y) != gr || x.same_constituent(y) != co)
        fail("compare", "numbers %d and %d compare ==%d !=%d species %d group %d constituent %d; expected %d %d %d %d %d", a, b, x == y, x != y, x.same_species(y), x.same_group(y), x.same_constituent(y), eq, !eq, sp, gr, co);
      const Entry *e = dso::detail::match_ocean_tide_wave(x), *want = nullptr;
      for (auto &w : dso::detail::OceanicTidalHarmonics) {
        bool m = w.doodson().pifactor() == s.pi;
        for (int k = 0; k < 6; k++)
          m = m && w.doodson()(k) == s.n[k];
        if (m && !want)
          want = &w;
      }
      if (!e != !want || (e && strcmp(e->name(), want->name())))
        fail("wave", "number %d is matched with %s, expected %s", a, e ? e->name() : "nothing", want ? want->name() : "nothing");
      nontrivial();
      probe(eq ? "equal" : co ? "same constituent" : gr ? "same group" : sp ? "same species" : "other species");
    }
  }
  for (int a = 0; a < 5; a++)
    if (slot[a].d)
      judge(slot[a], a, "at the end");
  check_leaks("at the end");
}
