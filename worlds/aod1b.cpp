/* World "aod1b": non-tidal AOD1B products on the simulated disk.
 *   C13  well-formed products: header values, block iteration, collection
 *   C14  the same with I/O faults ("io") and damage ("dmg")
 *   C15  one-file data streams: any request order, moved streams
 *   C16  streams over a series of daily files, with missing/unreadable ones
 * Oracle: independent reader (aod1b_ref.hpp) over the text each open serves,
 * linear interpolation in long double.
 */
#include "sim.hpp"
#include "aod1b_ref.hpp"
#include "aod1b.hpp"
#include "aod1b_data_stream.hpp"
#include <memory>
#include <set>
using namespace sim;
using namespace aodref;
typedef long double LD;
using dso::Aod1bIn;
using dso::StokesCoeffs;
using CT = dso::AOD1BCoefficientType;
const char *const world::name = "aod1b";
static const CT TT[] = {CT::ATM, CT::OCN, CT::GLO, CT::OBA};

struct It {
  virtual ~It() {}
  virtual void begin() = 0;
  virtual void skip() = 0;
  virtual int collect(StokesCoeffs &, int, int, int) = 0;
  virtual int advance() = 0;
  virtual const Aod1bIn::Aod1bBlockHeader &head() = 0;
  virtual bool eof() = 0;
};
template <CT T> struct ItT : It {
  dso::Aod1bDataBlockIterator<T> it;
  explicit ItT(const Aod1bIn &a) : it(a) {}
  void begin() override { it.set_begin(); }
  void skip() override { it.skip(); }
  int collect(StokesCoeffs &c, int n, int m, int rs) override { return it.collect(c, n, m, rs); }
  int advance() override { return it.advance(); }
  const Aod1bIn::Aod1bBlockHeader &head() override { return it.header(); }
  bool eof() override { return it.is_eof(); }
};
struct St {
  virtual ~St() {}
  virtual int init() = 0;
  virtual int at(const Dt &, StokesCoeffs &) = 0;
  virtual std::unique_ptr<St> moved() = 0;
  virtual void assign(St &) = 0;
  virtual std::string fn() = 0;
};
template <CT T> struct StT : St {
  dso::Aod1bDataStream<T> s;
  explicit StT(const char *f) : s(f) {}
  StT(const char *f, const char *d) : s(f, d) {}
  explicit StT(dso::Aod1bDataStream<T> &&o) : s(std::move(o)) {}
  int init() override { return s.initialize(); }
  int at(const Dt &t, StokesCoeffs &c) override { return s.coefficients_at(t, c); }
  std::unique_ptr<St> moved() override { return std::make_unique<StT<T>>(std::move(s)); }
  void assign(St &o) override { s = std::move(static_cast<StT<T> &>(o).s); }
  std::string fn() override { return s.stream().fn(); }
};
static std::unique_ptr<It> mk_it(int t, const Aod1bIn &a) {
  switch (t) {
  case 0:
    return std::make_unique<ItT<CT::ATM>>(a);
  case 1:
    return std::make_unique<ItT<CT::OCN>>(a);
  case 2:
    return std::make_unique<ItT<CT::GLO>>(a);
  }
  return std::make_unique<ItT<CT::OBA>>(a);
}
template <CT T> static std::unique_ptr<St> mk_st1(const char *f, const char *d) {
  return d ? std::make_unique<StT<T>>(f, d) : std::make_unique<StT<T>>(f);
}
static std::unique_ptr<St> mk_st(int t, const char *f, const char *d) {
  switch (t) {
  case 0:
    return mk_st1<CT::ATM>(f, d);
  case 1:
    return mk_st1<CT::OCN>(f, d);
  case 2:
    return mk_st1<CT::GLO>(f, d);
  }
  return mk_st1<CT::OBA>(f, d);
}

/* ---- generation ------------------------------------------------------------- */
static Gen gen_params(Rng &r, int lo, int hi) {
  Gen g;
  g.nmax = r.chance(.1) ? r.range(0, 1) : r.range(1, r.chance(.1) ? 20 : 6);
  g.epochs = r.range(lo, hi);
  g.step = r.chance(.7) ? 3 : r.chance(.5) ? 6 : 1;
  static const long D[] = {54650, 51543, 53735, 57753, 59579, 52640, 57999};
  g.mjd = r.chance(.6) ? D[r.below(7)] + r.below(2) : r.range(50500, 60000);
  g.types = {0, 1, 2, 3};
  if (r.chance(.3))
    g.types.erase(g.types.begin() + r.below(4));
  if (r.chance(.2))
    std::swap(g.types[0], g.types[(size_t)r.below((int)g.types.size())]);
  g.rl = r.chance(.8) ? 6 : r.range(4, 12);
  return g;
}
static void gen_files(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  const int nf = r.range(1, 2);
  std::vector<Gen> G;
  for (int k = 0; k < nf; k++) {
    char nm[16];
    snprintf(nm, sizeof nm, "aod%d", k);
    Gen g = gen_params(r, 1, r.chance(.3) ? 8 : 4);
    G.push_back(g);
    gen_product(r, s, nm, g, r.chance(.8) ? 0 : 1);
    if (cfg != "dmg")
      Files::gen_delivery(r, s, nm, script_bytes(s, nm));
    if (prop == "C14" && (k == 0 || r.chance(.5))) {
      long nb = script_bytes(s, nm);
      if (cfg == "io")
        Files::gen_io_fault(r, s, nm, nb, 5);
      else if (r.chance(.35)) { /* damage of the header */
        for (int i = r.range(1, 2); i > 0; i--)
          switch (r.below(5)) {
          case 0:
            s.add("dropline %s %d", nm, r.below(32));
            break;
          case 1:
            s.add("flip %s %d %d", nm, r.below(1400), r.chance(.5) ? 1 << r.below(8) : r.range(1, 255));
            break;
          case 2:
            s.add("fill %s %d %d %d", nm, r.below(1400), r.range(1, 60), (int)"x 9:\0\n-1"[r.below(8)]);
            break;
          case 3:
            s.add("trunc %s %d", nm, r.below(1500));
            break;
          case 4:
            s.add("swapline %s %d", nm, r.below(32));
            break;
          }
      } else
        Files::gen_damage(r, s, nm, nb);
    }
  }
  /* tide products, opened and copied only */
  const int nt = prop == "C13" && r.chance(.3) ? 2 : 0;
  for (int k = 0; k < nt; k++) {
    char nm[16];
    snprintf(nm, sizeof nm, "aod%d", 2 + k);
    gen_tidal(r, s, nm, r.range(1, 3), WAVES[r.below(NW)].name, r.chance(.5));
    Files::gen_delivery(r, s, nm, script_bytes(s, nm));
  }
  s.add("aod 0 0");
  if (nf > 1)
    s.add("aod 1 1");
  for (int i = r.range(4, 24); i > 0; i--) {
    int j = r.below(3), k = r.below(nf);
    if (nt && r.chance(.25)) {
      if (r.chance(.4))
        s.add("aod %d %d", j, 2 + r.below(2));
      else
        s.add("acopy %d %d %d", j, r.below(3), r.below(4));
      continue;
    }
    const Gen &g = G[(size_t)k];
    switch (r.below(14)) {
    case 0:
      s.add("aod %d %d", k, k);
      break;
    case 1:
      s.add("acopy %d %d %d", r.below(3), k, r.below(4));
      break;
    case 2:
    case 3:
      s.add("it %d %d %d", j, k, r.below(4));
      s.add("begin %d", j);
      break;
    case 4:
      s.add("begin %d", j);
      break;
    case 5:
    case 6:
      s.add("skip %d", j);
      if (r.chance(.9))
        s.add("advance %d", j);
      break;
    default: {
      int n = r.chance(.4) ? -1 : r.range(0, g.nmax + r.chance(.05));
      int m = n < 0 || r.chance(.3) ? -1 : r.range(0, n + r.chance(.05));
      s.add("collect %d %d %d %d %d", j, r.below(2), n, m, r.chance(.4));
      if (r.chance(.85))
        s.add("advance %d", j);
    }
    }
  }
}
static void gen_at(Rng &r, Script &s, int j, const std::vector<Gen> &G) {
  const Gen &g = G[(size_t)r.below((int)G.size())];
  long e = r.below(g.epochs), ns = 0;
  long sec = 0;
  switch (r.below(6)) {
  case 0:
    break;
  case 1:
    ns = r.chance(.5) ? -1 : 1;
    break;
  case 2:
    sec = r.range(-20000, 20000);
    ns = r.below(1000000000);
    break;
  default:
    sec = r.below(g.step * 3600);
    ns = r.chance(.5) ? 0 : r.below(1000000000);
  }
  Dt t = g.at((int)e).add_seconds(dso::nanoseconds(sec * 1000000000L + ns));
  s.add("at %d %d %ld %ld", j, r.below(3), (long)t.imjd().as_underlying_type(), (long)t.sec().as_underlying_type());
}
static void gen_stream(Rng &r, const std::string &prop, Script &s) {
  const bool multi = prop == "C16";
  const int nf = multi ? r.range(2, 4) : 1;
  std::string dir = ".";
  if (multi) {
    if (r.chance(.5))
      dir = "d";
    else if (r.chance(.4))
      dir = std::string(120, 'p') + "/" + std::string(120, 'q');
    else if (r.chance(.7)) { /* directories named after what they hold, with dots and underscores */
      static const char *D[] = {"AOD1B_RL06", "GRACE/AOD1B_2008-07-03_X_06", "aod1b.d/RL_05", "2008.07/X_06.asc", "AOD1B"};
      dir = D[r.below(5)];
    }
    if (dir != ".")
      s.add("mkdir %s", dir.c_str());
  }
  const std::string pre = dir == "." ? "" : dir + "/";
  std::vector<Gen> G;
  Gen g0 = gen_params(r, 4, 8);
  if (multi) {
    g0.step = g0.step == 1 ? 3 : g0.step;
    g0.epochs = 24 / g0.step;
    g0.nmax = std::min(g0.nmax, 4);
    if (r.chance(.1)) /* an incomplete first day */
      g0.epochs = r.range(4, g0.epochs);
  } else if (r.chance(.1))
    g0.epochs = r.range(1, 3);
  const bool span = multi && r.chance(.15); /* products that begin late and end on the next day */
  if (span) {
    g0.hour0 = g0.step * r.range(1, 24 / g0.step - 1);
    g0.epochs = 24 / g0.step;
  }
  for (int k = 0; k < nf; k++) {
    Gen g = g0;
    g.mjd += span ? 2 * k : k;
    if (k)
      g.epochs = 24 / g.step;
    G.push_back(g);
    const std::string nm = pre + day_name(g.mjd, g.rl);
    gen_product(r, s, nm, g, r.chance(.9) ? 0 : 1, false);
    Files::gen_delivery(r, s, nm, script_bytes(s, nm));
    if (multi && k && r.chance(.35)) {
      if (r.chance(.4))
        s.add("missing %s", nm.c_str());
      else
        Files::gen_io_fault(r, s, nm, script_bytes(s, nm), 3);
    }
  }
  const int ty = g0.types[(size_t)r.below((int)g0.types.size())];
  s.add("stream 0 %s %s %d", (pre + day_name(g0.mjd, g0.rl)).c_str(), multi ? dir.c_str() : r.chance(.3) ? "." : "-", ty);
  s.add("init 0");
  const bool assigned = r.chance(.15);
  if (assigned) { /* a stream (without directory) is replaced by another one */
    s.add("stream 1 %s - %d", (pre + day_name(G[(size_t)r.below(nf)].mjd, g0.rl)).c_str(), ty);
    if (r.chance(.7))
      s.add("init 1");
    s.add("sassign 1 0");
  }
  for (int i = r.range(4, multi ? 30 : 24); i > 0; i--) {
    int j = r.chance(.8) ? assigned : r.below(2);
    switch (r.below(16)) {
    case 0:
      s.add("smove %d %d", r.below(2), r.below(2));
      break;
    case 1:
      s.add("sassign %d %d", r.below(2), r.below(2));
      break;
    case 2:
      if (!multi)
        s.add("init %d", j);
      break;
    case 3:
      if (r.chance(.3)) {
        s.add("stream 1 %s %s %d", (pre + day_name(g0.mjd, g0.rl)).c_str(), multi && r.chance(.6) ? dir.c_str() : "-", g0.types[(size_t)r.below((int)g0.types.size())]);
        s.add("init 1");
      }
      break;
    case 4:
    case 5:
    case 6: { /* a forward sweep */
      const Gen &g = G[(size_t)r.below(nf)];
      long mjd = g.mjd, sec = g.hour0 * 3600L + r.below(g.step * 3600), dt = r.range(600, g.step * 7000);
      for (int q = r.range(3, 12); q > 0; q--) {
        Dt t = Dt(dso::modified_julian_day((int)mjd), dso::nanoseconds(0)).add_seconds(dso::nanoseconds(sec * 1000000000L + 51184000000L));
        s.add("at %d %d %ld %ld", j, r.below(3), (long)t.imjd().as_underlying_type(), (long)t.sec().as_underlying_type());
        sec += dt;
      }
      break;
    }
    default:
      gen_at(r, s, j, G);
    }
  }
}
void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  if (prop == "C13" || prop == "C14")
    gen_files(r, prop, cfg, s);
  else
    gen_stream(r, prop, s);
}

/* ---- execution ---------------------------------------------------------------- */
struct Slot {
  std::unique_ptr<Aod1bIn> a;
  Hdr h;
  std::string file;
  bool judged = false;
};
static void check_head(const Slot &x) {
  const Aod1bIn &a = *x.a;
  const Hdr &h = x.h;
  const char *n = x.file.c_str();
  if (h.clash)
    return;
  auto str = [&](const char *what, const char *got, const std::string &w) {
    if (w != got)
      fail("header-value", "%s: %s is \"%s\", file says \"%s\"", n, what, got, w.c_str());
  };
  str("agency", a.agency(), h.agency);
  str("satellite", a.satellite(), h.sat);
  str("sensor", a.sensor(), h.sensor);
  str("process level", a.process_level(), h.level);
  str("pressure type", a.pressure_type(), h.pressure);
  auto i = [&](const char *what, long got, long w) {
    if (got != w)
      fail("header-value", "%s: %s is %ld, file says %ld", n, what, got, w);
  };
  i("file type", a.file_type(), h.type);
  i("file format", a.file_format(), h.format);
  i("header records", a.num_header_records(), h.hrec);
  i("data records", a.num_data_records(), h.drec);
  i("degree", a.max_degree(), h.nmax);
  i("data sets", a.num_data_sets(), h.sets);
  i("errors flag", a.coeff_errors(), h.errors);
  i("normalised flag", a.coeff_normalized(), h.norm);
  auto d = [&](const char *what, double got, double w) {
    if (got != w)
      fail("header-value", "%s: %s is %.17g, file says %.17g", n, what, got, w);
  };
  d("GM", a.GM(), h.gm);
  d("radius", a.Re(), h.re);
  d("flattening", a.flat(), h.flat);
  d("rotation rate", a.omega(), h.omega);
  if (h.hwave) {
    const WaveId *w = find_wave(h.wave);
    const dso::TidalWave g = a.tidal_wave();
    if (w && (g.period() != w->deg || g.doodson().pifactor() != w->pif || strcmp(g.name(), w->name)))
      fail("header-value", "%s: wave %.20s, speed %.10g, phase factor %g; the file names %s", n, g.name(), g.period(), g.doodson().pifactor(), w->name);
    for (int k = 0; w && k < 6; k++)
      if (g.doodson()(k) != w->n[k])
        fail("header-value", "%s: wave %s: multiplier %d is %d, not %d", n, w->name, k, g.doodson()(k), w->n[k]);
    probe("tide product");
  }
  if (h.hepoch && a.time_epoch() != h.epoch)
    fail("header-value", "%s: time epoch differs", n);
  if (h.hfirst && a.first_epoch() != h.first)
    fail("header-value", "%s: first epoch differs", n);
  if (h.hlast && a.last_epoch() != h.last)
    fail("header-value", "%s: last epoch differs", n);
}

struct Ctx {
  Files fs;
  std::vector<std::string> ops;
};

static void exec_files(Ctx &x) {
  Slot sl[3];
  struct Cur {
    std::unique_ptr<It> it;
    int slot = -1, type = 0, opens0 = 0;
    bool judged = false, ready = false; /* ready: at a block not consumed yet */
    bool after = false;                 /* block consumed, advance is legal */
    Reader rd;
    Block b;
    bool eio = false;
    bool soft = false; /* text may end differently from the file's own end */
  } cur[3];
  std::unique_ptr<StokesCoeffs> co[2];
  for (auto &l : x.ops) {
    Tok t(l);
    const int j = (int)t.i(1);
    if (t.is("aod")) {
      if (j < 0 || j > 2)
        continue;
      for (auto &c : cur)
        if (c.slot == j)
          c.it.reset(), c.slot = -1;
      Slot &z = sl[j];
      z.a.reset();
      char nm[24];
      snprintf(nm, sizeof nm, "aod%ld", t.i(2));
      z.file = nm;
      const int o = (int)Disk::opens(nm);
      const long f0 = Disk::fired(nm);
      bool threw = false;
      try {
        Lib lib;
        z.a = std::make_unique<Aod1bIn>(nm);
      } catch (std::exception &) {
        threw = true;
      }
      opcount("open");
      evals();
      auto v = x.fs.view(nm, o + 1);
      z.h = v.exists ? ref_header(v.text) : Hdr();
      const bool bad = !v.exists || z.h.bad;
      trace("open %s -> %s", nm, threw ? "refused" : "ok");
      z.judged = !z.h.vague && !bad;
      if (x.fs.recount(nm, o, 1)) {
        z.judged = false;
        continue;
      }
      if (bad && !z.h.vague && !threw)
        fail("error-as-success", "%s: opened, but %s", nm, v.exists ? z.h.why.c_str() : "it cannot be opened");
      if (threw) {
        if (!bad && !z.h.vague && Disk::fired(nm) == f0 && !x.fs.damaged[nm])
          fail("good-file-rejected", "%s: a well-formed header is rejected", nm);
        probe("header rejected");
        nontrivial();
        continue;
      }
      if (z.judged)
        check_head(z);
      nontrivial();
    } else if (t.is("acopy")) { /* dst src how */
      const int q = (int)t.i(2);
      if (j < 0 || j > 2 || q < 0 || q > 2 || !sl[q].a || j == q)
        continue;
      for (auto &c : cur)
        if (c.slot == j || c.slot == q)
          c.it.reset(), c.slot = -1;
      Slot &d = sl[j], &z = sl[q];
      {
        Lib lib;
        switch (t.i(3)) {
        case 0:
          d.a = std::make_unique<Aod1bIn>(*z.a);
          break;
        case 1:
          d.a = std::make_unique<Aod1bIn>(std::move(*z.a));
          break;
        case 2:
          if (d.a)
            *d.a = *z.a;
          else
            d.a = std::make_unique<Aod1bIn>(*z.a);
          break;
        default:
          if (d.a)
            *d.a = std::move(*z.a);
          else
            d.a = std::make_unique<Aod1bIn>(std::move(*z.a));
        }
      }
      opcount("copy");
      d.h = z.h;
      d.file = z.file;
      d.judged = z.judged;
      if (t.i(3) & 1)
        z.a.reset();
      if (d.judged)
        check_head(d);
      if (d.a->fn() != d.file)
        fail("header-value", "copy of %s names %s", d.file.c_str(), d.a->fn().c_str());
      evals();
    } else if (t.is("it")) {
      const int q = (int)t.i(2);
      if (j < 0 || j > 2 || q < 0 || q > 2 || !sl[q].a || sl[q].h.hwave)
        continue;
      Cur &c = cur[j];
      const int o = (int)Disk::opens(sl[q].file);
      c.it.reset();
      {
        Lib lib;
        c.it = mk_it((int)t.i(3) & 3, *sl[q].a);
      }
      c.slot = q;
      c.type = (int)t.i(3) & 3;
      c.ready = c.after = false;
      auto v = x.fs.view(sl[q].file, o + 1);
      c.rd.bind(v.exists ? v.text : "");
      c.eio = !v.exists || v.eio;
      c.opens0 = o;
      c.judged = sl[q].judged && !x.fs.recount(sl[q].file, o, 1);
    } else if (t.is("begin") || t.is("advance")) {
      if (j < 0 || j > 2 || !cur[j].it)
        continue;
      Cur &c = cur[j];
      const bool beg = t.is("begin");
      if (!beg && !c.after)
        continue;
      const long f0 = Disk::fired(sl[c.slot].file);
      int st = 0;
      try {
        Lib lib;
        if (beg)
          c.it->begin();
        else
          st = c.it->advance();
      } catch (std::exception &) {
        st = 1;
      }
      opcount(beg ? "begin" : "advance");
      evals();
      const std::string &fn = sl[c.slot].file;
      R r = VAGUE;
      if (beg) {
        c.judged = sl[c.slot].judged && !x.fs.recount(fn, c.opens0, 1);
        /* only the END OF HEADER line matters here */
        size_t e = 0;
        bool found = false;
        for (size_t k = 0; k < c.rd.L.size() && k < 99; k++)
          if (starts(c.rd.L[k], "END OF HEADER")) {
            e = k + 1;
            found = true;
            break;
          }
        c.rd.pos = e;
        if (!found)
          r = BAD;
        else
          r = c.rd.next(c.type, c.b, sl[c.slot].h.sets);
      } else if (c.judged)
        r = c.rd.next(c.type, c.b, sl[c.slot].h.sets);
      trace("%s %s type %d -> %d", beg ? "begin" : "advance", fn.c_str(), c.type, st);
      c.ready = c.after = false;
      if (!c.judged) {
        c.ready = st == 0;
        continue;
      }
      const bool fired = Disk::fired(fn) > f0 || c.eio;
      if (st == 0) {
        if (r == BAD || r == END)
          fail("error-as-success", "%s: %s reports a block of type %d, the file has none (readable) there", fn.c_str(), beg ? "begin" : "advance", c.type);
        c.ready = true;
        if (r == VAGUE) {
          c.judged = false;
          continue;
        }
        const auto &h = c.it->head();
        if (h.mset_nr != c.b.set || h.mnum_lines != c.b.lines || h.mepoch != c.b.epoch || h.mtype != TT[c.b.type] || c.it->eof())
          fail("block-header", "%s: block %d with %d lines type %d, file says %ld %ld %d (or epochs differ)", fn.c_str(), h.mset_nr, h.mnum_lines,
               (int)h.mtype, c.b.set, c.b.lines, c.b.type);
        probe("block found");
      } else {
        if (r == OK && !fired && !x.fs.damaged[fn])
          fail("good-block-rejected", "%s: %s -> %d, but there is a well-formed block of type %d", fn.c_str(), beg ? "begin" : "advance", st, c.type);
        if (!beg && r == END && !fired && !x.fs.damaged[fn] && (st != -1 || !c.it->eof()))
          fail("end-not-reported", "%s: the end of the data is reported as %d (eof flag %d)", fn.c_str(), st, (int)c.it->eof());
        if (r == END)
          probe("end of data");
        c.judged = false;
      }
      nontrivial();
    } else if (t.is("skip")) {
      if (j < 0 || j > 2 || !cur[j].it || !cur[j].ready)
        continue;
      Cur &c = cur[j];
      {
        Lib lib;
        c.it->skip();
      }
      opcount("skip");
      c.ready = false;
      c.after = true;
      if (c.judged) {
        R r = c.rd.skip(c.b.lines);
        if (r == BAD)
          c.judged = false;
      }
    } else if (t.is("collect")) { /* it cs n m resize */
      if (j < 0 || j > 2 || !cur[j].it || !cur[j].ready)
        continue;
      Cur &c = cur[j];
      const Slot &z = sl[c.slot];
      if (z.a->max_degree() > 1500 || z.a->max_degree() < 0)
        continue;
      const int ci = (int)t.i(2) & 1;
      int n = (int)t.i(3), m = (int)t.i(4);
      const int rs = (int)t.i(5);
      if (!co[ci]) {
        Lib lib;
        co[ci] = std::make_unique<StokesCoeffs>(ci ? 3 : 8, ci ? 3 : 8);
      }
      StokesCoeffs &cs = *co[ci];
      const int N0 = cs.max_degree(), M0 = cs.max_order();
      const long f0 = Disk::fired(z.file);
      int st;
      {
        Lib lib;
        st = c.it->collect(cs, n, m, rs);
      }
      opcount("collect");
      evals();
      trace("collect %s (%d,%d) resize %d -> %d", z.file.c_str(), n, m, rs, st);
      if (n < 0)
        n = z.a->max_degree();
      if (m < 0)
        m = z.a->max_degree();
      const bool args = m > n || n > z.a->max_degree() || (!rs && (N0 < n || M0 < m));
      if (args) {
        if (!st)
          fail("error-as-success", "%s: collecting (%d,%d) into (%d,%d) is not possible but reported as done", z.file.c_str(), n, m, N0, M0);
        probe("inadmissible request");
        continue; /* nothing consumed */
      }
      c.ready = false;
      c.after = true;
      std::map<std::pair<int, int>, Coef> want;
      int cn = 0, cm = 0;
      std::string why;
      R r = c.judged ? c.rd.collect(c.b.lines, n, m, want, cn, cm, why) : VAGUE;
      if (r == OK && !rs && (cn != n || cm != m)) {
        r = BAD;
        why = "the block has no such degree/order";
      }
      if (st) {
        if (r == OK && Disk::fired(z.file) == f0 && !c.eio && !x.fs.damaged[z.file])
          fail("good-block-rejected", "%s: collecting (%d,%d) of a well-formed block fails", z.file.c_str(), n, m);
        c.judged = false;
        c.after = false;
        probe("collect reported an error");
        nontrivial();
        continue;
      }
      if (r == BAD)
        fail("error-as-success", "%s: collect reports success, but %s", z.file.c_str(), why.c_str());
      if (r != OK) {
        c.judged = false;
        continue;
      }
      const int wn = rs ? cn : N0, wm = rs ? cm : M0;
      if (cs.max_degree() != wn || cs.max_order() != wm)
        fail("coeff-shape", "%s: coefficients are (%d,%d), expected (%d,%d)", z.file.c_str(), cs.max_degree(), cs.max_order(), wn, wm);
      for (int a = 0; a <= cs.max_degree(); a++)
        for (int b = 0; b <= std::min(a, cs.max_order()); b++) {
          auto w = want.find({a, b});
          const double wc = w == want.end() ? 0 : w->second.c, ws = w == want.end() ? 0 : w->second.s;
          if (!(cs.C(a, b) == wc) || !(cs.S(a, b) == ws))
            fail("coeff-value", "%s block %ld (%d,%d): got %.17g %.17g, file says %.17g %.17g", z.file.c_str(), c.b.set, a, b, cs.C(a, b), cs.S(a, b), wc, ws);
        }
      probe("block collected");
      nontrivial();
      state(fnvs(std::to_string(c.type) + "/" + std::to_string(c.b.set) + "/" + std::to_string(n) + "/" + std::to_string(m) + "/" + std::to_string(rs) + "/" + std::to_string(wn)));
    }
  }
  for (auto &c : cur)
    c.it.reset();
  for (auto &z : sl)
    z.a.reset();
  co[0].reset();
  co[1].reset();
}

struct Ep {
  Dt t;
  std::map<std::pair<int, int>, Coef> c;
};
/* all blocks of one type of a well-formed file */
static std::vector<Ep> blocks(const std::string &text, int type) {
  std::vector<Ep> v;
  Hdr h = ref_header(text);
  Reader rd;
  rd.bind(text);
  rd.pos = h.data;
  Block b;
  while (rd.next(type, b, h.sets + 1) == OK) {
    Ep e;
    e.t = b.epoch;
    int cn, cm;
    std::string why;
    if (rd.collect(b.lines, (int)h.nmax, (int)h.nmax, e.c, cn, cm, why) != OK || cn != h.nmax || cm != h.nmax)
      break; /* a block must reach the product's degree and order */
    v.push_back(e);
  }
  return v;
}
static LD secs(const Dt &a, const Dt &b) {
  return ((LD)a.imjd().as_underlying_type() - b.imjd().as_underlying_type()) * 86400.0L +
         ((LD)a.sec().as_underlying_type() - (LD)b.sec().as_underlying_type()) / 1e9L;
}
static void exec_stream(Ctx &x, const std::string &prop) {
  struct S {
    std::unique_ptr<St> s;
    int type = 0;
    bool dir = false, ok = false, tainted = false;
    std::string first;
  } st[2];
  std::unique_ptr<StokesCoeffs> co[3];
  std::map<std::pair<std::string, int>, std::vector<Ep>> cache;
  auto eps = [&](const std::string &f, int type) -> const std::vector<Ep> & {
    auto k = std::make_pair(f, type);
    if (!cache.count(k))
      cache[k] = x.fs.missing[f] || !x.fs.data.count(f) ? std::vector<Ep>() : blocks(x.fs.data[f], type);
    return cache[k];
  };
  auto nrm = [](std::string f) {
    while (starts(f, "./"))
      f = f.substr(2);
    return f;
  };
  for (auto &l : x.ops) {
    Tok t(l);
    const int j = (int)t.i(1);
    if (t.is("mkdir")) {
      continue;
    }
    if (j < 0 || j > 1)
      continue;
    S &z = st[j];
    if (t.is("stream")) {
      z.s.reset();
      z.type = (int)t.i(4) & 3;
      z.dir = t.s(3) != "-";
      z.first = t.s(2);
      z.ok = z.tainted = false;
      bool threw = false;
      const std::string f = t.s(2), d = t.s(3);
      try {
        Lib lib;
        z.s = mk_st(z.type, f.c_str(), z.dir ? d.c_str() : nullptr);
      } catch (std::exception &) {
        threw = true;
      }
      opcount("stream");
      if (threw && !x.fs.faulty(nrm(f)))
        fail("good-file-rejected", "a stream on %s cannot be made", f.c_str());
    } else if (t.is("init")) {
      if (!z.s)
        continue;
      const std::string f = nrm(z.s->fn());
      const long f0 = Disk::fired();
      int rc;
      {
        Lib lib;
        rc = z.s->init();
      }
      opcount("init");
      evals();
      const size_t nb = eps(f, z.type).size();
      trace("init %s -> %d", f.c_str(), rc);
      if (rc && nb >= 4 && Disk::fired() == f0)
        fail("good-file-rejected", "%s: initialising the stream fails (%zu blocks)", f.c_str(), nb);
      if (!rc && nb == 0)
        fail("error-as-success", "%s: the stream initialises without a block of its type", f.c_str());
      z.ok = rc == 0;
      z.tainted = false;
    } else if (t.is("smove")) {
      const int q = (int)t.i(2);
      if (q < 0 || q > 1 || q == j || !st[q].s)
        continue;
      {
        std::unique_ptr<St> n;
        {
          Lib lib;
          n = st[q].s->moved();
        }
        st[q].s.reset(); /* the moved-from stream goes away */
        z = S();
        z.s = std::move(n);
      }
      z.type = st[q].type;
      z.dir = st[q].dir;
      z.ok = st[q].ok;
      z.tainted = st[q].tainted;
      z.first = st[q].first;
      opcount("move");
      probe("stream moved");
    } else if (t.is("sassign")) {
      const int q = (int)t.i(2);
      if (q < 0 || q > 1 || q == j || !st[q].s || !z.s || z.type != st[q].type)
        continue;
      {
        Lib lib;
        z.s->assign(*st[q].s);
      }
      st[q].s.reset();
      z.dir = st[q].dir;
      z.ok = st[q].ok;
      z.tainted = st[q].tainted;
      z.first = st[q].first;
      opcount("move-assign");
      probe("stream moved");
    } else if (t.is("at")) { /* stream cs mjd ns */
      if (!z.s || !z.ok)
        continue;
      const int ci = (int)t.i(2) % 3;
      const Dt ep(dso::modified_julian_day((int)t.i(3)), dso::nanoseconds(t.i(4)));
      const std::string f0 = nrm(z.s->fn());
      Hdr h0 = ref_header(x.fs.data[f0]);
      co[ci].reset();
      {
        Lib lib;
        co[ci] = std::make_unique<StokesCoeffs>((int)(ci == 0 ? h0.nmax : ci == 1 ? h0.nmax / 2 : h0.nmax + 1), (int)(ci == 0 ? h0.nmax : ci == 1 ? h0.nmax / 3 : h0.nmax));
      }
      StokesCoeffs &cs = *co[ci];
      const long fired0 = Disk::fired();
      int rc;
      {
        Lib lib;
        rc = z.s->at(ep, cs);
      }
      opcount("at");
      evals();
      const std::string f1 = nrm(z.s->fn());
      trace("at %ld+%ld in %s -> %d (now %s)", t.i(3), t.i(4), f0.c_str(), rc, f1.c_str());
      /* the series: files in day order up to the first unusable one matter only
       * for what must succeed; any success must be right */
      std::vector<Ep> all;
      std::vector<std::string> names;
      for (auto &kv : x.fs.data)
        names.push_back(kv.first);
      std::sort(names.begin(), names.end());
      for (auto &n : names) {
        const auto &e = eps(n, z.type);
        all.insert(all.end(), e.begin(), e.end());
      }
      const auto &here = eps(f0, z.type);
      auto nx = std::upper_bound(names.begin(), names.end(), f0);
      const std::vector<Ep> none;
      const bool hasnext = nx != names.end() && z.dir;
      const auto &next = hasnext ? eps(*nx, z.type) : none;
      const bool inhere = !here.empty() && ep >= here.front().t && ep < here.back().t;
      const bool innext = hasnext && !next.empty() && !here.empty() && next.front().t.imjd().as_underlying_type() == here.back().t.imjd().as_underlying_type() + 1 && ep >= here.back().t && ep < next.back().t;
      if (Disk::fired() != fired0)
        z.tainted = true; /* the stream may need a new init() to read on */
      if (rc) {
        probe("request refused");
        if (z.tainted && x.fs.faulty(f0))
          ;
        else if (Disk::fired() == fired0 && ci != 2) {
          if (inhere)
            fail("good-epoch-refused", "%s holds blocks around %ld+%ld, the request fails", f0.c_str(), t.i(3), t.i(4));
          if (innext && !x.fs.faulty(*nx) && !x.fs.faulty(f0))
            fail("good-epoch-refused", "%s continues %s around %ld+%ld, the request fails", nx->c_str(), f0.c_str(), t.i(3), t.i(4));
        } else if (inhere && ci != 2 && !x.fs.faulty(f0))
          fail("good-epoch-refused", "%s holds blocks around %ld+%ld, the request fails after a fault elsewhere", f0.c_str(), t.i(3), t.i(4));
        nontrivial();
        continue;
      }
      if (f1 != f0)
        probe("next file fed");
      if (ci == 2)
        probe("larger target accepted");
      /* a file may have ended early when it was read (a cut between blocks goes
       * unseen): any combination of whole and cut files may have been met */
      std::vector<std::string> cutable;
      for (auto &n : names)
        if (!x.fs.eof[n].empty() && Disk::fired() > 0)
          cutable.push_back(n);
      size_t k = 0;
      LD w = 0;
      std::string cls, msg;
      for (unsigned pass = 0; pass < (1u << std::min<size_t>(cutable.size(), 4)); pass++) {
        cls.clear();
        if (pass) {
          all.clear();
          for (auto &n : names) {
            const size_t q = (size_t)(std::find(cutable.begin(), cutable.end(), n) - cutable.begin());
            if (q < 4 && q < cutable.size() && (pass >> q & 1)) {
              std::string cut = x.fs.data[n];
              for (auto &c : x.fs.eof[n])
                cut = cut.substr(0, std::min<size_t>(cut.size(), (size_t)std::max<long>(0, c.off)));
              auto e = blocks(cut, z.type);
              all.insert(all.end(), e.begin(), e.end());
            } else {
              const auto &e = eps(n, z.type);
              all.insert(all.end(), e.begin(), e.end());
            }
          }
        }
        k = 0;
        while (k + 1 < all.size() && !(ep >= all[k].t && ep < all[k + 1].t))
          k++;
        const bool atlast = !all.empty() && ep == all.back().t;
        if (k + 1 >= all.size() && !atlast) {
          cls = "outside-as-success";
          msg = strf("%s: no blocks around %ld+%ld, the request succeeds", f0.c_str(), t.i(3), t.i(4));
          continue;
        }
        const Ep &a = atlast ? all.back() : all[k], &b = atlast ? all.back() : all[k + 1];
        const LD T = secs(b.t, a.t);
        w = T > 0 ? secs(ep, a.t) / T : 0;
        for (int n = 0; n <= cs.max_degree() && cls.empty(); n++)
          for (int m = 0; m <= std::min(n, cs.max_order()) && cls.empty(); m++) {
            auto pa = a.c.find({n, m}), pb = b.c.find({n, m});
            const Coef ca = pa == a.c.end() ? Coef{0, 0} : pa->second, cb = pb == b.c.end() ? Coef{0, 0} : pb->second;
            const LD wc = (1 - w) * ca.c + w * cb.c, ws = (1 - w) * ca.s + w * cb.s;
            const LD tc = 1e-13L * (fabsl(ca.c) + fabsl(cb.c)), ts = 1e-13L * (fabsl(ca.s) + fabsl(cb.s));
            if (!(fabsl(cs.C(n, m) - wc) <= tc) || !(fabsl(cs.S(n, m) - ws) <= ts)) {
              cls = "interpolation";
              msg = strf("%s at %ld+%ld (%d,%d): got %.12g %.12g, blocks give %.12Lg %.12Lg", f0.c_str(), t.i(3), t.i(4), n, m, cs.C(n, m), cs.S(n, m), wc, ws);
            }
          }
        if (cls.empty())
          break;
      }
      if (!cls.empty())
        fail(cls.c_str(), "%s", msg.c_str());
      probe(w == 0 ? "on a block epoch" : "between blocks");
      nontrivial();
      state(fnvs(std::to_string(k) + "/" + std::to_string(all.size()) + "/" + f1 + std::to_string((int)(w * 8))));
    }
  }
  for (auto &z : st)
    z.s.reset();
  for (auto &c : co)
    c.reset();
}
void world::execute(const Script &s, const std::string &prop) {
  Ctx x;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("mkdir")) {
      std::string p = t.s(1);
      for (size_t q = p.find('/'); q != std::string::npos; q = p.find('/', q + 1))
        Disk::mkdir(p.substr(0, q));
      Disk::mkdir(p);
    } else if (!x.fs.feed(l))
      x.ops.push_back(l);
  }
  x.fs.materialise();
  if (prop == "C13" || prop == "C14")
    exec_files(x);
  else
    exec_stream(x, prop);
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  check_leaks("at the end");
}
