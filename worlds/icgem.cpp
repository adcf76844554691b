/* World "icgem": gravity field files on the simulated disk.
 *   C08  well-formed files of both format versions, any delivery, reused objects
 *   C09  the same with I/O faults ("io") and damage ("dmg")
 * Oracle: independent parser/evaluator in long double over the text the medium
 * serves at each open.
 */
#include "sim.hpp"
#include "files.hpp"
#include "icgem_ref.hpp"
#include "icgemio.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <set>
using namespace sim;
const char *const world::name = "icgem";
using dso::Icgem;

using namespace icref;
/* ---- generation ------------------------------------------------------------- */
static std::string fnum(Rng &r, double v, bool v1, bool fortran) {
  char b[64];
  snprintf(b, sizeof b, r.chance(.2) ? "%.6e" : "%.14e", v);
  std::string s = b;
  if (r.chance(.1) && (starts(s, "0.") || starts(s, "-0."))) /* bare leading point */
    s.erase(s.find('0'), 1);
  if (v1 && fortran)
    s[s.find('e')] = r.chance(.8) ? 'D' : 'd';
  else if (r.chance(.3))
    s[s.find('e')] = 'E';
  if (v1 && v >= 0 && r.chance(.1))
    s = "+" + s;
  return s;
}
static std::string sp(Rng &r) { return std::string((size_t)r.range(1, r.chance(.2) ? 9 : 3), ' '); }
struct Info {
  int nmax, mmax;
  int version;
  std::vector<std::pair<long, long>> dates; /* mjd, seconds: interesting epochs */
};
static std::string dstr(long mjd, int hh, int mm, bool v1) {
  auto y = dso::modified_julian_day((int)mjd).to_ymd();
  char b[40];
  if (v1)
    snprintf(b, sizeof b, "%04d%02d%02d", y.yr().as_underlying_type(), y.mn().as_underlying_type(), y.dm().as_underlying_type());
  else
    snprintf(b, sizeof b, "%04d%02d%02d.%02d%02d", y.yr().as_underlying_type(), y.mn().as_underlying_type(),
             y.dm().as_underlying_type(), hh, mm);
  return b;
}
static Info gen_model(Rng &r, Script &s, const char *name, int maxdeg) {
  Info I;
  I.version = r.range(1, 2);
  const bool v1 = I.version == 1;
  I.nmax = r.chance(.1) ? r.range(0, 2) : r.range(2, maxdeg);
  I.mmax = r.chance(.3) ? r.range(0, I.nmax) : I.nmax;
  const int err = r.below(4);
  const int ec = err == 0 ? 0 : err == 3 ? 4 : 2;
  static const char *EN[] = {"no", "calibrated", "formal", "calibrated_and_formal"};
  s.add("f %s", name);
  auto put = [&](const std::string &l) { s.add("l %s", esc(l).c_str()); };
  static const char *PRE[] = {"", "  generated gravity field", "=====================", "this model was computed from simulated data",
                              "url   http://icgem.gfz-potsdam.de/x", "  doi 10.5880/icgem"};
  for (int k = r.below(4); k > 0; k--)
    put(PRE[r.below(6)]);
  if (r.chance(.7))
    put("begin_of_head ==================================================");
  std::vector<std::string> H;
  auto kv = [&](const char *k, const std::string &v) {
    H.push_back(std::string((size_t)r.below(6), ' ') + k + sp(r) + v + std::string((size_t)(r.chance(.3) ? r.below(5) : 0), ' '));
  };
  auto longer = [&](const char *v, int cap) { /* near the reader's limit */
    return r.chance(.06) ? std::string((size_t)r.range(cap - 2, cap + 2), (char)('a' + r.below(26))) : std::string(v);
  };
  kv("product_type", longer("gravity_field", 64));
  {
    std::string mn = "MODEL-" + std::to_string(r.below(1000));
    if (r.chance(.2))
      mn += " with blanks " + std::string((size_t)r.range(0, 80), 'x');
    kv("modelname", longer(mn.c_str(), 128));
  }
  char b[200];
  snprintf(b, sizeof b, r.chance(.5) ? "%.10E" : "%.4f", r.uni(3.9e14, 4e14));
  kv("earth_gravity_constant", b);
  snprintf(b, sizeof b, r.chance(.5) ? "%.10e" : "%.2f", r.uni(6.37e6, 6.38e6));
  kv("radius", b);
  kv("max_degree", std::to_string(I.nmax));
  kv("errors", EN[err]);
  if (r.chance(.6)) {
    static const char *T[] = {"zero_tide", "tide_free", "mean_tide", "unknown"};
    kv("tide_system", longer(T[r.below(4)], 64));
  }
  if (r.chance(.6))
    kv("norm", r.chance(.7) ? "fully_normalized" : "unnormalized");
  if (!v1 || r.chance(.5))
    kv("format", v1 ? "icgem1.0" : "icgem2.0");
  if (r.chance(.3))
    kv("comment", "nothing to see");
  for (size_t i = H.size(); i > 1; i--)
    if (r.chance(.5))
      std::swap(H[i - 1], H[(size_t)r.below((int)i)]);
  for (auto &l : H)
    put(l);
  if (r.chance(.5))
    put("key    L    M         C                  S          sigma C    sigma S");
  put("end_of_head ===================================================");
  const bool fortran = v1 && r.chance(.3);
  const long base = r.range(48000, 56000);
  std::vector<std::string> body;
  for (int n = 0; n <= I.nmax; n++)
    for (int m = 0; m <= std::min(n, I.mmax); m++) {
      if (r.chance(.12))
        continue; /* the file lacks it */
      double sc = n ? 1e-6 / ((double)n * n) : 1;
      auto head = [&](const char *k, double f) {
        std::string l = std::string(k) + sp(r) + std::to_string(n) + sp(r) + std::to_string(m) + sp(r) +
                        fnum(r, r.uni(-1, 1) * sc * f, v1, fortran) + sp(r) +
                        (m == 0 ? std::string(r.chance(.5) ? "0.0" : "0.000000000000e+00") : fnum(r, r.uni(-1, 1) * sc * f, v1, fortran));
        for (int e = 0; e < ec; e++)
          l += sp(r) + fnum(r, r.uni(0, 1) * sc * 1e-3, v1, fortran);
        return l;
      };
      std::string grp;
      auto add = [&](const std::string &l) { body.push_back(l); };
      const bool tv = r.chance(n > 2 ? .15 : .4);
      if (v1) {
        if (!tv) {
          add(head("gfc ", 1));
          continue;
        }
        long t0 = base + r.range(0, 3000);
        I.dates.push_back({t0, 0});
        /* one body entry: the group stays together */
        grp = head("gfct", 1) + sp(r) + dstr(t0, 0, 0, true);
        if (r.chance(.7))
          grp += "\n" + head(r.chance(.2) ? "dot " : "trnd", 1e-2);
        for (int p = r.below(3); p > 0; p--) {
          double per = p == 1 ? 1.0 : r.uni(.2, 20);
          snprintf(b, sizeof b, "%.6f", per);
          if (r.chance(.9))
            grp += "\n" + head("acos", 1e-2) + sp(r) + b;
          if (r.chance(.9))
            grp += "\n" + head("asin", 1e-2) + sp(r) + b;
        }
        body.push_back(grp);
      } else {
        if (!tv || r.chance(.4))
          add(head("gfc ", 1));
        if (!tv)
          continue;
        /* consecutive validity intervals */
        long t = base + r.range(0, 300);
        int hh = r.chance(.7) ? 0 : r.range(0, 23), mm = r.chance(.7) ? 0 : r.range(0, 59);
        for (int iv = r.range(1, 3); iv > 0; iv--) {
          long te = t + r.range(1, 1500);
          int hh2 = r.chance(.7) ? 0 : r.range(0, 23), mm2 = r.chance(.7) ? 0 : r.range(0, 59);
          I.dates.push_back({t, hh * 3600L + mm * 60L});
          I.dates.push_back({te, hh2 * 3600L + mm2 * 60L});
          std::string span = sp(r) + dstr(t, hh, mm, false) + sp(r) + dstr(te, hh2, mm2, false);
          if (r.chance(.9))
            add(head("gfct", 1) + span);
          if (r.chance(.6))
            add(head("trnd", 1e-2) + span);
          for (int p = r.below(3); p > 0; p--) {
            snprintf(b, sizeof b, "%.4f", p == 1 ? 1.0 : r.uni(.2, 20));
            if (r.chance(.9))
              add(head("acos", 1e-2) + span + sp(r) + b);
            if (r.chance(.9))
              add(head("asin", 1e-2) + span + sp(r) + b);
          }
          t = te + (r.chance(.7) ? 0 : 10);
          hh = hh2;
          mm = mm2;
        }
      }
    }
  if (r.chance(.4))
    for (size_t i = body.size(); i > 1; i--)
      std::swap(body[i - 1], body[(size_t)r.below((int)i)]);
  std::string all;
  for (auto &l : body)
    all += l + "\n";
  for (auto &l : text_lines(all))
    put(l);
  if (I.dates.empty())
    I.dates.push_back({base, 0});
  return I;
}
void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  const int nf = prop == "C08" ? r.range(1, 3) : r.range(1, 2);
  std::vector<Info> I;
  for (int k = 0; k < nf; k++) {
    char nm[16];
    snprintf(nm, sizeof nm, "gfc%d", k);
    I.push_back(gen_model(r, s, nm, r.chance(.1) ? 40 : r.chance(.5) ? 5 : 12));
    if (cfg != "dmg")
      Files::gen_delivery(r, s, nm, script_bytes(s, nm));
    if (prop == "C09" && (k == 0 || r.chance(.5))) {
      long nb = script_bytes(s, nm);
      if (cfg == "io") {
        Files::gen_io_fault(r, s, nm, nb, 4);
        if (nf > 1 && r.chance(.1))
          s.add("swap %s %d gfc%d", nm, r.range(2, 4), 1 - k);
      } else
        Files::gen_damage(r, s, nm, nb);
    }
  }
  int nops = r.range(2, prop == "C08" ? 9 : 6);
  for (int i = 0; i < nops; i++) {
    int k = r.below(nf);
    if (i == 0 || r.chance(.25)) {
      s.add("open %d", k);
      if (i)
        continue;
    }
    int n = r.chance(.3) ? -1 : r.chance(.1) ? I[k].nmax + r.range(0, 2) : r.range(0, I[k].nmax);
    int m = r.chance(.4) ? -1 : r.chance(.1) ? n + r.range(0, 2) : r.range(0, n < 0 ? I[k].nmax : n);
    auto d = I[k].dates[(size_t)r.below((int)I[k].dates.size())];
    long ns = 0;
    switch (r.below(5)) {
    case 0:
      ns = -1;
      break;
    case 1:
      ns = r.range(1, 1000000000);
      break;
    case 2:
      d = {r.range(40000, 62000), r.range(0, 86399)};
      break;
    case 3:
      d.first += r.range(-400, 400);
      break;
    }
    s.add("load %d %d %d %d %ld %ld %ld", k, r.below(2), n, m, d.first, d.second, ns);
  }
}

/* ---- execution ------------------------------------------------------------------ */
void world::execute(const Script &s, const std::string &prop) {
  Files fs;
  std::vector<std::string> ops;
  bool swapped = false;
  for (auto &l : s.lines) {
    if (starts(l, "swap "))
      swapped = true;
    if (!fs.feed(l))
      ops.push_back(l);
  }
  fs.materialise();
  struct Slot {
    std::unique_ptr<Icgem> g;
    Header h;
    bool judged = false;
  };
  std::map<long, Slot> slot;
  std::unique_ptr<dso::StokesCoeffs> co[2];
  for (auto &l : ops) {
    Tok t(l);
    char nm[24];
    snprintf(nm, sizeof nm, "gfc%ld", t.i(1));
    auto open = [&] {
      Slot &x = slot[t.i(1)];
      x.g.reset();
      opcount("open");
      evals();
      const int o = (int)Disk::opens(nm);
      const long f0 = Disk::fired(nm);
      bool threw = false;
      try {
        Lib lib;
        x.g = std::make_unique<Icgem>(nm);
      } catch (std::exception &e) {
        threw = true;
      }
      auto v = fs.view(nm, o + 1);
      x.h = v.exists ? ref_header(v.text) : Header();
      const bool bad = !v.exists || x.h.bad;
      const bool may = x.h.vague || x.h.toolong || swapped || Disk::fired(nm) > f0 || fs.damaged[nm];
      trace("open %s -> %s", nm, threw ? "refused" : "ok");
      x.judged = !x.h.vague && !swapped;
      if (fs.recount(nm, o, 1)) {
        x.judged = false;
        return;
      }
      if (bad && !x.h.vague && !threw && !swapped)
        fail("error-as-success", "%s: opened, but %s", nm, v.exists ? "its header is incomplete or unreadable" : "it cannot be opened");
      if (threw) {
        if (!bad && !may)
          fail("good-file-rejected", "%s: a well-formed header is rejected", nm);
        probe("header rejected");
        nontrivial();
        return;
      }
      if (!x.judged)
        return;
      const Icgem &g = *x.g;
      const Header &h = x.h;
      auto same = [&](const char *got, const std::string &w) { return h.toolong ? w.compare(0, strlen(got), got) == 0 : w == got; };
      if (h.toolong)
        probe("value longer than the reader's limit accepted");
      if (!same(g.product_type(), h.product) || !same(g.model_name(), h.model) || !same(g.tide_system(), h.tide))
        fail("header-value", "%s: product/model/tide system is \"%s\"/\"%s\"/\"%s\", file says \"%s\"/\"%s\"/\"%s\"", nm,
             g.product_type(), g.model_name(), g.tide_system(), h.product.c_str(), h.model.c_str(), h.tide.c_str());
      if (g.gm() != h.gm || g.radius() != h.re || g.max_degree() != h.nmax)
        fail("header-value", "%s: GM %.17g R %.17g degree %d, file says %.17g %.17g %ld", nm, g.gm(), g.radius(), g.max_degree(), h.gm,
             h.re, h.nmax);
      if ((int)g.errors() != h.err || (int)g.version() != h.version - 1 || g.is_normalized() != (h.norm == "fully_normalized"))
        fail("header-value", "%s: error model %d version %d normalised %d, file says %d %d %d", nm, (int)g.errors(), (int)g.version() + 1,
             (int)g.is_normalized(), h.err, h.version, (int)(h.norm == "fully_normalized"));
    };
    if (t.is("open"))
      open();
    else if (t.is("load")) {
      if (!slot.count(t.i(1)) || !slot[t.i(1)].g)
        open();
      Slot &x = slot[t.i(1)];
      if (!x.g)
        continue;
      const int ci = (int)(t.i(2) & 1);
      if (!co[ci]) {
        Lib lib;
        co[ci] = std::make_unique<dso::StokesCoeffs>(3, 3);
      }
      int n = (int)t.i(3), m = (int)t.i(4);
      if (x.g->max_degree() > 1500 && n < 0)
        continue; /* memory exhaustion is not the subject here */
      const Dt ep = Dt(dso::modified_julian_day((int)t.i(5)), dso::nanoseconds(t.i(6) * 1000000000L)).add_seconds(dso::nanoseconds(t.i(7)));
      const int o = (int)Disk::opens(nm);
      const long f0 = Disk::fired(nm);
      int st;
      {
        Lib lib;
        st = x.g->parse_data(n, m, ep, *co[ci]);
      }
      opcount("load");
      evals();
      trace("load %s (%d,%d) at %ld+%ld -> %d", nm, n, m, t.i(5), t.i(6), st);
      if (n < 0)
        n = x.g->max_degree();
      if (m < 0)
        m = n;
      auto v = fs.view(nm, o + 1);
      Ref R;
      bool bad = !v.exists || n > x.g->max_degree() || m > n;
      if (!bad) {
        R = ref_data(v.text, x.h, v.eio, n, m, ep);
        bad = R.bad;
      }
      const bool fired = Disk::fired(nm) > f0;
      if (fs.recount(nm, o, 1) && x.g->max_degree() >= n && m <= n)
        continue;
      if (st) {
        if (!bad && !R.may && !R.vague && !fired && !fs.damaged[nm] && x.judged)
          fail("good-file-rejected", "%s: a well-formed data section is rejected", nm);
        probe("load reported an error");
        nontrivial();
        continue;
      }
      if (!x.judged || R.vague)
        continue;
      if (bad)
        fail("error-as-success", "%s: load reports success, but %s", nm,
             !v.exists                 ? "the file cannot be opened"
             : !R.why.empty()          ? R.why.c_str()
                                       : "the degree/order is not admissible");
      const auto &c = *co[ci];
      if (c.max_degree() > n || c.max_order() > m || c.max_order() > c.max_degree())
        fail("coeff-shape", "%s: asked (%d,%d), got (%d,%d)", nm, n, m, c.max_degree(), c.max_order());
      if (c.GM() != x.h.gm || c.Re() != x.h.re || c.normalized() != (x.h.norm == "fully_normalized"))
        fail("coeff-constants", "%s: GM %.17g R %.17g, file says %.17g %.17g", nm, c.GM(), c.Re(), x.h.gm, x.h.re);
      for (int i = 0; i <= n; i++)
        for (int j = 0; j <= std::min(i, m); j++) {
          auto it = R.m.find({i, j});
          const bool in = i <= c.max_degree() && j <= c.max_order();
          if (!in) {
            if (it != R.m.end())
              fail("coeff-missing", "%s: C(%d,%d) is in the file, the set ends at (%d,%d)", nm, i, j, c.max_degree(), c.max_order());
            continue;
          }
          Cell z;
          const Cell &w = it == R.m.end() ? z : it->second;
          const bool one = w.terms == 1 && w.statics == 1;
          const LD gc = c.C(i, j), gs = c.S(i, j);
          if (!(fabsl(gc - w.c) <= (one ? 0 : w.tc)) || !(fabsl(gs - w.s) <= (one ? 0 : w.ts)))
            fail(w.terms ? (w.statics == w.terms ? "coeff-value" : "coeff-timevarying") : "coeff-nonzero",
                 "%s (%d,%d): got %.17Lg %.17Lg, file defines %.17Lg %.17Lg (%d terms)", nm, i, j, gc, gs, w.c, w.s, w.terms);
          if (w.terms > w.statics)
            probe("time-varying coefficient");
        }
      nontrivial();
      state(fnvs(std::to_string(x.h.version) + "/" + std::to_string(x.h.err) + "/" + std::to_string(n) + "/" + std::to_string(m) + "/" +
                 std::to_string(c.max_degree()) + "/" + std::to_string(c.max_order())));
    }
  }
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  slot.clear();
  co[0].reset();
  co[1].reset();
  check_leaks("after the loads");
}
