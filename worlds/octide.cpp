/* World "octide": tide atlases built from GROOPS files on the simulated disk and
 * the ocean tide models made of them.
 *   C18  "x" well formed, "io" delivery faults, "dmg" damage, "bad" inconsistent sets
 *   C24  histories of copies, moves, swaps, re-assignments, admittance changes
 *   C25  histories of evaluations
 * Oracle: independent readers (GROOPS lists and matrices here, ICGEM in
 * icgem_ref.hpp), independent tidal arguments. */
#include "sim.hpp"
#include "files.hpp"
#include "icgem_ref.hpp"
#include "tide_ref.hpp"
#include "ocean_tide.hpp"
#include "atmospheric_tides.hpp"
#include <memory>
#include <set>
using namespace sim;
using tideref::LD;
const char *const world::name = "octide";
using icref::btok;
using icref::has_ctl;
using icref::starts;

typedef std::map<std::pair<int, int>, std::pair<double, double>> CMap;
struct RefWave {
  int d[6];
  std::string name;
  bool has[2] = {false, false};
  CMap cs[2]; /* cos, sin */
  int n[2] = {0, 0}, m[2] = {0, 0}; /* admissible shape */
};
struct RefAdm {
  std::vector<std::array<int, 6>> D;
  std::vector<std::vector<double>> A;
};
struct RefAtlas {
  bool bad = false, vague = false, faulted = false;
  std::string why, name;
  std::vector<RefWave> w;
  bool adm = false;
  RefAdm a;
};
static int dchar(char c) {
  if (isdigit((unsigned char)c))
    return c - '0';
  if (c >= 'A' && c <= 'M')
    return c - 'A' + 10;
  if (c >= 'N' && c <= 'Z')
    return c - 'N' - 13;
  return 999;
}
/* <model>_<doodson>_<name>_<cos|sin>.gfc; 0 ok, 1 bad, 2 unclear */
static int split_name(const std::string &f, std::string &model, int *d, std::string &dstr, std::string &wave, int &sin) {
  if (f.size() < 4 || f.substr(f.size() - 4) != ".gfc")
    return 1;
  std::string b = f.substr(0, f.size() - 4);
  std::vector<std::string> p;
  for (int k = 0; k < 3; k++) {
    size_t q = b.rfind('_');
    if (q == std::string::npos)
      return 1;
    p.push_back(b.substr(q + 1));
    b = b.substr(0, q);
  }
  if (p[0] != "sin" && p[0] != "cos")
    return 1;
  sin = p[0] == "sin";
  wave = p[1];
  dstr = p[2];
  model = b;
  if (dstr.size() < 7 || dstr[3] != '.')
    return 1;
  if (dstr.size() > 7)
    return 2;
  int k = 0;
  bool lower = false;
  for (int i = 0; i < 7; i++) {
    if (i == 3)
      continue;
    int v = dchar(dstr[(size_t)i]);
    if (v == 999) {
      v = dchar((char)toupper((unsigned char)dstr[(size_t)i]));
      lower = true;
    }
    if (v == 999)
      return 1;
    d[k] = v - (k ? 5 : 0);
    k++;
  }
  if (lower || wave.size() > 15 || wave.empty() || model.empty() || model.size() > 47)
    return 2;
  return 0;
}
struct World {
  Files fs;
  std::map<long, std::string> dir;
};
static RefAtlas ref_atlas(World &W, long k, int n, int m, bool adm) {
  RefAtlas r;
  auto bad = [&](const std::string &w) {
    if (!r.bad)
      r.why = w;
    r.bad = true;
  };
  const std::string ln = "list" + std::to_string(k);
  auto v = W.fs.view_steady(ln);
  if (!v.exists) {
    bad("the file list cannot be opened");
    return r;
  }
  if (v.eio)
    bad("the file list cannot be read");
  struct Ent {
    std::string f, model, dstr, wave;
    int d[6], sin;
  };
  std::vector<Ent> E;
  std::set<std::string> names;
  for (auto l : text_lines(v.text)) {
    if (has_ctl(l) || l.size() > 510) {
      r.vague = true;
      return r;
    }
    auto w = btok(l);
    if (w.empty()) {
      r.vague = true; /* blank line: skipped or reported */
      continue;
    }
    if (w.size() > 2)
      r.vague = true;
    if (w.size() < 2)
      bad("a line of the file list lacks a column");
    for (size_t i = 0; i < w.size() && i < 2; i++) {
      Ent e;
      e.f = w[i];
      int q = split_name(w[i], e.model, e.d, e.dstr, e.wave, e.sin);
      if (q == 1)
        bad("not a constituent file name: " + w[i]);
      if (q == 2)
        r.vague = true;
      if (!names.insert(w[i]).second)
        bad("a file is listed twice");
      if (q != 1)
        E.push_back(e);
    }
  }
  if (names.empty())
    bad("the file list is empty");
  for (auto &e : E) {
    std::string c = e.f;
    c.replace(c.size() - 7, 3, e.sin ? "cos" : "sin");
    if (!names.count(c))
      bad("no counterpart of " + e.f);
  }
  if (r.bad || r.vague)
    return r;
  std::map<std::string, std::string> owner; /* doodson -> wave name */
  for (auto &e : E) {
    std::string id = e.model + "|" + e.wave;
    auto it = owner.find(e.dstr);
    if (it != owner.end() && it->second != id)
      bad("two waves with one Doodson number");
    owner[e.dstr] = id;
    RefWave *w = nullptr;
    for (auto &x : r.w)
      if (!memcmp(x.d, e.d, sizeof x.d))
        w = &x;
    if (!w) {
      r.w.emplace_back();
      w = &r.w.back();
      memcpy(w->d, e.d, sizeof w->d);
      w->name = e.wave;
    }
    const std::string path = W.dir[k] + "/" + e.f;
    auto g = W.fs.view_steady(path);
    if (!g.exists) {
      bad("no file " + e.f);
      continue;
    }
    auto h = icref::ref_header(g.text);
    if (h.vague || h.nmax > 1500) {
      r.vague = true;
      continue;
    }
    if (h.bad) {
      bad("header of " + e.f);
      continue;
    }
    r.name = h.model;
    const int nn = n < 0 ? (int)h.nmax : n, mm = m < 0 ? nn : m;
    if (nn > h.nmax || mm > nn) {
      bad("inadmissible degree/order for " + e.f);
      continue;
    }
    auto R = icref::ref_data(g.text, h, g.eio, nn, mm, icref::Dt::min());
    for (auto &c : R.m)
      if (c.second.terms != 1 || c.second.statics != 1)
        r.vague = true;
    if (R.bad)
      bad("data of " + e.f + ": " + R.why);
    if (R.vague || R.may)
      r.vague = true;
    w->has[e.sin] = true;
    w->n[e.sin] = nn;
    w->m[e.sin] = mm;
    for (auto &c : R.m)
      w->cs[e.sin][c.first] = {(double)c.second.c, (double)c.second.s};
  }
  if (!adm)
    return r;
  r.adm = true;
  auto dv = W.fs.view_steady("doo" + std::to_string(k));
  auto av = W.fs.view_steady("adm" + std::to_string(k));
  if (!dv.exists || !av.exists) {
    bad("the Doodson or admittance file cannot be opened");
    return r;
  }
  if (dv.eio || av.eio)
    bad("the Doodson or admittance file cannot be read");
  for (auto &l : text_lines(dv.text)) {
    auto w = btok(l);
    if (has_ctl(l) || w.empty() || w.size() > 6 || l.size() > 122) {
      r.vague = true;
      continue;
    }
    std::array<int, 6> a{};
    long x;
    for (size_t i = 0; i < 6; i++)
      if (i >= w.size() || !icref::strict_int(w[i], x)) {
        bad("unreadable Doodson row: " + l);
        if (i < w.size() && w[i][0] == '+')
          r.vague = true;
        /* signs also separate numbers for a lenient reader */
        if (l.find('-', l.find_first_not_of(' ') + 1) != std::string::npos)
          for (auto &t : w)
            if (t.find('-', 1) != std::string::npos)
              r.vague = true;
      } else
        a[i] = (int)x;
    r.a.D.push_back(a);
  }
  if (r.a.D.empty())
    bad("no Doodson rows");
  for (auto &l : text_lines(av.text)) {
    auto w = btok(l);
    if (has_ctl(l) || w.empty() || l.size() + 1 > (r.a.D.size() + 1) * 27) {
      r.vague = true;
      continue;
    }
    std::vector<double> row;
    for (auto &x : w) {
      double d = 0;
      bool vg = false;
      if (!icref::strict_num(x, d, false, vg)) {
        bad("unreadable admittance: " + x);
        /* "1.2.3" or "0.1-2": a lenient reader sees two numbers */
        if (isdigit((unsigned char)x[0]) || x[0] == '.' || x[0] == '-')
          r.vague = true;
      }
      if (vg || x[0] == '+')
        r.vague = true;
      row.push_back(d);
    }
    if (row.size() != r.a.D.size()) {
      bad("an admittance row has " + std::to_string(row.size()) + " columns for " + std::to_string(r.a.D.size()) + " waves");
    }
    r.a.A.push_back(row);
  }
  if (r.a.A.size() != r.w.size())
    bad("the admittance matrix has " + std::to_string(r.a.A.size()) + " rows for " + std::to_string(r.w.size()) + " major waves");
  return r;
}

/* ---- generation ---------------------------------------------------------------- */
static void put(Script &s, const std::string &l) { s.add("l %s", esc(l).c_str()); }
static const char *DW[][2] = {{"055.565", "om1"}, {"056.554", "sa"},  {"065.455", "mm"},  {"075.555", "mf"},  {"135.655", "q1"},  {"145.555", "o1"},
                              {"163.555", "p1"},  {"164.556", "s1"},  {"165.555", "k1"},  {"235.755", "2n2"}, {"245.655", "n2"}, {"255.555", "m2"},
                              {"273.555", "s2"},  {"275.555", "k2"},  {"455.555", "m4"},  {"5A0.555", "s5"},  {"6BZ.555", "s6"}, {"382.555", "s3"},
                              {"272.556", "t2"},  {"227.655", "eps2"}};
static const int NDW = 20;
struct Gen {
  int nw, nmax;
  std::vector<std::string> files;
  std::vector<std::string> wd; /* doodson strings */
};
static void gen_gfc(Rng &r, Script &s, const std::string &path, int nmax, const std::string &model) {
  s.add("f %s", path.c_str());
  char b[200];
  if (r.chance(.5))
    put(s, "begin_of_head ===========");
  put(s, "product_type                gravity_field");
  put(s, "modelname                   " + model);
  snprintf(b, sizeof b, "earth_gravity_constant      %.10E", 3.986004415e14);
  put(s, b);
  snprintf(b, sizeof b, "radius                      %.10E", 6378136.3);
  put(s, b);
  put(s, "max_degree                  " + std::to_string(nmax));
  const bool f = r.chance(.6);
  put(s, f ? "errors                      formal" : "errors                      no");
  put(s, "norm                        fully_normalized");
  if (r.chance(.5))
    put(s, "format                      icgem1.0");
  put(s, "end_of_head ==============");
  const bool holes = r.chance(.15);
  for (int n = 0; n <= nmax; n++)
    for (int m = 0; m <= n; m++) {
      if (holes && r.chance(.3))
        continue;
      snprintf(b, sizeof b, "gfc %3d %3d %.15e %.15e", n, m, r.uni(-1, 1) * 1e-10, m ? r.uni(-1, 1) * 1e-10 : 0.0);
      put(s, f ? std::string(b) + " 0.000000e+00 0.000000e+00" : b);
    }
}
static Gen gen_model(Rng &r, Script &s, int k, const std::string &dir, bool uniform, bool longnames) {
  Gen g;
  g.nw = r.range(1, r.chance(.04) ? NDW : r.chance(.2) ? 8 : 4);
  g.nmax = r.chance(.1) ? r.range(0, 1) : r.range(1, r.chance(.1) ? 14 : 6);
  std::vector<int> pick;
  while ((int)pick.size() < g.nw) {
    int w = r.below(NDW);
    if (std::find(pick.begin(), pick.end(), w) == pick.end())
      pick.push_back(w);
  }
  std::string model = r.chance(.5) ? "FES2014b" : r.chance(.5) ? "TiME22_ATM" : "E_O_T-11a";
  if (longnames && r.chance(.3))
    model += std::string((size_t)r.range(20, 120), 'L');
  std::string title = model;
  if (r.chance(.1))
    title = "model " + std::string((size_t)r.range(40, 110), 't');
  std::vector<std::string> lines;
  for (int q : pick) {
    std::string w = DW[q][1];
    if (longnames && r.chance(.2))
      w += std::string((size_t)r.range(8, 40), 'w');
    const std::string b = model + "_" + DW[q][0] + "_" + w + "_";
    g.wd.push_back(DW[q][0]);
    const bool sf = r.chance(.15);
    const std::string a = b + (sf ? "sin.gfc" : "cos.gfc"), c = b + (sf ? "cos.gfc" : "sin.gfc");
    lines.push_back(std::string((size_t)(r.chance(.1) ? r.below(4) : 0), ' ') + a + std::string((size_t)r.range(1, 3), ' ') + c +
                    std::string((size_t)(r.chance(.1) ? r.below(4) : 0), ' '));
    for (auto &f : {a, c}) {
      const int n = uniform || r.chance(.7) ? g.nmax : r.range(0, g.nmax);
      gen_gfc(r, s, dir + "/" + f, n, title);
      g.files.push_back(dir + "/" + f);
    }
  }
  if (g.nw > 1 && r.chance(.12)) { /* all files, paired anyhow on their lines */
    std::vector<std::string> fl;
    for (auto &f : g.files)
      fl.push_back(f.substr(dir.size() + 1));
    for (size_t i = fl.size() - 1; i > 0; i--)
      std::swap(fl[i], fl[(size_t)r.below((int)i + 1)]);
    lines.clear();
    g.wd.clear();
    for (size_t i = 0; i < fl.size(); i++) {
      if (i % 2)
        lines.back() += " " + fl[i];
      else
        lines.push_back(fl[i]);
      for (int q : pick)
        if (fl[i].compare(0, model.size() + 2 + strlen(DW[q][0]), model + "_" + DW[q][0] + "_") == 0 &&
            std::find(g.wd.begin(), g.wd.end(), DW[q][0]) == g.wd.end())
          g.wd.push_back(DW[q][0]);
    }
  }
  s.add("f list%d", k);
  for (auto &l : lines)
    put(s, l);
  /* all waves: the major ones first, then minor ones */
  const int nf = g.nw + r.below(6);
  s.add("f doo%d", k);
  char b[200];
  for (int i = 0; i < nf; i++) {
    int d[6];
    if (i < g.nw) {
      const char *c = g.wd[(size_t)i].c_str();
      int q = 0;
      for (int j = 0; j < 7; j++)
        if (j != 3)
          d[q] = dchar(c[j]) - (q ? 5 : 0), q++;
    } else
      for (int j = 0; j < 6; j++)
        d[j] = j ? r.range(-4, 4) : r.range(0, 4);
    snprintf(b, sizeof b, r.chance(.8) ? "%4d%4d%4d%4d%4d%4d" : " %d %d  %d %d %d   %d", d[0], d[1], d[2], d[3], d[4], d[5]);
    put(s, b);
  }
  s.add("f adm%d", k);
  for (int i = 0; i < g.nw; i++) {
    std::string l;
    for (int j = 0; j < nf; j++) {
      const double v = i == j ? 1 : j < g.nw ? 0 : r.chance(.4) ? 0 : r.uni(-1, 1);
      snprintf(b, sizeof b, r.chance(.5) ? " %.18e" : " %.8e", v);
      l += b;
    }
    put(s, l);
  }
  return g;
}
void world::generate(Rng &r, const std::string &prop, const std::string &cfg, Script &s) {
  const int nm = prop == "C18" ? r.range(1, 2) : r.range(1, 3);
  std::vector<Gen> G;
  for (int k = 0; k < nm; k++) {
    std::string dir = "m" + std::to_string(k);
    if (prop == "C18" && r.chance(.1))
      dir = "m" + std::to_string(k) + std::string((size_t)r.range(60, 100), 'x') + "/" + std::string((size_t)r.range(60, 200), 'y');
    s.add("mkdir %s", dir.c_str());
    s.add("dir %d %s", k, dir.c_str());
    G.push_back(gen_model(r, s, k, dir, r.chance(.5), prop == "C18" && r.chance(.2)));
    if (prop != "C18")
      continue;
    std::vector<std::string> fl = {"list" + std::to_string(k), "doo" + std::to_string(k), "adm" + std::to_string(k)};
    if (cfg != "dmg")
      for (auto &f : fl)
        Files::gen_delivery(r, s, f, script_bytes(s, f));
    if (cfg != "dmg" && r.chance(.5)) {
      const auto &f = r.pick(G.back().files);
      Files::gen_delivery(r, s, f, script_bytes(s, f));
    }
    if (cfg == "io" || cfg == "dmg") {
      const std::string f = r.chance(.6) ? fl[(size_t)r.below(3)] : r.pick(G.back().files);
      if (cfg == "io")
        Files::gen_io_fault(r, s, f, script_bytes(s, f), r.chance(.2) ? 3 : 0);
      else
        Files::gen_damage(r, s, f, script_bytes(s, f));
    }
    if (cfg == "bad") { /* inconsistent sets */
      const char *t[] = {"dropline", "dupline"};
      switch (r.below(6)) {
      case 0:
        s.add("%s %s %d", t[r.below(2)], fl[1 + (size_t)r.below(2)].c_str(), r.below(10000));
        break;
      case 1:
        s.add("%s %s %d", t[r.below(2)], fl[0].c_str(), r.below(10000));
        break;
      case 2: /* lose a column */
        s.add("cutcol %s %d", fl[(size_t)r.below(3)].c_str(), r.below(10000));
        break;
      case 3: /* an additional column */
        s.add("addcol %s %d", fl[(size_t)r.below(3)].c_str(), r.below(10000));
        break;
      case 4: /* two waves of one Doodson number, or a file without counterpart */
        s.add("rename %d %d %d", k, r.below(4), r.below(10000));
        break;
      case 5:
        s.add("missing %s", r.pick(G.back().files).c_str());
        break;
      }
    }
  }
  std::vector<std::string> ep;
  auto build = [&](int slot) {
    const int k = r.below(nm);
    int n = r.chance(.4) ? -1 : r.chance(.05) ? G[(size_t)k].nmax + 1 : r.range(0, G[(size_t)k].nmax);
    int m = r.chance(.5) ? -1 : r.chance(.05) ? n + 1 : r.range(0, n < 0 ? G[(size_t)k].nmax : n);
    s.add("build %d %d %d %d %d", slot, k, r.chance(.6) ? 1 : 0, n, m);
  };
  if (prop == "C18") {
    for (int i = r.range(1, 3); i > 0; i--) {
      if (r.chance(.3)) {
        const int k = r.below(nm);
        s.add("%s %d %d %d %d", r.chance(.5) ? "atlas" : "atm", k, (int)r.chance(.5), r.chance(.5) ? -1 : r.range(0, G[(size_t)k].nmax), -1);
      } else
        build(r.below(3));
      if (r.chance(.5))
        s.add("eval %d %s", r.below(3), tideref::gen_related(r, ep).c_str());
    }
    return;
  }
  build(0);
  build(1);
  const int nops = r.range(4, 25);
  for (int i = 0; i < nops; i++) {
    const int a = r.below(3), b = r.below(3);
    const int q = prop == "C25" ? (r.chance(.7) ? 0 : r.below(9)) : r.below(10);
    switch (q) {
    case 0:
      s.add("eval %d %s", a, tideref::gen_related(r, ep).c_str());
      break;
    case 1:
      s.add("again %d", a);
      break;
    case 2:
      s.add("copy %d %d", a, b);
      break;
    case 3:
      s.add("move %d %d", a, b);
      break;
    case 4:
      s.add("cctor %d %d", a, b);
      break;
    case 5:
      s.add("mctor %d %d", a, b);
      break;
    case 6:
      s.add("swapo %d %d", a, b);
      break;
    case 7:
      s.add("adm %d %d", a, r.below(nm));
      break;
    case 8:
      build(a);
      break;
    case 9:
      s.add("drop %d", a);
      break;
    }
  }
  for (int k = 0; k < 3; k++)
    s.add("eval %d %s", k, tideref::gen_related(r, ep).c_str());
}

/* ---- execution --------------------------------------------------------------------- */
struct Obj {
  std::unique_ptr<dso::OceanTide> o;
  RefAtlas ref;
  bool judged = true;
  bool mismatch = false; /* admittance of another set of waves */
  bool have_last = false;
  tideref::Epoch le;
  std::vector<double> lv;
};
static double admc(const Eigen::MatrixXd &m, int i, int j) { return m(i, j); }
#ifdef SPARSE_ADMITTANCE_MATRIX
static double admc(const Eigen::SparseMatrix<double> &m, int i, int j) { return m.coeff(i, j); }
#endif
static void cmp_atlas(const dso::TideAtlas &a, const RefAtlas &r, const char *what) {
  const auto &W = a.waves();
  if (W.size() != r.w.size())
    fail("wave-count", "%s: %d waves, the files hold %d", what, (int)W.size(), (int)r.w.size());
  for (size_t k = 0; k < W.size(); k++) {
    const auto &g = W[k];
    const RefWave &q = r.w[k];
    for (int i = 0; i < 6; i++)
      if (g.doodson()(i) != q.d[i])
        fail("wave-identity", "%s: wave %d (%s): Doodson multiplier %d is %d, not %d", what, (int)k, q.name.c_str(), i, g.doodson()(i), q.d[i]);
    if (strnlen(g.name(), 16) >= 16 || q.name != g.name())
      fail("wave-identity", "%s: wave %d is named \"%.16s\", not \"%s\"", what, (int)k, g.name(), q.name.c_str());
    for (int t = 0; t < 2; t++) {
      const auto &cs = t ? g.stokes_sin() : g.stokes_cos();
      for (int i = 0; i <= std::max(cs.max_degree(), q.n[t]); i++)
        for (int j = 0; j <= i; j++) {
          auto it = q.cs[t].find({i, j});
          const bool in = i <= cs.max_degree() && j <= cs.max_order();
          if (!in && it == q.cs[t].end())
            continue;
          if (!in)
            fail("wave-coeff-missing", "%s: wave %d (%s) %s lacks (%d,%d)", what, (int)k, q.name.c_str(), t ? "sin" : "cos", i, j);
          const double c = it == q.cs[t].end() ? 0 : it->second.first, s = it == q.cs[t].end() ? 0 : it->second.second;
          if (cs.C(i, j) != c || cs.S(i, j) != s)
            fail("wave-coeff", "%s: wave %d (%s) %s (%d,%d): %.17g %.17g, the file says %.17g %.17g", what, (int)k, q.name.c_str(),
                 t ? "sin" : "cos", i, j, cs.C(i, j), cs.S(i, j), c, s);
        }
    }
  }
}
template <class T> static void cmp_adm(const T &g, const RefAdm &r, const char *what) {
  const auto D = g.doodson_matrix();
  const auto A = g.admittance_matrix();
  if (g.num_waves() != (int)r.D.size() || g.num_major_waves() != (int)r.A.size() || D.rows() != (int)r.D.size() || A.rows() != (int)r.A.size() ||
      A.cols() != (int)r.D.size())
    fail("admittance-shape", "%s: %d x %d for %d waves, the files hold %d x %d", what, (int)A.rows(), (int)A.cols(), (int)D.rows(),
         (int)r.A.size(), (int)r.D.size());
  for (size_t i = 0; i < r.D.size(); i++)
    for (int j = 0; j < 6; j++)
      if (D((int)i, j) != r.D[i][(size_t)j])
        fail("doodson-matrix", "%s: row %d column %d is %d, the file says %d", what, (int)i, j, D((int)i, j), r.D[i][(size_t)j]);
  for (size_t i = 0; i < r.A.size(); i++)
    for (size_t j = 0; j < r.D.size(); j++)
      if (admc(A, (int)i, (int)j) != r.A[i][j])
        fail("admittance-matrix", "%s: (%d,%d) is %.17g, the file says %.17g", what, (int)i, (int)j, admc(A, (int)i, (int)j), r.A[i][j]);
}
static void cmp(const Obj &x, const char *what) {
  if (!x.o || !x.judged)
    return;
  cmp_atlas(x.o->atlas(), x.ref, what);
  int m = 0;
  const int n = x.o->atlas().max_atlas_degree(m);
  if (x.o->max_degree() != n || x.o->max_order() != m)
    fail("model-shape", "%s: the model reports (%d,%d), its waves reach (%d,%d)", what, x.o->max_degree(), x.o->max_order(), n, m);
  if (x.ref.adm)
    cmp_adm(*x.o, x.ref.a, what);
  if (x.ref.name.size() < 64 && x.ref.name != x.o->atlas().name())
    fail("atlas-name", "%s: named \"%.64s\", not \"%s\"", what, x.o->atlas().name(), x.ref.name.c_str());
}
/* the correction the reference expects; [2],[3]: magnitude */
typedef std::map<std::pair<int, int>, std::array<LD, 4>> Sum;
static Sum ref_sum(const RefAtlas &r, const tideref::Epoch &e) {
  LD b[6];
  tideref::doodson(e, b);
  Sum S;
  for (size_t k = 0; k < r.w.size(); k++) {
    LD ca = 0, sa = 0, mag = 0;
    if (r.adm) {
      for (size_t f = 0; f < r.a.D.size(); f++) {
        const LD a = tideref::argument(b, r.a.D[f].data(), 0), A = r.a.A[k][f];
        ca += A * cosl(a);
        sa += A * sinl(a);
        mag += fabsl(A);
      }
    } else {
      const LD a = tideref::argument(b, r.w[k].d, 0);
      ca = cosl(a);
      sa = sinl(a);
      mag = 1;
    }
    for (int t = 0; t < 2; t++)
      for (auto &kv : r.w[k].cs[t]) {
        auto &x = S[kv.first];
        const LD f = t ? sa : ca;
        x[0] += f * kv.second.first;
        x[1] += f * kv.second.second;
        x[2] += mag * fabsl((LD)kv.second.first);
        x[3] += mag * fabsl((LD)kv.second.second);
      }
  }
  return S;
}
static std::vector<double> cmp_sum(const dso::StokesCoeffs &cs, const Sum &S) {
  std::vector<double> now;
  for (auto &kv : S)
    if (kv.first.first > cs.max_degree() || kv.first.second > cs.max_order())
      fail("tide-degree", "the correction ends at (%d,%d), a wave has (%d,%d)", cs.max_degree(), cs.max_order(), kv.first.first, kv.first.second);
  for (int i = 0; i <= cs.max_degree(); i++)
    for (int j = 0; j <= std::min(i, cs.max_order()); j++) {
      auto it = S.find({i, j});
      std::array<LD, 4> x{};
      if (it != S.end())
        x = it->second;
      now.push_back(cs.C(i, j));
      now.push_back(cs.S(i, j));
      if (!(fabsl(cs.C(i, j) - x[0]) <= 3e-10L * x[2]) || !(fabsl(cs.S(i, j) - x[1]) <= 3e-10L * x[3]))
        fail("tide-sum", "(%d,%d): %.17g %.17g, the waves sum to %.17Lg %.17Lg", i, j, cs.C(i, j), cs.S(i, j), x[0], x[1]);
    }
  return now;
}
static dso::MjdEpoch mjd(long d, double s) { return dso::MjdEpoch((int)d, dso::FractionalSeconds{s}); }

void world::execute(const Script &s, const std::string &) {
  World W;
  std::vector<std::string> ops;
  for (auto &l : s.lines) {
    Tok t(l);
    if (t.is("dir"))
      W.dir[t.i(1)] = t.s(2);
    else if (t.is("cutcol") || t.is("addcol")) {
      auto v = Files::split(W.fs.data[t.s(1)]);
      if (v.empty())
        continue;
      auto &x = v[(size_t)(t.i(2) % (long)v.size())];
      auto w = btok(x.substr(0, x.find('\n')));
      if (w.empty())
        continue;
      if (t.is("cutcol"))
        w.pop_back();
      else
        w.push_back(w.back());
      x.clear();
      for (auto &y : w)
        x += (x.empty() ? "" : " ") + y;
      x += "\n";
      W.fs.data[t.s(1)] = Files::join(v);
      W.fs.damaged[t.s(1)] = true;
      fault(t.is("cutcol") ? "column_lost" : "column_added");
    } else if (t.is("rename")) {
      /* change a constituent name in the list: 0 both names of a line (and the
         files) to a name with another line's Doodson number, 1-3 one name */
      const std::string ln = "list" + std::to_string(t.i(1));
      auto v = Files::split(W.fs.data[ln]);
      if (v.empty())
        continue;
      auto &x = v[(size_t)(t.i(3) % (long)v.size())];
      auto w = btok(x.substr(0, x.find('\n')));
      if (w.size() != 2)
        continue;
      const std::string other = btok(v[0].substr(0, v[0].find('\n')))[0];
      auto dood = [](const std::string &f) { return f.rfind('_', f.rfind('_', f.rfind('_') - 1) - 1) + 1; };
      auto ren = [&](std::string &f, const std::string &nf) {
        W.fs.data[W.dir[t.i(1)] + "/" + nf] = W.fs.data[W.dir[t.i(1)] + "/" + f];
        f = nf;
      };
      if (t.i(2) == 0 && t.i(3) % (long)v.size()) {
        for (auto &f : w) {
          std::string nf = f;
          nf.replace(dood(f), 7, other.substr(dood(other), 7));
          ren(f, nf);
        }
      } else {
        auto &f = w[(size_t)(t.i(3) & 1)];
        std::string nf = f;
        nf.insert(nf.rfind('_'), "z");
        ren(f, nf);
      }
      x = w[0] + " " + w[1] + "\n";
      W.fs.data[ln] = Files::join(v);
      W.fs.damaged[ln] = true;
      fault("list_inconsistent");
    } else if (!W.fs.feed(l))
      ops.push_back(l);
  }
  W.fs.materialise();
  std::unique_ptr<Obj[]> X(new Obj[3]);
  /* outcome of building from files against the reference */
  auto judge = [&](const RefAtlas &R, bool threw, long k, long f0) {
    bool nth = false, dam = false;
    for (auto &kv : W.fs.data) {
      nth |= W.fs.nth_only(kv.first);
      dam |= W.fs.damaged[kv.first];
    }
    const bool fired = Disk::fired() > f0;
    if (threw) {
      if (!R.bad && !R.vague && !(fired && nth) && !(fired && !R.bad && dam))
        fail("good-set-rejected", "model %ld: a consistent set of files is rejected", k);
      probe("set rejected");
      return false;
    }
    if (fired && nth) /* which of several opens of a file it hit is not known */
      return false;
    if (R.bad && !R.vague)
      fail("error-as-success", "model %ld: accepted, but %s", k, R.why.c_str());
    return !R.vague;
  };
  for (auto &l : ops) {
    Tok t(l);
    evals();
    if (t.is("build") || t.is("atlas") || t.is("atm")) {
      const bool obj = t.is("build");
      const int o = obj ? 1 : 0;
      Obj &x = X[obj ? t.i(1) % 3 : 0];
      const long k = t.i(1 + o);
      const bool adm = t.i(2 + o) != 0 && !t.is("atm");
      const int n = (int)t.i(3 + o), m = (int)t.i(4 + o);
      const std::string ln = "list" + std::to_string(k), dn = "doo" + std::to_string(k), an = "adm" + std::to_string(k), dir = W.dir[k];
      opcount(t.s(0).c_str());
      RefAtlas R = ref_atlas(W, k, n, m, adm);
      if (R.vague && R.w.empty() && R.bad)
        ;
      bool big = false; /* damaged degree: memory exhaustion is not the subject */
      for (auto &f : W.fs.data)
        if (W.fs.damaged[f.first] && f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".gfc" && icref::ref_header(f.second).nmax > 1500)
          big = true;
      if (big)
        continue;
      const long f0 = Disk::fired();
      bool threw = false;
      std::unique_ptr<dso::TideAtlas> at;
      std::unique_ptr<dso::AtmosphericTide> am;
      std::unique_ptr<dso::GroopsTideModel> gm;
      std::unique_ptr<dso::OceanTide> ot;
      try {
        Lib lib;
        if (obj)
          ot = adm ? std::make_unique<dso::OceanTide>(dso::groops_ocean_atlas(ln.c_str(), dn.c_str(), an.c_str(), dir.c_str(), n, m))
                   : std::make_unique<dso::OceanTide>(dso::groops_ocean_atlas(ln.c_str(), dir.c_str(), n, m));
        else if (t.is("atm"))
          am = std::make_unique<dso::AtmosphericTide>(dso::groops_atmospheric_atlas(ln.c_str(), dir.c_str(), n, m));
        else if (adm) {
          gm = std::make_unique<dso::GroopsTideModel>();
          at = std::make_unique<dso::TideAtlas>(dso::groops_atlas(ln.c_str(), dn.c_str(), an.c_str(), dir.c_str(), *gm, n, m));
        } else
          at = std::make_unique<dso::TideAtlas>(dso::groops_atlas(ln.c_str(), dir.c_str(), n, m));
      } catch (std::exception &) {
        threw = true;
      }
      trace("%s %ld adm %d (%d,%d) -> %s", t.s(0).c_str(), k, (int)adm, n, m, threw ? "refused" : "ok");
      const bool ok = judge(R, threw, k, f0);
      nontrivial();
      if (threw)
        continue;
      if (ot || at || am)
        for (auto &w : (ot ? ot->atlas() : at ? *at : am->atlas()).waves())
          if (strnlen(w.name(), 16) >= 16)
            fail("wave-identity", "the name of a wave does not end: \"%.16s\"", w.name());
      if (ok && at) {
        cmp_atlas(*at, R, "atlas");
        if (adm)
          cmp_adm(*gm, R.a, "atlas");
      }
      if (ok && am) {
        cmp_atlas(am->atlas(), R, "atmospheric atlas");
        tideref::Epoch e{55000, 54999, 43200.5, 43140.25, {1, 2, 3, 4, 5}};
        {
          Lib lib;
          am->stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
        }
        cmp_sum(am->stokes_coeffs(), ref_sum(R, e));
      }
      if (obj) {
        {
          Lib lib;
          x.o = std::move(ot);
        }
        x.ref = R;
        x.judged = ok;
        x.mismatch = false;
        x.have_last = false;
        cmp(x, "after building");
        uint64_t h = 17;
        for (auto &w : R.w)
          h = h * 1000003 + (uint64_t)(w.n[0] * 97 + w.n[1]) + fnvs(w.name);
        state(h + adm);
        if (adm)
          probe("admittance read");
      }
    } else if (t.is("eval") || t.is("again")) {
      Obj &x = X[t.i(1) % 3];
      if (!x.o)
        continue;
      const bool again = t.is("again");
      if (again && !x.have_last)
        continue;
      const tideref::Epoch e = again ? x.le : tideref::get_epoch(t, 2);
      opcount("eval");
      int st;
      {
        Lib lib;
        st = x.o->stokes_coeffs(mjd(e.ttd, e.tts), mjd(e.utd, e.uts), e.del);
      }
      trace("eval %ld -> %d", t.i(1) % 3, st);
      if (!x.judged)
        continue;
      if (x.mismatch) {
        if (!st)
          fail("mismatch-accepted", "a model whose admittance does not fit its waves is evaluated");
        probe("mismatch reported");
        continue;
      }
      if (st)
        fail("eval-refused", "evaluation returns %d", st);
      auto now = cmp_sum(static_cast<const dso::OceanTide &>(*x.o).stokes_coeffs(), ref_sum(x.ref, e));
      if (again && now != x.lv)
        fail("not-repeatable", "the same epoch gives a different correction");
      if (again)
        probe("epoch repeated");
      if (x.ref.adm)
        probe("evaluated with admittance");
      x.have_last = true;
      x.le = e;
      x.lv = now;
      cmp(x, "after an evaluation");
      nontrivial();
    } else if (t.is("copy") || t.is("move") || t.is("cctor") || t.is("mctor") || t.is("swapo")) {
      Obj &a = X[t.i(1) % 3], &b = X[t.i(2) % 3];
      const bool self = &a == &b;
      if (!b.o || (t.s(0) == "swapo" && !a.o))
        continue;
      if (self && (t.is("cctor") || t.is("mctor")))
        continue;
      if (self && t.is("move")) { /* state afterwards is unspecified: must only stay destructible */
        Lib lib;
        dso::OceanTide &r = *a.o;
        r = std::move(*b.o);
        a.judged = false;
        opcount("self-move");
        /* give it a value again */
        dso::OceanTide c(dso::TideAtlas{});
        r = c;
        {
          NoLib nl;
          a.ref = RefAtlas();
          a.judged = true;
          a.mismatch = false;
          a.have_last = false;
        }
        continue;
      }
      opcount(t.s(0).c_str());
      {
        Lib lib;
        if (t.is("swapo"))
          std::swap(*a.o, *b.o);
        else if (t.is("cctor") || (t.is("copy") && !a.o))
          a.o = std::make_unique<dso::OceanTide>(*b.o);
        else if (t.is("mctor") || (t.is("move") && !a.o)) {
          a.o = std::make_unique<dso::OceanTide>(std::move(*b.o));
        } else if (t.is("copy"))
          *a.o = *b.o;
        else
          *a.o = std::move(*b.o);
      }
      if (t.is("swapo")) {
        if (!self) {
          std::swap(a.ref, b.ref);
          std::swap(a.judged, b.judged);
          std::swap(a.mismatch, b.mismatch);
          std::swap(a.have_last, b.have_last);
          std::swap(a.le, b.le);
          std::swap(a.lv, b.lv);
        }
      } else if (!self) {
        a.ref = b.ref;
        a.judged = b.judged;
        a.mismatch = b.mismatch;
        a.have_last = b.have_last;
        a.le = b.le;
        a.lv = b.lv;
        if (t.is("move") || t.is("mctor")) {
          /* a moved-from model can be destroyed or given a value; half of the
             time it is destroyed at once, else it is assigned a fresh one */
          Lib lib;
          if (t.i(1) & 1)
            b.o.reset();
          else {
            dso::OceanTide c(dso::TideAtlas{});
            *b.o = c;
            NoLib nl;
            b.ref = RefAtlas();
            b.judged = true;
            b.mismatch = b.have_last = false;
          }
        }
      }
      cmp(a, t.s(0).c_str());
      if (b.o)
        cmp(b, "the source");
      nontrivial();
    } else if (t.is("adm")) {
      Obj &x = X[t.i(1) % 3];
      const long k = t.i(2);
      RefAtlas R = ref_atlas(W, k, -1, -1, true);
      if (!x.o || R.bad || R.vague)
        continue;
      opcount("set admittance");
      int st = 0;
      {
        Lib lib;
        Eigen::Matrix<int, Eigen::Dynamic, 6> D((int)R.a.D.size(), 6);
        Eigen::MatrixXd A((int)R.a.A.size(), (int)R.a.D.size());
        for (size_t i = 0; i < R.a.D.size(); i++)
          for (int j = 0; j < 6; j++)
            D((int)i, j) = R.a.D[i][(size_t)j];
        for (size_t i = 0; i < R.a.A.size(); i++)
          for (size_t j = 0; j < R.a.D.size(); j++)
            A((int)i, (int)j) = R.a.A[i][j];
#ifdef SPARSE_ADMITTANCE_MATRIX
        Eigen::SparseMatrix<double> SA = A.sparseView();
        dso::GroopsTideModel g(D, SA);
#else
        dso::GroopsTideModel g(D, A);
#endif
        st = x.o->set_groops_admittance(g);
      }
      x.have_last = false;
      const bool fits = R.a.A.size() == x.ref.w.size();
      if (st && fits && x.judged)
        fail("admittance-rejected", "fitting admittance information is rejected");
      if (st) {
        cmp(x, "after refused admittance");
        continue;
      }
      x.ref.adm = true;
      x.ref.a = R.a;
      x.mismatch = !fits;
      probe(fits ? "admittance attached" : "foreign admittance attached");
      cmp(x, "after attaching admittance");
    } else if (t.is("drop")) {
      Obj &x = X[t.i(1) % 3];
      opcount("destroy");
      {
        Lib lib;
        x.o.reset();
      }
      x.have_last = false;
    }
  }
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  for (int k = 0; k < 3; k++)
    X[k].o.reset();
  check_leaks("at the end");
}
