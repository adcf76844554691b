/* World "atmtide": atmospheric tide models built from tidal AOD1B products on
 * the simulated disk (C17). cfg "x" well formed, "io" delivery faults, "dmg"
 * damage. Oracle: independent reader of the products, independent tidal
 * arguments, sum over the waves the reference says the model holds. */
#include "sim.hpp"
#include "files.hpp"
#include "aod1b_ref.hpp"
#include "tide_ref.hpp"
#include "atmospheric_tides.hpp"
#include <memory>
#include <set>
using namespace sim;
using namespace aodref;
using tideref::LD;
const char *const world::name = "atmtide";

typedef std::map<std::pair<int, int>, Coef> CMap;
struct RefWave {
  const WaveId *id = nullptr;
  CMap c, s;
  int n = 0, m = 0;
};
struct RefLoad {
  bool bad = false, vague = false;
  std::string why;
  RefWave w;
};
static RefLoad ref_load(const std::string &text, int n, int m) {
  RefLoad o;
  Hdr h = ref_header(text);
  if (h.vague || h.clash) {
    o.vague = true;
    return o;
  }
  if (h.bad) {
    o.bad = true;
    o.why = h.why;
    return o;
  }
  if (!h.hwave || !(o.w.id = find_wave(h.wave))) {
    o.bad = true;
    o.why = "no known wave is named";
    return o;
  }
  if (n < 0)
    n = (int)h.nmax;
  if (m < 0) {
    m = n;
    if (n != h.nmax)
      o.vague = true; /* which order is meant is not documented */
  }
  if (n > h.nmax || m > n) {
    o.bad = true;
    o.why = "inadmissible degree/order";
    return o;
  }
  if (h.nmax > 2000) {
    o.vague = true;
    return o;
  }
  o.w.n = n;
  o.w.m = m;
  Reader R;
  R.bind(text);
  R.pos = h.data;
  for (int k = 0; k < 2; k++) {
    char key[80];
    if (R.pos >= R.L.size()) {
      o.bad = true;
      o.why = "the data ends before a data set";
      return o;
    }
    std::string l = R.L[R.pos++];
    if (has_ctl(l)) {
      o.vague = true;
      return o;
    }
    auto w = btok(l);
    snprintf(key, sizeof key, "DATA SET 0%d:", k + 1);
    long lines = 0;
    /* DATA SET 01: N COEFFICIENTS OF TYPE cos */
    if (w.size() != 8 || w[0] != "DATA" || w[1] != "SET" || !isint(w[3], lines) || lines < 0 || w[4] != "COEFFICIENTS" || w[5] != "OF" ||
        w[6] != "TYPE" || w[7] != (k ? "sin" : "cos") || w[2] != key + 9) {
      /* glued or padded fields may be read */
      std::string a, b;
      for (auto &x : w)
        a += x;
      for (char c : l)
        if (c != ' ')
          b += c;
      snprintf(key, sizeof key, "DATASET0%d:", k + 1);
      if (starts(a, key) && a.find(k ? "COEFFICIENTSOFTYPEsin" : "COEFFICIENTSOFTYPEcos") != std::string::npos && a[10] != '-')
        o.vague = true;
      o.bad = true;
      o.why = "malformed data set header: " + l.substr(0, 60);
      return o;
    }
    int cn, cm;
    {
      auto q = R.collect(lines, n, m, k ? o.w.s : o.w.c, cn, cm, o.why, false);
      if (q == aodref::BAD) {
        o.bad = true;
        return o;
      }
      if (q != aodref::OK)
        o.vague = true;
    }
    if (o.vague)
      return o;
  }
  if (R.pos < R.L.size()) {
    bool text = false;
    for (size_t k = R.pos; k < R.L.size(); k++)
      text |= R.L[k].find_first_not_of(" \t\r") != std::string::npos;
    if (text) {
      o.bad = true;
      o.why = "data after the last data set";
    } else
      o.vague = true;
  }
  return o;
}

/* ---- generation --------------------------------------------------------------- */
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  const int nf = r.range(1, cfg == "x" ? 6 : 3);
  std::vector<int> nm;
  const bool same = r.chance(.3);
  const int base = r.range(1, 7);
  for (int k = 0; k < nf; k++) {
    char b[16];
    snprintf(b, sizeof b, "tide%d", k);
    const int n = same ? base : r.chance(.1) ? r.range(0, 1) : r.range(1, r.chance(.1) ? 25 : 8);
    nm.push_back(n);
    static const char *ODD[] = {"X9", "k1", "K1x", "K", "Q1", ""};
    const char *w = r.chance(.06) ? ODD[r.below(6)] : WAVES[r.below(NW)].name;
    gen_tidal(r, s, b, n, w, true);
    if (cfg != "dmg")
      Files::gen_delivery(r, s, b, script_bytes(s, b));
    if (cfg == "io" && (k == 0 || r.chance(.5)))
      Files::gen_io_fault(r, s, b, script_bytes(s, b), 4);
    if (cfg == "dmg" && (k == 0 || r.chance(.5)))
      Files::gen_damage(r, s, b, script_bytes(s, b));
  }
  std::vector<std::string> ep;
  const int nops = r.range(3, 14);
  for (int i = 0; i < nops; i++) {
    const int slot = r.below(2), k = r.below(nf);
    switch (i == 0 ? 0 : r.below(13)) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4: {
      int n = r.chance(.3) ? -1 : r.chance(.08) ? nm[(size_t)k] + r.range(0, 2) : r.range(0, nm[(size_t)k]);
      int m = r.chance(.3) ? -1 : r.chance(.08) ? n + r.range(0, 2) : r.range(0, n < 0 ? nm[(size_t)k] : n);
      s.add("append %d %d %d %d", slot, k, n, m);
      break;
    }
    case 5:
    case 6:
    case 7:
    case 8:
      s.add("eval %d %s", slot, tideref::gen_related(r, ep).c_str());
      break;
    case 9:
      s.add("copy %d %d", slot, 1 - slot);
      break;
    case 10:
      s.add("%s %d %d", r.chance(.5) ? "move" : "swapm", slot, 1 - slot);
      break;
    case 12: {
      /* read a product's wave straight into coefficients the caller holds */
      const int n = r.chance(.4) ? -1 - r.below(2) : r.chance(.08) ? nm[(size_t)k] + r.range(0, 2) : r.range(0, nm[(size_t)k]);
      const int m = r.chance(.4) ? -1 : r.chance(.08) ? n + r.range(0, 2) : r.range(0, n < 0 ? nm[(size_t)k] : n);
      const int hn = n < 0 ? nm[(size_t)k] : n, hm = m < 0 ? hn : m;
      int c[4];
      for (int q = 0; q < 4; q += 2) {
        c[q] = std::max(0, hn + (r.chance(.12) ? -1 : r.chance(.5) ? 0 : r.range(0, 5)));
        c[q + 1] = std::min(c[q], std::max(0, hm + (r.chance(.12) ? -1 : r.chance(.5) ? 0 : r.range(0, 5))));
      }
      s.add("direct %d %d %d %d %d %d %d %d %d", slot, k, n, m, c[0], c[1], c[2], c[3], r.range(1, 3));
      break;
    }
    case 11:
      if (r.chance(.3))
        s.add("fresh %d %d", slot, r.chance(.3) ? r.range(60, 90) : r.range(0, 63));
      else
        s.add("again %d", slot);
      break;
    }
  }
  for (int k = 0; k < 2; k++)
    s.add("eval %d %s", k, tideref::gen_related(r, ep).c_str());
}

/* ---- execution ------------------------------------------------------------------ */
struct Model {
  std::unique_ptr<dso::AtmosphericTide> a;
  std::vector<RefWave> w;
  bool judged = true;
  std::string name;
};
static void compare(const Model &m, const char *what) {
  if (!m.judged)
    return;
  const auto &W = m.a->atlas().waves();
  if (W.size() != m.w.size())
    fail("wave-count", "%s: the model holds %d waves, %d were appended", what, (int)W.size(), (int)m.w.size());
  int dn = 0, dm = 0;
  for (size_t k = 0; k < W.size(); k++) {
    const RefWave &q = m.w[k];
    const auto &g = W[k];
    if (strcmp(g.name(), q.id->name))
      fail("wave-identity", "%s: wave %d is named \"%.20s\", appended was %s", what, (int)k, g.name(), q.id->name);
    for (int i = 0; i < 6; i++)
      if (g.doodson()(i) != q.id->n[i])
        fail("wave-identity", "%s: wave %d (%s): Doodson multiplier %d is %d, not %d", what, (int)k, q.id->name, i, g.doodson()(i), q.id->n[i]);
    if (g.doodson().pifactor() != q.id->pif || g.wave().period() != q.id->deg)
      fail("wave-identity", "%s: wave %d (%s): phase factor %g, speed %.10g", what, (int)k, q.id->name, g.doodson().pifactor(), g.wave().period());
    for (int t = 0; t < 2; t++) {
      const auto &cs = t ? g.stokes_sin() : g.stokes_cos();
      const CMap &R = t ? q.s : q.c;
      if (cs.max_degree() != q.n || cs.max_order() != q.m)
        fail("wave-shape", "%s: wave %d (%s) %s holds (%d,%d), asked (%d,%d)", what, (int)k, q.id->name, t ? "sin" : "cos", cs.max_degree(),
             cs.max_order(), q.n, q.m);
      for (int i = 0; i <= q.n; i++)
        for (int j = 0; j <= std::min(i, q.m); j++) {
          auto it = R.find({i, j});
          const Coef c = it == R.end() ? Coef{0, 0} : it->second;
          if (cs.C(i, j) != c.c || cs.S(i, j) != c.s)
            fail("wave-coeff", "%s: wave %d (%s) %s (%d,%d): %.17g %.17g, file says %.17g %.17g", what, (int)k, q.id->name, t ? "sin" : "cos", i,
                 j, cs.C(i, j), cs.S(i, j), c.c, c.s);
        }
    }
    dn = std::max(dn, q.n);
    dm = std::max(dm, q.m);
  }
  if (m.a->max_degree() != dn || m.a->max_order() != dm)
    fail("model-shape", "%s: the model reports (%d,%d), its waves reach (%d,%d)", what, m.a->max_degree(), m.a->max_order(), dn, dm);
  if (m.name != m.a->atlas().name() && m.name.size() < 64)
    fail("model-name", "%s: name is \"%.70s\"", what, m.a->atlas().name());
}
void world::execute(const Script &s, const std::string &) {
  Files fs;
  std::vector<std::string> ops;
  for (auto &l : s.lines)
    if (!fs.feed(l))
      ops.push_back(l);
  fs.materialise();
  Model M[2];
  {
    Lib lib;
    for (auto &m : M)
      m.a = std::make_unique<dso::AtmosphericTide>();
  }
  std::map<int, std::pair<tideref::Epoch, std::vector<double>>> last;
  for (auto &l : ops) {
    Tok t(l);
    Model &m = M[t.i(1) & 1], &o = M[1 - (t.i(1) & 1)];
    evals();
    if (t.is("append")) {
      char nm[24];
      snprintf(nm, sizeof nm, "tide%ld", t.i(2));
      opcount("append");
      const int o0 = (int)Disk::opens(nm);
      const long f0 = Disk::fired(nm);
      int st;
      {
        Lib lib;
        st = m.a->append_wave(nm, (int)t.i(3), (int)t.i(4));
      }
      last.erase((int)t.i(1) & 1);
      /* the header and the data come from two opens */
      auto v1 = fs.view(nm, o0 + 1), v2 = fs.view(nm, o0 + 2);
      RefLoad R;
      const bool fired = Disk::fired(nm) > f0;
      if (!v1.exists || !v2.exists) {
        R.bad = true;
        R.why = "the file cannot be opened";
      } else if (fs.recount(nm, o0, 2)) {
        R.vague = true;
      } else {
        /* a reader that takes one pass sees the first view */
        Hdr h1 = ref_header(v1.text);
        R = ref_load(v2.text, (int)t.i(3), (int)t.i(4));
        if (v1.text != v2.text || v1.eio != v2.eio) {
          if (h1.bad || !R.bad)
            R.vague = true;
        } else if (v1.eio && !R.vague && !R.bad) {
          R.bad = true;
          R.why = "the data cannot be read";
          if (v1.text == fs.data[nm])
            R.vague = true; /* fails only after everything was read */
        }
      }
      trace("append %s (%ld,%ld) -> %d", nm, t.i(3), t.i(4), st);
      if (st) {
        probe("append refused");
        bool dup = false;
        for (auto &w : m.w)
          dup |= R.w.id == w.id;
        if (!R.bad && !R.vague && !fired && !fs.damaged[nm] && !dup)
          fail("good-file-rejected", "%s: a well-formed product is rejected", nm);
        compare(m, "after a refused append");
        nontrivial();
        continue;
      }
      if (R.bad && !R.vague)
        fail("error-as-success", "%s: appended, but %s", nm, R.why.c_str());
      if (R.vague) {
        m.judged = false;
        continue;
      }
      m.w.push_back(R.w);
      compare(m, "after an append");
      nontrivial();
      probe("wave appended");
      uint64_t h = 7;
      for (auto &w : m.w)
        h = h * 1000003 + (uint64_t)(w.n * 64 + w.m) * 131 + (uint64_t)(w.id - WAVES);
      state(h);
    } else if (t.is("direct")) {
      char nm[24];
      snprintf(nm, sizeof nm, "tide%ld", t.i(2));
      opcount("read a wave directly");
      const int n = (int)t.i(3), mm = (int)t.i(4), reps = (int)t.i(9);
      std::unique_ptr<dso::Aod1bIn> in;
      std::unique_ptr<dso::StokesCoeffs> C[2];
      const int o0 = (int)Disk::opens(nm);
      bool opened = true;
      {
        Lib lib;
        try {
          in = std::make_unique<dso::Aod1bIn>(nm);
        } catch (std::exception &) {
          opened = false;
        }
        for (int k = 0; k < 2; k++) {
          C[k] = std::make_unique<dso::StokesCoeffs>((int)t.i(5 + 2 * k), (int)t.i(6 + 2 * k), 1.25, 2.5);
          for (int i = 0; i <= C[k]->max_degree(); i++)
            for (int j = 0; j <= std::min(i, C[k]->max_order()); j++)
              C[k]->C(i, j) = 77. + i, C[k]->S(i, j) = -55. - j;
        }
      }
      (void)o0;
      for (int q = 0; opened && q < reps; q++) {
        const int o1 = (int)Disk::opens(nm);
        const long f0 = Disk::fired(nm);
        int st;
        {
          Lib lib;
          st = in->get_tidal_wave_coeffs(*C[0], *C[1], n, mm);
        }
        const auto v = fs.view(nm, o1 + 1);
        if (fs.damaged[nm] || Disk::fired(nm) > f0 || !v.exists || v.text != fs.data[nm] || v.eio || fs.recount(nm, o1, 1)) {
          trace("direct %s (%d,%d) -> %d, the delivery was faulty", nm, n, mm, st);
          break; /* judged through append and by C16 */
        }
        RefLoad R = ref_load(v.text, n, mm);
        if (R.vague || !R.w.id)
          break;
        if (!R.bad)
          for (int k = 0; k < 2; k++)
            if (t.i(5 + 2 * k) < R.w.n || t.i(6 + 2 * k) < R.w.m) {
              R.bad = true;
              R.why = "the coefficients of the caller are too small";
            }
        trace("direct %s (%d,%d) -> %d", nm, n, mm, st);
        nontrivial();
        for (int k = 0; k < 2; k++)
          if (C[k]->max_degree() != t.i(5 + 2 * k) || C[k]->max_order() != t.i(6 + 2 * k))
            fail("wave-shape", "%s: the caller's coefficients of size (%ld,%ld) became (%d,%d)", nm, t.i(5 + 2 * k), t.i(6 + 2 * k),
                 C[k]->max_degree(), C[k]->max_order());
        if (st) {
          if (!R.bad)
            fail("good-file-rejected", "%s: a well-formed product is rejected (direct, %d,%d)", nm, n, mm);
          continue;
        }
        if (R.bad)
          fail("error-as-success", "%s: read directly (%d,%d), but %s", nm, n, mm, R.why.c_str());
        probe("wave read directly");
        for (int k = 0; k < 2; k++)
          for (int i = 0; i <= C[k]->max_degree(); i++)
            for (int j = 0; j <= std::min(i, C[k]->max_order()); j++) {
              const CMap &M = k ? R.w.s : R.w.c;
              auto it = M.find({i, j});
              const Coef c = it == M.end() ? Coef{0, 0} : it->second;
              if (C[k]->C(i, j) != c.c || C[k]->S(i, j) != c.s)
                fail("wave-coeff", "%s read directly, %s (%d,%d): %.17g %.17g, file says %.17g %.17g", nm, k ? "sin" : "cos", i, j, C[k]->C(i, j),
                     C[k]->S(i, j), c.c, c.s);
            }
      }
    } else if (t.is("eval") || t.is("again")) {
      const int si = (int)t.i(1) & 1;
      const bool again = t.is("again");
      if (again && !last.count(si))
        continue;
      const tideref::Epoch e = again ? last[si].first : tideref::get_epoch(t, 2);
      opcount("eval");
      int st;
      {
        Lib lib;
        st = m.a->stokes_coeffs(dso::MjdEpoch((int)e.ttd, dso::FractionalSeconds{e.tts}), dso::MjdEpoch((int)e.utd, dso::FractionalSeconds{e.uts}),
                                e.del);
      }
      if (!m.judged)
        continue;
      if (st)
        fail("eval-refused", "evaluation returns %d", st);
      compare(m, "after an evaluation");
      LD b[6];
      tideref::doodson(e, b);
      const auto &cs = static_cast<const dso::AtmosphericTide &>(*m.a).stokes_coeffs();
      std::map<std::pair<int, int>, std::array<LD, 4>> sum;
      for (auto &w : m.w) {
        const LD a = tideref::argument(b, w.id->n, w.id->pif), ca = cosl(a), sa = sinl(a);
        auto acc = [&](const CMap &q, LD f) {
          for (auto &kv : q) {
            auto &x = sum[kv.first];
            x[0] += f * kv.second.c;
            x[1] += f * kv.second.s;
            x[2] += fabsl((LD)kv.second.c);
            x[3] += fabsl((LD)kv.second.s);
          }
        };
        acc(w.c, ca);
        acc(w.s, sa);
      }
      std::vector<double> now;
      for (int i = 0; i <= cs.max_degree(); i++)
        for (int j = 0; j <= std::min(i, cs.max_order()); j++) {
          auto it = sum.find({i, j});
          std::array<LD, 4> x{};
          if (it != sum.end())
            x = it->second;
          now.push_back(cs.C(i, j));
          now.push_back(cs.S(i, j));
          if (!(fabsl(cs.C(i, j) - x[0]) <= 2e-10L * x[2]) || !(fabsl(cs.S(i, j) - x[1]) <= 2e-10L * x[3]))
            fail("tide-sum", "(%d,%d): %.17g %.17g, the waves sum to %.17Lg %.17Lg", i, j, cs.C(i, j), cs.S(i, j), x[0], x[1]);
        }
      if (again && now != last[si].second)
        fail("not-repeatable", "the same epoch gives a different correction");
      if (again)
        probe("epoch repeated");
      last[si] = {e, now};
      if (m.w.size() > 1)
        probe("several waves summed");
      nontrivial();
    } else if (t.is("copy")) {
      opcount("copy");
      {
        Lib lib;
        *m.a = *o.a;
      }
      m.w = o.w;
      m.judged = o.judged;
      m.name = o.name;
      last.erase((int)t.i(1) & 1);
      compare(m, "after a copy");
      compare(o, "source of a copy");
    } else if (t.is("move")) {
      opcount("move");
      {
        Lib lib;
        *m.a = std::move(*o.a);
        o.a = std::make_unique<dso::AtmosphericTide>();
      }
      m.w = std::move(o.w);
      m.judged = o.judged;
      m.name = o.name;
      o.w.clear();
      o.judged = true;
      o.name.clear();
      last.clear();
      compare(m, "after a move");
    } else if (t.is("swapm")) {
      opcount("swap");
      {
        Lib lib;
        std::swap(*m.a, *o.a);
      }
      std::swap(m.w, o.w);
      std::swap(m.judged, o.judged);
      std::swap(m.name, o.name);
      last.clear();
      compare(m, "after a swap");
      compare(o, "after a swap");
    } else if (t.is("fresh")) {
      opcount("fresh");
      const std::string n((size_t)t.i(2), 'n');
      bool threw = false;
      try {
        Lib lib;
        m.a = std::make_unique<dso::AtmosphericTide>(n.c_str());
      } catch (std::exception &) {
        threw = true;
      }
      if (threw && n.size() < 64)
        fail("name-rejected", "a name of %d characters is rejected", (int)n.size());
      if (threw) {
        Lib lib;
        m.a = std::make_unique<dso::AtmosphericTide>();
      }
      m.name = threw ? "" : n;
      if (!threw && strlen(m.a->atlas().name()) >= 64)
        fail("model-name", "the name does not fit its field");
      m.w.clear();
      m.judged = true;
      last.erase((int)t.i(1) & 1);
      compare(m, "fresh");
    }
  }
  if (Disk::open_fds())
    fail("descriptor-leak", "%d descriptors left open", Disk::open_fds());
  M[0].a.reset();
  M[1].a.reset();
  check_leaks("at the end");
}
