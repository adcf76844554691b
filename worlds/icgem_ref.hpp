/* ICGEM gravity field files: independent header and data reader (long double),
 * shared by the worlds that read such files. */
#ifndef VERIF_ICGEM_REF_HPP
#define VERIF_ICGEM_REF_HPP
#include "files.hpp"
#include "datetime/calendar.hpp"
#include <cmath>
#include <set>
namespace icref {
using namespace sim;
typedef long double LD;
using Dt = dso::Datetime<dso::nanoseconds>;
/* ---- reference ------------------------------------------------------------- */
struct Header {
  bool toolong = false; /* a value does not fit the reader: refused or shortened */
  bool bad = false;   /* must be reported */
  bool vague = false; /* may be reported; values not judged */
  std::string product, model, tide = "unknown", norm = "fully_normalized";
  double gm = 0, re = 0;
  long nmax = 0;
  int err = 0; /* 0 no, 1 calibrated, 2 formal, 3 both */
  bool errunknown = false;
  int version = 1;
  size_t data = 0; /* offset of the data section in the text */
};
inline bool starts(const std::string &a, const std::string &b) { return a.compare(0, b.size(), b) == 0; }
inline bool strict_num(std::string w, double &v, bool v1, bool &vague) {
  if (v1)
    for (size_t i = 0; i + 1 < w.size(); i++)
      if ((w[i] == 'D' || w[i] == 'd') && (w[i + 1] == '+' || w[i + 1] == '-'))
        w[i] = 'e';
  if (w.empty())
    return false;
  size_t k = 0;
  if (w[0] == '+') {
    if (!v1)
      vague = true;
    k = 1;
    while (v1 && w[k] == '+')
      k++;
  }
  const std::string b = w.substr(k);
  /* decimal numbers only: [-]digits[.digits][e[+-]digits] */
  size_t i = 0, dig = 0;
  if (b[i] == '-')
    i++;
  while (i < b.size() && isdigit((unsigned char)b[i]))
    i++, dig++;
  if (i < b.size() && b[i] == '.') {
    i++;
    while (i < b.size() && isdigit((unsigned char)b[i]))
      i++, dig++;
  }
  if (!dig)
    return false;
  if (i < b.size() && (b[i] == 'e' || b[i] == 'E')) {
    size_t j = i + 1;
    if (j < b.size() && (b[j] == '+' || b[j] == '-'))
      j++;
    size_t d0 = j;
    while (j < b.size() && isdigit((unsigned char)b[j]))
      j++;
    if (j == d0)
      return false;
    i = j;
  }
  if (i != b.size())
    return false;
  v = strtod(b.c_str(), nullptr);
  if (!std::isfinite(v) || (v != 0 && std::fabs(v) < 1e-300))
    vague = true; /* out of range: reported or rounded */
  return true;
}
inline bool strict_int(const std::string &w, long &v) {
  size_t i = w[0] == '-' ? 1 : 0;
  if (w.size() == i || w.size() > 11)
    return false;
  for (size_t k = i; k < w.size(); k++)
    if (!isdigit((unsigned char)w[k]))
      return false;
  v = strtol(w.c_str(), nullptr, 10);
  return v >= -2147483648L && v <= 2147483647L;
}
/* blank separated (blank only) tokens; tabs etc. stay inside tokens */
inline std::vector<std::string> btok(const std::string &l) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < l.size()) {
    while (p < l.size() && l[p] == ' ')
      p++;
    size_t q = p;
    while (q < l.size() && l[q] != ' ')
      q++;
    if (q > p)
      v.push_back(l.substr(p, q - p));
    p = q;
  }
  return v;
}
inline bool has_ctl(const std::string &s) {
  for (unsigned char c : s)
    if (c < ' ' || c >= 127)
      return true;
  return false;
}
inline Header ref_header(const std::string &text) {
  Header h;
  size_t p = 0;
  bool end = false;
  std::set<std::string> seen;
  int lines = 0;
  while (p < text.size()) {
    size_t q = text.find('\n', p);
    std::string l = text.substr(p, q == std::string::npos ? std::string::npos : q - p);
    p = q == std::string::npos ? text.size() : q + 1;
    if (l.size() > 254) {
      h.bad = false;
      h.vague = true; /* documented limit of the reader */
      return h;
    }
    l = l.c_str();
    if (++lines > 900) {
      h.vague = true;
      return h;
    }
    if (starts(l, "end_of_head")) {
      end = true;
      if (q == std::string::npos)
        h.vague = true;
      h.data = p;
      break;
    }
    auto w = btok(l);
    if (w.empty())
      continue;
    static const char *KW[] = {"product_type", "modelname", "earth_gravity_constant", "radius", "max_degree",
                               "errors",       "tide_system", "norm", "format"};
    const char *kw = nullptr;
    for (auto k : KW)
      if (starts(w[0], k)) {
        kw = k;
        break;
      }
    if (!kw)
      continue;
    if (w[0] != kw)
      h.vague = true;
    if (has_ctl(l))
      h.vague = true;
    if (w.size() < 2) {
      h.bad = true;
      return h;
    }
    seen.insert(kw);
    size_t a = l.find_first_not_of(' ');
    a = l.find_first_not_of(' ', a + w[0].size());
    std::string arg = l.substr(a);
    while (!arg.empty() && arg.back() == ' ')
      arg.pop_back();
    const std::string k = kw;
    bool vg = false;
    auto str = [&](std::string &out, size_t cap) {
      out = arg;
      if (l.size() - a >= cap)
        h.toolong = true;
    };
    if (k == "product_type")
      str(h.product, 64);
    else if (k == "modelname")
      str(h.model, 128);
    else if (k == "tide_system")
      str(h.tide, 64);
    else if (k == "norm")
      str(h.norm, 64);
    else if (k == "earth_gravity_constant" || k == "radius") {
      double &d = k == "radius" ? h.re : h.gm;
      if (!strict_num(w[1], d, false, vg)) {
        h.bad = true;
        return h;
      }
    } else if (k == "max_degree") {
      if (!strict_int(w[1], h.nmax) || h.nmax < 0) {
        h.bad = true;
        return h;
      }
    } else if (k == "errors") {
      h.errunknown = false;
      if (starts(w[1], "calibrated_and_formal"))
        h.err = 3;
      else if (starts(w[1], "calibrated"))
        h.err = 1;
      else if (starts(w[1], "formal"))
        h.err = 2;
      else if (starts(w[1], "no"))
        h.err = 0;
      else {
        h.err = 0;
        h.errunknown = true;
      }
    } else if (k == "format") {
      if (starts(w[1], "icgem1.0"))
        h.version = 1;
      else if (starts(w[1], "icgem2.0"))
        h.version = 2;
      else {
        h.bad = true;
        return h;
      }
    }
    if (vg)
      h.vague = true;
  }
  if (!end)
    h.bad = true;
  for (auto k : {"earth_gravity_constant", "radius", "max_degree"})
    if (!seen.count(k))
      h.bad = true;
  return h;
}
struct Cell {
  LD c = 0, s = 0, tc = 0, ts = 0;
  int terms = 0, statics = 0;
};
struct Ref {
  bool bad = false, may = false, vague = false;
  std::map<std::pair<int, int>, Cell> m;
  std::string why;
};
inline bool date8(const std::string &w, Dt &t) {
  int y = atoi(w.substr(0, 4).c_str()), m = atoi(w.substr(4, 2).c_str()), d = atoi(w.substr(6, 2).c_str());
  static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  if (m < 1 || m > 12 || d < 1 || d > L[m - 1] + (m == 2 && leap))
    return false;
  t = Dt(dso::year(y), dso::month(m), dso::day_of_month(d), dso::nanoseconds(0));
  return true;
}
inline bool ref_date(const std::string &w, bool v1, Dt &t, bool &vague) {
  auto dg = [&](size_t a, size_t n) {
    for (size_t k = a; k < a + n; k++)
      if (k >= w.size() || !isdigit((unsigned char)w[k]))
        return false;
    return true;
  };
  if (v1) {
    if (w.size() != 8) {
      vague = w.size() > 8 && dg(0, 8);
      return vague && date8(w, t);
    }
    return dg(0, 8) && date8(w, t);
  }
  if (w.size() != 13) {
    vague = w.size() > 13 && dg(0, 8) && w[8] == '.' && dg(9, 4);
    return vague && date8(w, t);
  }
  if (!dg(0, 8) || w[8] != '.' || !dg(9, 4) || !date8(w, t))
    return false;
  int h = atoi(w.substr(9, 2).c_str()), m = atoi(w.substr(11, 2).c_str());
  if (h > 23 || m > 59)
    vague = true;
  t = t.add_seconds(dso::nanoseconds((h * 3600L + m * 60L) * 1000000000L));
  return true;
}
inline LD years(const Dt &a, const Dt &b) {
  LD d = (LD)a.imjd().as_underlying_type() - b.imjd().as_underlying_type();
  LD s = ((LD)a.sec().as_underlying_type() - (LD)b.sec().as_underlying_type()) / 1e9L;
  return (d + s / 86400.0L) / 365.25L;
}
inline Ref ref_data(const std::string &text, const Header &h, bool eio, int n, int m, const Dt &t) {
  Ref r;
  const bool v1 = h.version == 1;
  const int ec = h.err == 0 ? 0 : h.err == 3 ? 4 : 2;
  const LD PI2 = 6.283185307179586476925286766559005768L;
  int cn = -1, cm = -1;
  LD dt = 0;
  auto bad = [&](const char *why, const std::string &l) {
    if (!r.bad)
      r.why = std::string(why) + ": " + l.substr(0, 90);
    r.bad = true;
  };
  auto L = text_lines(h.data <= text.size() ? text.substr(h.data) : "");
  std::map<std::string, int> dup;
  for (auto l : L) {
    if (l.size() > 254)
      r.may = r.vague = true;
    l = l.c_str();
    auto w = btok(l);
    if (w.empty()) {
      r.may = true;
      continue;
    }
    if (l[0] == ' ')
      r.may = true;
    if (has_ctl(l)) { /* e.g. a newline damaged into a vertical tab */
      r.may = r.vague = true;
      continue;
    }
    std::string k = w[0];
    bool dotkey = v1 && k == "dot";
    if (dotkey)
      k = "trnd";
    if (k != "gfc" && k != "gfct" && k != "trnd" && k != "asin" && k != "acos") {
      /* keyword glued to the degree */
      bad("unknown keyword", l);
      continue;
    }
    if (v1) { /* the v1 reader takes blanks and plus signs alike as separators: a torn
                 line with a lone plus sign may mean anything */
      bool odd = false;
      for (auto &x : w)
        odd |= x == "+" || starts(x, "++") || starts(x, "+-");
      if (odd) {
        r.may = r.vague = true;
        continue;
      }
    }
    long dn, dm;
    double C, S;
    bool vg = false;
    if (w.size() < 5 || !strict_int(w[1], dn) || !strict_int(w[2], dm) || !strict_num(w[3], C, v1, vg) ||
        !strict_num(w[4], S, v1, vg)) {
      if (w.size() >= 5 && (w[1][0] == '+' || w[2][0] == '+'))
        r.may = r.vague = true;
      else
        bad("unreadable fields", l);
      continue;
    }
    if (dn < 0 || dm < 0 || dm > dn) {
      bad("impossible degree/order", l);
      continue;
    }
    const bool in = dn <= n && dm <= m;
    Dt t0 = Dt::min(), t1 = Dt::max();
    double per = 0;
    size_t c = 5 + (size_t)ec;
    auto date = [&](Dt &d) {
      bool v = false;
      if (c >= w.size() || !ref_date(w[c], v1, d, v))
        return false;
      if (v)
        vg = true;
      c++;
      return true;
    };
    auto period = [&]() {
      if (c >= w.size() || !strict_num(w[c], per, v1, vg))
        return false;
      c++;
      return true;
    };
    bool ok = true;
    if (k != "gfc") {
      if (v1) {
        if (k == "gfct")
          ok = date(t0);
        if (k == "asin" || k == "acos")
          ok = period();
      } else {
        ok = date(t0) && date(t1);
        if (ok && (k == "asin" || k == "acos"))
          ok = period();
      }
      if (ok && !(v1 && k == "trnd") && c != w.size())
        ok = false; /* more columns than the error model has */
    }
    bool glued = false; /* a date longer than its format: a reader may take the rest for the next field */
    if (!v1)
      for (size_t q = 5 + (size_t)ec; q < w.size(); q++)
        glued |= w[q].size() > 13 && w[q][8] == '.';
    bool minus = false; /* a minus sign inside a date or between two fields: a reader may take it for a negative part */
    for (size_t q = 5 + (size_t)ec; q < w.size(); q++)
      minus |= w[q].find('-') != std::string::npos && w[q].size() >= 8 && isdigit((unsigned char)w[q].back());
    if (!ok && k != "gfc" && (minus || glued)) {
      r.may = r.vague = true;
      continue;
    }
    if (!ok) {
      bad("unreadable date or period", l);
      continue;
    }
    if ((k == "asin" || k == "acos") && per == 0)
      r.may = r.vague = true;
    if (vg)
      r.may = r.vague = true;
    if (dup[k + "/" + std::to_string(dn) + "/" + std::to_string(dm) + "/" + (k == "gfc" || c >= w.size() || c == 0 ? l : w[c - 1])]++)
      r.may = true;
    if (!in)
      continue;
    if (v1) {
      if (k == "gfct") {
        cn = (int)dn;
        cm = (int)dm;
        dt = years(t, t0);
      } else if (k != "gfc" && (cn != dn || cm != dm)) {
        bad("time-varying term without its reference epoch", l);
        continue;
      }
    } else if (k != "gfc") {
      if (t < t0 || !(t < t1))
        continue;
      dt = years(t, t0);
    }
    Cell &x = r.m[{(int)dn, (int)dm}];
    LD f = 1, tf = 0;
    if (k == "trnd") {
      f = dt;
      tf = fabsl(dt) * 1e-14L + 1e-15L; /* the epoch difference is a rounded double */
    } else if (k == "asin" || k == "acos") {
      LD a = PI2 / per * dt;
      f = k == "asin" ? sinl(a) : cosl(a);
      tf = 1e-14L * (1 + fabsl(a));
    }
    x.terms++;
    x.statics += k == "gfc";
    x.c += f * C;
    x.s += f * S;
    x.tc += (tf + fabsl(f) * 1e-15L) * fabsl((LD)C);
    x.ts += (tf + fabsl(f) * 1e-15L) * fabsl((LD)S);
  }
  if (eio)
    bad("I/O error while reading the data", "");
  return r;
}

} // namespace icref
#endif
