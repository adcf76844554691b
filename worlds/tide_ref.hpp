/* Tidal arguments from first principles (long double), shared by tide worlds. */
#ifndef VERIF_TIDE_REF_HPP
#define VERIF_TIDE_REF_HPP
#include "sim.hpp"
#include <cmath>
#include <map>
namespace tideref {
typedef long double LD;
const LD PI = 3.14159265358979323846264338327950288L;
inline LD wrap(LD a) {
  a = fmodl(a, 2 * PI);
  return a < 0 ? a + 2 * PI : a;
}
/* IAU 2006 GMST */
inline LD gmst(long ttd, double tts, long utd, double uts) {
  const LD tu = ((LD)utd - 51544.5L) + (LD)uts / 86400.0L;
  const LD era = 2 * PI * wrap(2 * PI * (0.7790572732640L + 0.00273781191135448L * tu + fmodl(tu, 1.0L))) / (2 * PI);
  const LD t = (((LD)ttd - 51544.5L) + (LD)tts / 86400.0L) / 36525.0L;
  const LD as = 0.014506L + (4612.156534L + (1.3915817L + (-0.00000044L + (-0.000029956L - 0.0000000368L * t) * t) * t) * t) * t;
  return wrap(era + as * (2 * PI / 1296000.0L));
}
struct Epoch {
  long ttd, utd;
  double tts, uts;
  double del[5];
};
/* tau s h p N' ps */
inline void doodson(const Epoch &e, LD *b) {
  const double *f = e.del;
  const LD s = (LD)f[2] + f[4];
  b[1] = s;
  b[2] = s - f[3];
  b[3] = s - f[0];
  b[4] = -(LD)f[4];
  b[5] = s - f[3] - f[1];
  b[0] = gmst(e.ttd, e.tts, e.utd, e.uts) + PI - s;
}
inline LD argument(const LD *b, const int *n, LD pifac) {
  LD a = pifac * PI / 2;
  for (int i = 0; i < 6; i++)
    a += b[i] * n[i];
  return a;
}
/* one epoch on a script line: "<ttd> <tts> <utd> <uts> <5 delaunay>" */
inline std::string gen_epoch(sim::Rng &r) {
  char b[400];
  const long d = r.range(40000, 65000);
  const double s = r.chance(.1) ? 0 : r.chance(.1) ? 86399.999999 : r.uni(0, 86400);
  double u = s - r.uni(30, 80);
  long ud = d;
  if (u < 0)
    u += 86400, ud--;
  double a[5];
  for (double &x : a)
    x = r.chance(.1) ? 0 : r.uni(0, 6.283185307179586);
  snprintf(b, sizeof b, "%ld %.17g %ld %.17g %.17g %.17g %.17g %.17g %.17g", d, s, ud, u, a[0], a[1], a[2], a[3], a[4]);
  return b;
}
/* half of the time an epoch that shares parts with an earlier one of the run:
   the same TT with another UT1, the same instant with other arguments, ... */
inline std::string gen_related(sim::Rng &r, std::vector<std::string> &ep) {
  std::string e = gen_epoch(r);
  if (!ep.empty() && r.chance(.5)) {
    sim::Tok n(e), o(r.pick(ep));
    e.clear();
    const int k = r.below(5);
    for (int i = 0; i < 9; i++) {
      /* k: 0 same TT, 1 same TT and UT1, 2 same arguments, 3 same TT and arguments, 4 the same epoch */
      const bool old = i < 2 ? k != 2 : i < 4 ? k == 1 || k == 4 : k >= 2;
      std::string x = old ? o.s(i) : n.s(i);
      if ((k == 0 || k == 3) && i == 2)
        x = o.s(2);
      if ((k == 0 || k == 3) && i == 3) {
        char b[40];
        snprintf(b, sizeof b, "%.17g", o.d(3) < 86000 ? o.d(3) + r.uni(.001, r.chance(.5) ? 1 : 300) : o.d(3) - r.uni(.001, 300));
        x = b;
      }
      e += (i ? " " : "") + x;
    }
  }
  ep.push_back(e);
  return e;
}
inline Epoch get_epoch(const sim::Tok &t, int k) {
  Epoch e;
  e.ttd = t.i(k);
  e.tts = t.d(k + 1);
  e.utd = t.i(k + 2);
  e.uts = t.d(k + 3);
  for (int i = 0; i < 5; i++)
    e.del[i] = t.d(k + 4 + i);
  return e;
}
} // namespace tideref
#endif
