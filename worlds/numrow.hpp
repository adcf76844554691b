/* Rows of blank-separated numbers as a text file should be judged: OK (every
 * field is a whole number/real), BAD (missing or partly readable field), VAGUE
 * (odd but arguable: glued negative numbers, control characters, inf/nan). */
#ifndef VERIF_NUMROW_HPP
#define VERIF_NUMROW_HPP
#include "files.hpp"
#include <cerrno>
namespace numrow {
enum Q { OK, BAD, VAGUE };
inline bool ctl(const std::string &l) {
  for (unsigned char c : l)
    if (c < 32 || c >= 127)
      return true;
  return false;
}
inline bool blank(const std::string &l) { return l.find_first_not_of(" \t\r\v\f") == std::string::npos; }
/* length of a plain number at p (0: none); real: with fraction/exponent */
inline size_t plain(const char *p, bool real) {
  const char *q = p;
  if (*q == '-')
    q++;
  const char *d = q;
  size_t nd = 0;
  while (*q >= '0' && *q <= '9')
    q++, nd++;
  if (real && *q == '.') {
    q++;
    while (*q >= '0' && *q <= '9')
      q++, nd++;
  }
  (void)d;
  if (!nd)
    return 0;
  if (real && (*q == 'e' || *q == 'E')) {
    const char *x = q + 1;
    if (*x == '+' || *x == '-')
      x++;
    if (*x >= '0' && *x <= '9') {
      while (*x >= '0' && *x <= '9')
        x++;
      q = x;
    }
  }
  return (size_t)(q - p);
}
/* kinds: 'i' or 'r' per field */
inline Q row(const std::string &l, const char *kinds, std::vector<double> &v) {
  v.clear();
  if (ctl(l))
    return VAGUE;
  const char *p = l.c_str();
  Q q = OK;
  for (const char *k = kinds; *k; k++) {
    while (*p == ' ')
      p++;
    if (*p == '+')
      return VAGUE;
    const char *a = p + (*p == '-');
    if (*k == 'r' && (!strncasecmp(a, "inf", 3) || !strncasecmp(a, "nan", 3)))
      return VAGUE;
    const size_t n = plain(p, *k == 'r');
    if (!n)
      return q == OK ? BAD : q;
    std::string t(p, n);
    if (*k == 'i') {
      errno = 0;
      long x = strtol(t.c_str(), nullptr, 10);
      if (errno || x > 2147483647L || x < -2147483648L)
        return BAD;
      v.push_back((double)x);
    } else {
      double x = strtod(t.c_str(), nullptr);
      if (!(x <= 1e300 && x >= -1e300) || (x != 0 && x < 1e-300 && x > -1e-300))
        q = VAGUE;
      v.push_back(x);
    }
    p += n;
    if (*p == '-')
      q = VAGUE; /* glued */
    else if (*p && *p != ' ')
      return q == OK ? BAD : q;
  }
  while (*p == ' ')
    p++;
  if (*p)
    q = VAGUE; /* further text on the line */
  return q;
}
} // namespace numrow
#endif
