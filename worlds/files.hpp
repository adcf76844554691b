/* Files of a run: content lines, damage and delivery faults, shared by all
 * worlds that read files.
 *   f <name>                 following "l"/"r" lines go to this file
 *   l <escaped>              one text line (newline added)
 *   r <escaped>              raw bytes
 * damage (changes what the medium holds):
 *   trunc <name> <off>       cut at byte off (mod size+1)
 *   flip <name> <off> <xor>  flip bits of one byte
 *   fill <name> <off> <len> <byte>
 *   dropline/dupline/swapline <name> <k>
 * delivery (how the system serves it):
 *   missing <name>; chunk <name> <n>; eintr <name> <n>;
 *   eio <name> <off> <open>; eof <name> <off> <open>; openfail <name> <nth> <errno>
 *   swap <name> <nth> <othername>  replaced by other's content at nth open
 */
#ifndef VERIF_FILES_HPP
#define VERIF_FILES_HPP
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <map>
namespace sim {
struct Files {
  std::map<std::string, std::string> data;  /* what the medium holds */
  std::map<std::string, std::string> clean; /* before damage */
  std::map<std::string, bool> missing, damaged;
  struct Cut {
    long off;
    int open;
  };
  std::map<std::string, std::vector<Cut>> eio, eof;
  std::map<std::string, int> openfail; /* nth */
  std::string cur;

  static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> v;
    size_t p = 0;
    while (p < s.size()) {
      size_t q = s.find('\n', p);
      if (q == std::string::npos)
        q = s.size() - 1;
      v.push_back(s.substr(p, q - p + 1));
      p = q + 1;
    }
    return v;
  }
  static std::string join(const std::vector<std::string> &v) {
    std::string s;
    for (auto &l : v)
      s += l;
    return s;
  }
  /* consume one script line if it is ours */
  bool feed(const std::string &line) {
    if (line.compare(0, 2, "l ") == 0 || line == "l") {
      data[cur] += unesc(line.size() > 2 ? line.substr(2) : "") + "\n";
      clean[cur] = data[cur];
      return true;
    }
    if (line.compare(0, 2, "r ") == 0) {
      data[cur] += unesc(line.substr(2));
      clean[cur] = data[cur];
      return true;
    }
    Tok t(line);
    if (t.is("f")) {
      cur = t.s(1);
      data[cur];
      clean[cur];
      return true;
    }
    const std::string &n = t.s(1);
    if (t.is("mkdir")) {
      for (size_t q = n.find('/'); q != std::string::npos; q = n.find('/', q + 1))
        Disk::mkdir(n.substr(0, q));
      Disk::mkdir(n);
      return true;
    }
    if (t.is("missing")) {
      missing[n] = true;
      return true;
    }
    if (t.is("trunc")) {
      std::string &d = data[n];
      if (!d.empty()) {
        d.resize((size_t)(t.i(2) % (long)(d.size() + 1)));
        damaged[n] = true;
        fault("file_truncated");
      }
      return true;
    }
    if (t.is("flip")) {
      std::string &d = data[n];
      if (!d.empty()) {
        d[(size_t)(t.i(2) % (long)d.size())] ^= (char)t.i(3);
        damaged[n] = true;
        fault("byte_corrupted");
      }
      return true;
    }
    if (t.is("fill")) {
      std::string &d = data[n];
      if (!d.empty()) {
        size_t a = (size_t)(t.i(2) % (long)d.size());
        for (size_t k = a; k < d.size() && k < a + (size_t)t.i(3); k++)
          d[k] = (char)t.i(4);
        damaged[n] = true;
        fault("torn_block");
      }
      return true;
    }
    if (t.is("dropline") || t.is("dupline") || t.is("swapline")) {
      auto v = split(data[n]);
      if (v.size() > 1) {
        size_t k = (size_t)(t.i(2) % (long)v.size());
        if (t.is("dropline"))
          v.erase(v.begin() + (long)k);
        else if (t.is("dupline"))
          v.insert(v.begin() + (long)k, v[k]);
        else
          std::swap(v[k], v[(k + 1) % v.size()]);
        data[n] = join(v);
        damaged[n] = true;
        fault(t.is("dropline") ? "line_lost" : t.is("dupline") ? "line_duplicated" : "lines_reordered");
      }
      return true;
    }
    if (t.is("chunk")) {
      Disk::chunk(n, (int)t.i(2));
      return true;
    }
    if (t.is("eintr")) {
      Disk::eintr(n, (int)t.i(2));
      return true;
    }
    if (t.is("eio") || t.is("eof")) {
      pend.push_back(line);
      return true;
    }
    if (t.is("openfail")) {
      Disk::open_fail(n, (int)t.i(2), t.i(3) == 0 ? ENOENT : t.i(3) == 1 ? EACCES : EMFILE);
      openfail[n] = (int)t.i(2);
      return true;
    }
    if (t.is("swap")) {
      pend.push_back(line);
      return true;
    }
    return false;
  }
  std::vector<std::string> pend;
  /* write everything out */
  void materialise() {
    for (auto &kv : data)
      if (!missing[kv.first])
        Disk::put(kv.first, kv.second);
      else {
        Disk::remove(kv.first);
        fault("file_missing");
      }
    for (auto &l : pend) {
      Tok t(l);
      const std::string &n = t.s(1);
      if (t.is("swap")) {
        Disk::swap_on_open(n, (int)t.i(2), data[t.s(3)]);
        continue;
      }
      long off = t.i(2) % (long)(data[n].size() + 1);
      if (t.is("eio")) {
        Disk::eio(n, off, (int)t.i(3));
        eio[n].push_back({off, (int)t.i(3)});
      } else {
        Disk::eof(n, off, (int)t.i(3));
        eof[n].push_back({off, (int)t.i(3)});
      }
    }
    pend.clear();
  }
  /* content as the k-th open of the file sees it until its end or error */
  struct View {
    std::string text;
    bool exists = true;  /* open succeeds */
    bool eio = false;    /* reading past text fails instead of ending */
  };
  View view(const std::string &n, int nth) {
    View v;
    auto it = data.find(n);
    if (it == data.end() || missing[n]) {
      v.exists = false;
      return v;
    }
    auto of = openfail.find(n);
    if (of != openfail.end() && (of->second < 0 || of->second == nth)) {
      v.exists = false;
      return v;
    }
    v.text = it->second;
    for (auto &c : eof[n])
      if (c.open < 0 || c.open == nth)
        if (c.off < (long)v.text.size())
          v.text.resize((size_t)c.off);
    for (auto &c : eio[n])
      if (c.open < 0 || c.open == nth)
        if (c.off <= (long)v.text.size()) {
          v.text.resize((size_t)c.off);
          v.eio = true;
        }
    return v;
  }
  /* some fault hits one particular open only */
  bool nth_only(const std::string &n) {
    for (auto &c : eof[n])
      if (c.open >= 0)
        return true;
    for (auto &c : eio[n])
      if (c.open >= 0)
        return true;
    auto of = openfail.find(n);
    return of != openfail.end() && of->second >= 0;
  }
  /* a fault hits one particular open only, and the code opened the file another
     number of times than the reference assumes: which open it hits is unknown */
  bool recount(const std::string &n, int before, int expected) {
    return nth_only(n) && (int)Disk::opens(n) - before != expected;
  }
  /* the file without faults that hit one particular open only */
  View view_steady(const std::string &n) { return view(n, -7); }
  /* any fault that may change the outcome on this file */
  bool faulty(const std::string &n) {
    return missing[n] || damaged[n] || !eio[n].empty() || !eof[n].empty() || openfail.count(n);
  }
  /* --- generators */
  static void gen_delivery(Rng &r, Script &s, const std::string &n, long bytes = 0) {
    if (r.chance(0.6)) {
      static const int sz[] = {1, 2, 3, 7, 13, 64, 100, 127, 255, 256, 257, 511, 1000, 4095, 8191};
      s.add("chunk %s %d", n.c_str(), (int)std::max<long>(sz[r.below(15)], bytes / 2000));
    }
    if (r.chance(0.3))
      s.add("eintr %s %d", n.c_str(), r.range(2, 9));
  }
  /* bytes: rough size of the file so that offsets hit it */
  static void gen_io_fault(Rng &r, Script &s, const std::string &n, long bytes, int maxopen) {
    const int w = maxopen <= 0 || r.chance(0.6) ? -1 : r.range(1, maxopen);
    switch (r.below(5)) {
    case 0:
    case 1:
      s.add("eio %s %ld %d", n.c_str(), (long)r.below((int)bytes + 1), w);
      break;
    case 2:
      s.add("eof %s %ld %d", n.c_str(), (long)r.below((int)bytes + 1), w);
      break;
    case 3:
      s.add("openfail %s %d %d", n.c_str(), w, r.below(3));
      break;
    case 4:
      s.add("missing %s", n.c_str());
      break;
    }
  }
  static void gen_damage(Rng &r, Script &s, const std::string &n, long bytes, bool bytesonly = false) {
    const int k = r.range(1, 3);
    for (int i = 0; i < k; i++)
      switch (r.below(bytesonly ? 4 : 8)) {
      case 0:
        s.add("trunc %s %ld", n.c_str(), (long)r.below((int)bytes + 1));
        break;
      case 1:
      case 2:
        s.add("flip %s %ld %d", n.c_str(), (long)r.below((int)bytes), r.chance(0.5) ? 1 << r.below(8) : r.range(1, 255));
        break;
      case 3: {
        static const int b[] = {0, ' ', '\n', 'x', '9', '-', 0xff};
        s.add("fill %s %ld %d %d", n.c_str(), (long)r.below((int)bytes), r.chance(0.5) ? r.range(1, 8) : r.range(1, 600),
              b[r.below(7)]);
        break;
      }
      case 4:
      case 5:
        s.add("dropline %s %d", n.c_str(), r.below(10000));
        break;
      case 6:
        s.add("dupline %s %d", n.c_str(), r.below(10000));
        break;
      case 7:
        s.add("swapline %s %d", n.c_str(), r.below(10000));
        break;
      }
  }
};
/* total bytes of the file lines written so far to a script for name */
inline long script_bytes(const Script &s, const std::string &name) {
  long n = 0;
  std::string cur;
  for (auto &l : s.lines) {
    if (l.compare(0, 2, "f ") == 0)
      cur = l.substr(2);
    else if (cur == name && l.compare(0, 2, "l ") == 0)
      n += (long)unesc(l.substr(2)).size() + 1;
    else if (cur == name && l == "l")
      n += 1;
    else if (cur == name && l.compare(0, 2, "r ") == 0)
      n += (long)unesc(l.substr(2)).size();
  }
  return n > 0 ? n : 1;
}
/* blank-separated tokens */
inline std::vector<std::string> words(const std::string &l) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < l.size()) {
    while (p < l.size() && strchr(" \t\r\n\v\f", l[p]) && l[p])
      p++;
    size_t q = p;
    while (q < l.size() && !(strchr(" \t\r\n\v\f", l[q]) && l[q]))
      q++;
    if (q > p)
      v.push_back(l.substr(p, q - p));
    p = q;
  }
  return v;
}
/* text lines of a file as a line reader sees them (no newline) */
inline std::vector<std::string> text_lines(const std::string &s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) {
      v.push_back(s.substr(p));
      break;
    }
    v.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  return v;
}
/* whole-token number, locale free */
inline bool to_num(const std::string &w, double &v) {
  if (w.empty())
    return false;
  char *e;
  v = strtod(w.c_str(), &e);
  return *e == 0;
}
inline bool to_int(const std::string &w, long &v) {
  if (w.empty())
    return false;
  char *e;
  v = strtol(w.c_str(), &e, 10);
  return *e == 0;
}
} // namespace sim
#endif
