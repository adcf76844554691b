/* Core of the deterministic simulator: PRNG, script, recording, fault seams.
 *
 * One run = one script (text lines). A script is either drawn from one integer
 * seed by a world's generator or read back from a replay file; executing a
 * script is a pure function of the script and of the code under test.
 */
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

/* ---- randomness: the only source is the run's seed (splitmix64) --------- */
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull) {
    next();
    next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  /* [0,n) */
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  /* [a,b] */
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return uni() < p; }
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

/* ---- scripts ------------------------------------------------------------ */
struct Script {
  std::vector<std::string> lines;
  void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

/* a tokenised script line */
struct Tok {
  std::vector<std::string> t;
  explicit Tok(const std::string &line);
  int n() const { return (int)t.size(); }
  bool is(const char *w) const { return !t.empty() && t[0] == w; }
  const std::string &s(int k) const {
    static const std::string e;
    return k < n() ? t[k] : e;
  }
  long i(int k, long def = 0) const { return k < n() ? strtol(t[k].c_str(), nullptr, 10) : def; }
  unsigned long u(int k) const { return k < n() ? strtoul(t[k].c_str(), nullptr, 0) : 0; }
  double d(int k, double def = 0) const { return k < n() ? strtod(t[k].c_str(), nullptr) : def; }
};
/* text after the k-th blank-separated token of a line (exact bytes) */
std::string rest_of(const std::string &line, int k);
/* C-like escaping so that any byte fits in one script line */
std::string esc(const std::string &raw);
std::string unesc(const std::string &e);

/* ---- recording ---------------------------------------------------------- */
/* a violation: record class + detail and end this run */
inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* end this run now, nothing wrong */
[[noreturn]] void finish_ok();
/* event log (hashed; printed in verbose mode) */
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* a named counter: faults as "fault:<kind>", reach probes as "probe:<name>",
 * operations as "op:<name>" */
void count(const char *kind, const char *name, long n = 1);
inline void fault(const char *name) { count("fault", name); }
inline void probe(const char *name) { count("probe", name); }
inline void opcount(const char *name) { count("op", name); }
/* one more distinct state/interleaving (by hash) reached */
void state(uint64_t h);
/* the run did something that counts as non-trivial */
void nontrivial();
/* simulated seconds covered by this run */
void simtime(double seconds);
/* run length / comparisons done */
void evals(long n = 1);
bool verbose();

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t fnvs(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

/* ---- library scope: allocations made inside are accounted and can fail --- */
struct Lib {
  Lib();
  ~Lib();
};
/* temporarily leave it (harness code called back from the library) */
struct NoLib {
  int saved;
  NoLib();
  ~NoLib();
};
void heap_pattern(unsigned char byte); /* contents of fresh heap blocks */
void alloc_fail_after(long n);         /* the n-th (1-based) next library allocation fails */
void alloc_fail_clear();
void alloc_limit(size_t bytes); /* no single library allocation beyond this; 0 = none */
long alloc_failed();                   /* how many injected failures fired in this run */
long alloc_seen();                     /* library allocations so far */
/* fill a stretch of stack below the caller with a pattern */
void dirty_stack(unsigned char byte);
/* violation "leak" if a library allocation is neither freed nor reachable */
void check_leaks(const char *where);
long live_lib_blocks();

/* ---- simulated disk: files in a scratch directory, faults at the syscalls - */
struct Disk {
  static void reset();
  /* materialise a file (relative name inside the scratch dir) */
  static void put(const std::string &name, const std::string &content);
  static void remove(const std::string &name);
  static void mkdir(const std::string &name);
  /* faults */
  static void chunk(const std::string &name, int maxbytes);           /* short reads */
  static void eintr(const std::string &name, int every);              /* EINTR */
  static void eio(const std::string &name, long offset, int on_open); /* -1: every open */
  static void eof(const std::string &name, long offset, int on_open); /* early end of file */
  static void open_fail(const std::string &name, int nth, int err);   /* nth open fails; -1 every */
  static void swap_on_open(const std::string &name, int nth, const std::string &content);
  static long opens(const std::string &name);
  static long fired(); /* hard faults (eio, eof, open failure) that fired */
  static long fired(const std::string &name);
  static int open_fds(); /* descriptors on simulated files still open */
  static const std::string &root();
};

/* outcome of a guarded call into the library */
enum class Out { Ok, Exc };

} /* namespace sim */

/* provided by each world */
namespace world {
extern const char *const name;
void generate(sim::Rng &rng, const std::string &prop, const std::string &cfg, sim::Script &s);
void execute(const sim::Script &s, const std::string &prop);
} /* namespace world */
#endif
