/* Simulator core: run isolation (one forked child per run), recording,
 * allocation seam, crash attribution. See sim.hpp. */
#include "sim.hpp"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <new>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define SIM_ASAN 0
#endif

extern "C" void sim_rt_reset() __attribute__((weak)); /* thread world hook */

namespace sim {
namespace {
struct Counter {
  char name[56];
  long n;
};
struct Shared {
  int done; /* 0 running, 1 ok, 2 fail */
  char cls[96];
  char detail[1400];
  uint64_t hash;
  long events;
  long evals;
  double simtime;
  int nontrivial;
  int nstates;
  uint64_t states[8192];
  int ncounters;
  Counter counters[400];
};
Shared *sh = nullptr;
bool g_verbose = false;
void (*g_exit)(int) = nullptr;

[[noreturn]] void end_child(int code) {
  if (g_verbose)
    fflush(stdout);
  _exit(code);
}
} // namespace

bool verbose() { return g_verbose; }

void Script::add(const char *fmt, ...) {
  char b[16384];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  lines.emplace_back(b);
}
Tok::Tok(const std::string &line) {
  size_t i = 0;
  while (i < line.size()) {
    while (i < line.size() && line[i] == ' ')
      i++;
    size_t j = i;
    while (j < line.size() && line[j] != ' ')
      j++;
    if (j > i)
      t.push_back(line.substr(i, j - i));
    i = j;
  }
}
std::string rest_of(const std::string &line, int k) {
  size_t i = 0;
  for (int c = 0; c < k; c++) {
    while (i < line.size() && line[i] == ' ')
      i++;
    while (i < line.size() && line[i] != ' ')
      i++;
  }
  if (i < line.size())
    i++;
  return i < line.size() ? line.substr(i) : std::string();
}
std::string esc(const std::string &raw) {
  std::string o;
  char b[8];
  for (unsigned char c : raw) {
    if (c == '\\')
      o += "\\\\";
    else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}
std::string unesc(const std::string &e) {
  std::string o;
  for (size_t i = 0; i < e.size(); i++) {
    if (e[i] == '\\' && i + 1 < e.size()) {
      if (e[i + 1] == '\\') {
        o += '\\';
        i++;
      } else if (e[i + 1] == 'x' && i + 3 < e.size()) {
        o += (char)strtol(e.substr(i + 2, 2).c_str(), nullptr, 16);
        i += 3;
      } else
        o += e[i];
    } else
      o += e[i];
  }
  return o;
}

void fail(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  vsnprintf(sh->detail, sizeof sh->detail, fmt, ap);
  va_end(ap);
  for (char *p = sh->detail; *p; p++)
    if (*p == '\n' || (unsigned char)*p < 32)
      *p = ' ';
  sh->done = 2;
  if (g_verbose)
    printf("FAIL %s: %s\n", sh->cls, sh->detail);
  end_child(3);
}
void finish_ok() {
  sh->done = 1;
  end_child(0);
}
void trace(const char *fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1)
    n = sizeof b - 1;
  sh->hash = fnv(b, n, sh->hash ? sh->hash : 1469598103934665603ull);
  sh->events++;
  if (g_verbose)
    printf("  | %s\n", b);
}
void count(const char *kind, const char *name, long n) {
  char b[56];
  snprintf(b, sizeof b, "%s:%s", kind, name);
  for (int i = 0; i < sh->ncounters; i++)
    if (!strcmp(sh->counters[i].name, b)) {
      sh->counters[i].n += n;
      return;
    }
  if (sh->ncounters < (int)(sizeof sh->counters / sizeof sh->counters[0])) {
    strcpy(sh->counters[sh->ncounters].name, b);
    sh->counters[sh->ncounters].n = n;
    sh->ncounters++;
  }
}
void state(uint64_t h) {
  if (sh->nstates < (int)(sizeof sh->states / sizeof sh->states[0]))
    sh->states[sh->nstates++] = h;
}
void nontrivial() { sh->nontrivial = 1; }
void simtime(double s) { sh->simtime += s; }
void evals(long n) { sh->evals += n; }

/* ------------------------------------------------------------------ heap */
static int g_lib = 0;
static unsigned char g_pattern = 0xA5;
static long g_fail_at = 0, g_seen = 0, g_failed = 0;
static long g_huge = 0; /* requests beyond the simulated machine */
static size_t g_limit = 0;
void alloc_limit(size_t bytes) { g_limit = bytes; }
Lib::Lib() { g_lib++; }
Lib::~Lib() { g_lib--; }
NoLib::NoLib() : saved(g_lib) { g_lib = 0; }
NoLib::~NoLib() { g_lib = saved; }
void heap_pattern(unsigned char b) { g_pattern = b; }
void alloc_fail_after(long n) { g_fail_at = n > 0 ? g_seen + n : 0; }
void alloc_fail_clear() { g_fail_at = 0; }
long alloc_failed() { return g_failed; }
long alloc_seen() { return g_seen; }
__attribute__((noinline)) void dirty_stack(unsigned char b) {
  volatile unsigned char buf[32768];
  for (size_t i = 0; i < sizeof buf; i++)
    buf[i] = b;
  asm volatile("" ::"r"(buf) : "memory");
}
bool lib_scope() { return g_lib > 0; }

#ifndef SIM_OWN_ALLOC
namespace {
struct Blk {
  void *p;
  size_t n;
};
constexpr size_t TAB = 1 << 16;
Blk *tab = nullptr;
long live = 0;
size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
void tab_add(void *p, size_t n) {
  if (!tab)
    tab = (Blk *)mmap(nullptr, TAB * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t i = slot(p);
  for (size_t k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1))
    if (!tab[i].p || tab[i].p == (void *)-1) {
      tab[i] = {p, n};
      live++;
      return;
    }
}
void tab_del(void *p) {
  if (!tab || !live)
    return;
  size_t i = slot(p);
  for (size_t k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1)) {
    if (tab[i].p == p) {
      tab[i].p = (void *)-1;
      live--;
      return;
    }
    if (!tab[i].p)
      return;
  }
}
/* the simulated machine: one request beyond this cannot be met. A library call
 * that may not throw stops there (fail-stop), as with injected failures */
static const size_t HUGE_REQUEST = (size_t)512 << 20;
void *lib_new(size_t n, bool nothrow) {
  if (g_lib > 0) {
    g_seen++;
    if (!g_limit && n > HUGE_REQUEST) {
      g_huge++;
      probe("request beyond the machine's memory");
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
    if (g_limit && n > g_limit) {
      fault("memory_limit");
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
    if (g_fail_at && g_seen == g_fail_at) {
      g_failed++;
      fault("alloc_fail");
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  memset(p, g_pattern, n);
  if (g_lib > 0)
    tab_add(p, n);
  return p;
}
void lib_del(void *p) {
  if (!p)
    return;
  tab_del(p);
  free(p);
}
} // namespace
long live_lib_blocks() { return live; }

extern "C" char __data_start, _end;
#if SIM_ASAN
__attribute__((no_sanitize("address")))
#endif
static bool points_in(const char *lo, const char *hi, const Blk &b) {
  lo = (const char *)(((uintptr_t)lo + 7) & ~(uintptr_t)7);
  for (const char *q = lo; q + 8 <= hi; q += 8) {
    uintptr_t v;
    __builtin_memcpy(&v, q, 8);
    if (v >= (uintptr_t)b.p && v < (uintptr_t)b.p + (b.n ? b.n : 1))
      return true;
  }
  return false;
}
void check_leaks(const char *where) {
  if (!live || !tab)
    return;
  /* reachable = from the program's globals or thread storage, transitively */
  std::vector<Blk> todo, seen;
  for (size_t i = 0; i < TAB; i++)
    if (tab[i].p && tab[i].p != (void *)-1)
      todo.push_back(tab[i]);
  const char *tp = (const char *)__builtin_thread_pointer();
  /* static thread storage lies just below the thread pointer */
  const char *tlo = (const char *)((uintptr_t)tp & ~(uintptr_t)4095);
  unsigned char inc;
  for (int pg = 0; pg < 4 && mincore((void *)(tlo - 4096), 4096, &inc) == 0; pg++)
    tlo -= 4096;
  bool more = true;
  std::vector<char> ok(todo.size(), 0);
  for (size_t i = 0; i < todo.size(); i++)
    if (points_in(&__data_start, &_end, todo[i]) || points_in(tlo, tp, todo[i]))
      ok[i] = 1;
  while (more) {
    more = false;
    for (size_t i = 0; i < todo.size(); i++)
      if (!ok[i])
        for (size_t j = 0; j < todo.size(); j++)
          if (ok[j] && points_in((const char *)todo[j].p, (const char *)todo[j].p + todo[j].n, todo[i])) {
            ok[i] = 1;
            more = true;
            break;
          }
  }
  long n = 0, bytes = 0;
  for (size_t i = 0; i < todo.size(); i++)
    if (!ok[i]) {
      n++;
      bytes += (long)todo[i].n;
    }
  if (n)
    fail("leak", "%ld block(s), %ld byte(s) never released (%s)", n, bytes, where);
}
#endif

/* --------------------------------------------------------------- crashes */
static void on_terminate() {
  /* an exception escaped a function declared not to throw */
  if (g_failed > 0 || g_huge > 0) {
    probe("failstop_terminate");
    trace("terminate after injected allocation failure");
    finish_ok();
  }
  const char *what = "?";
  try {
    if (auto e = std::current_exception())
      std::rethrow_exception(e);
  } catch (const std::exception &e) {
    fail("terminate", "uncaught exception: %s", e.what());
  } catch (...) {
  }
  fail("terminate", "std::terminate (%s)", what);
}
static void on_signal(int sig) {
  const char *c = sig == SIGSEGV   ? "crash:SEGV"
                  : sig == SIGBUS  ? "crash:BUS"
                  : sig == SIGFPE  ? "crash:FPE"
                  : sig == SIGABRT ? "abort"
                  : sig == SIGILL  ? "crash:ILL"
                  : sig == SIGPROF ? "hang"
                                   : "crash:signal";
  snprintf(sh->cls, sizeof sh->cls, "%s", c);
  snprintf(sh->detail, sizeof sh->detail, "signal %d", sig);
  sh->done = 2;
  _exit(3);
}

} // namespace sim

extern "C" void sim_note_crash(const char *cls, const char *detail) {
  snprintf(sim::sh->cls, sizeof sim::sh->cls, "%s", cls);
  snprintf(sim::sh->detail, sizeof sim::sh->detail, "%s", detail);
  sim::sh->done = 2;
}
/* assertion text */
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) {
  (void)line;
  const char *b = strrchr(file, '/');
  char d[512];
  snprintf(d, sizeof d, "assertion `%s' in %s (%s)", expr, b ? b + 1 : file, fn);
  fprintf(stderr, "%s\n", d);
  sim::fail("assert", "%s", d);
}
#if SIM_ASAN
extern "C" void __asan_on_error() {
  const char *d = __asan_get_report_description();
  char c[96];
  snprintf(c, sizeof c, "asan:%s", d ? d : "error");
  sim_note_crash(c, "AddressSanitizer report");
}
/* an index outside its array, also where the object goes on */
extern "C" void __ubsan_on_report() { sim_note_crash("bounds", "index outside an array"); }
extern "C" const char *__asan_default_options() {
  return "abort_on_error=0:exitcode=3:detect_leaks=0:allocator_may_return_null=1:"
         "max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_segv=1:"
         "handle_abort=0:handle_sigfpe=1:alloc_dealloc_mismatch=0:quarantine_size_mb=16:"
         "malloc_context_size=12:detect_odr_violation=0:strict_memcmp=0";
}
#endif

#ifndef SIM_OWN_ALLOC
void *operator new(size_t n) { return sim::lib_new(n, false); }
void *operator new[](size_t n) { return sim::lib_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::lib_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::lib_new(n, true); }
void operator delete(void *p) noexcept { sim::lib_del(p); }
void operator delete[](void *p) noexcept { sim::lib_del(p); }
void operator delete(void *p, size_t) noexcept { sim::lib_del(p); }
void operator delete[](void *p, size_t) noexcept { sim::lib_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::lib_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::lib_del(p); }
#endif

/* ------------------------------------------------------------------ main */
namespace sim {
std::string g_root;
static void child_setup() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sigaction(SIGABRT, &sa, nullptr);
  sigaction(SIGPROF, &sa, nullptr);
#if !SIM_ASAN
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
#endif
  std::set_terminate(on_terminate);
  struct itimerval it = {{0, 0}, {20, 0}}; /* 20 s of CPU: a hang, not a slow run */
  setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
#if !SIM_ASAN
  rl.rlim_cur = rl.rlim_max = 4ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
}
static void reset_shared() {
  /* states/counters beyond the used part need no clearing */
  sh->done = 0;
  sh->cls[0] = sh->detail[0] = 0;
  sh->hash = 0;
  sh->events = sh->evals = 0;
  sh->simtime = 0;
  sh->nontrivial = 0;
  sh->nstates = 0;
  sh->ncounters = 0;
}
static std::string make_root() {
  const char *base = getenv("SIM_SCRATCH");
  std::string b = base ? base : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
  std::string t = b + "/vsim.XXXXXX";
  std::vector<char> v(t.begin(), t.end());
  v.push_back(0);
  if (!mkdtemp(v.data())) {
    perror("mkdtemp");
    exit(2);
  }
  return v.data();
}
static void rm_root() {
  if (g_root.find("/vsim.") == std::string::npos)
    return;
  /* only what the simulated disk created: walk two levels */
  std::string cmd = "rm -rf -- '" + g_root + "'";
  if (chdir("/") == 0 && system(cmd.c_str()) != 0)
    perror("rm");
}
/* every run starts with an empty scratch directory */
static int wipe_one(const char *p, const struct stat *, int, struct FTW *f) {
  if (f->level > 0)
    remove(p);
  return 0;
}
static void wipe_root() {
  if (g_root.find("/vsim.") != std::string::npos)
    nftw(g_root.c_str(), wipe_one, 16, FTW_DEPTH | FTW_PHYS);
}
static void on_alarm(int) {}
/* run one child; returns after it ended */
static void run_child(const Script *given, const std::string &prop, const std::string &cfg, uint64_t seed) {
  reset_shared();
  wipe_root();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    child_setup();
    if (chdir(g_root.c_str()))
      _exit(4);
    Script s;
    if (given)
      s = *given;
    else {
      Rng rng(seed);
      world::generate(rng, prop, cfg, s);
    }
    Disk::reset();
    world::execute(s, prop);
    finish_ok();
  }
  int st = 0;
  alarm(100); /* wall-clock backstop: a child blocked without using CPU */
  for (;;) {
    pid_t r = waitpid(pid, &st, 0);
    if (r == pid)
      break;
    if (r < 0 && errno == EINTR) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      sh->done = 2;
      strcpy(sh->cls, "hang");
      strcpy(sh->detail, "no progress (wall clock)");
      break;
    }
  }
  alarm(0);
  if (sh->done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return;
  if (sh->done == 2)
    return;
  sh->done = 2;
  if (!sh->cls[0]) {
    if (WIFSIGNALED(st))
      snprintf(sh->cls, sizeof sh->cls, "crash:signal");
    else
      snprintf(sh->cls, sizeof sh->cls, "exit");
    snprintf(sh->detail, sizeof sh->detail, "child ended with status %#x", st);
  }
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}

struct Agg {
  std::vector<std::pair<std::string, long>> c;
  void add(const char *n, long v) {
    for (auto &p : c)
      if (p.first == n) {
        p.second += v;
        return;
      }
    c.emplace_back(n, v);
  }
};

int main_impl(int argc, char **argv) {
  if (argc < 2) {
    fprintf(stderr, "usage: %s gen|run|batch ...\n", argv[0]);
    return 2;
  }
  std::string cmd = argv[1];
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm; /* no SA_RESTART: it interrupts waitpid */
  sigaction(SIGALRM, &sa, nullptr);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (cmd == "gen" && argc >= 5) {
    Rng rng(strtoull(argv[4], nullptr, 10));
    Script s;
    world::generate(rng, argv[2], argv[3], s);
    for (auto &l : s.lines)
      puts(l.c_str());
    return 0;
  }
  if (cmd == "run" && argc >= 4) {
    /* run <prop> <script> [-v] */
    std::string prop = argv[2];
    FILE *f = fopen(argv[3], "r");
    if (!f) {
      perror(argv[3]);
      return 2;
    }
    Script s;
    char *line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) >= 0) {
      while (n > 0 && line[n - 1] == '\n')
        line[--n] = 0;
      if (line[0] == '#')
        continue;
      s.lines.emplace_back(line);
    }
    fclose(f);
    free(line);
    g_verbose = argc > 4 && !strcmp(argv[4], "-v");
    g_root = make_root();
    run_child(&s, prop, "", 0);
    rm_root();
    printf("RESULT %s hash=%016lx events=%ld detail=%s\n", sh->done == 1 ? "ok" : sh->cls, (unsigned long)sh->hash,
           sh->events, sh->detail);
    return sh->done == 1 ? 0 : 1;
  }
  if (cmd == "batch" && argc >= 7) {
    /* batch <prop> <cfg> <seed0> <count> <out.json> [max_seconds] */
    std::string prop = argv[2], cfg = argv[3], out = argv[6];
    uint64_t seed0 = strtoull(argv[4], nullptr, 10);
    long cnt = atol(argv[5]);
    double maxs = argc > 7 ? atof(argv[7]) : 1e9;
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 1);
    dup2(dn, 2);
    g_root = make_root();
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    Agg agg;
    std::unordered_set<uint64_t> states, hashes;
    std::string fails;
    long runs = 0, events = 0, ev = 0, nontriv = 0, nfail = 0;
    double simt = 0;
    uint64_t all = 1469598103934665603ull;
    std::vector<uint64_t> perseed;
    std::unordered_set<std::string> seen_cls;
    std::string clscount;
    Agg cls;
    for (long i = 0; i < cnt; i++) {
      run_child(nullptr, prop, cfg, seed0 + (uint64_t)i);
      runs++;
      events += sh->events;
      ev += sh->evals;
      simt += sh->simtime;
      uint64_t hh = sh->hash;
      if (sh->done != 1)
        hh = fnv(sh->cls, strlen(sh->cls), hh);
      all = fnv(&hh, 8, all);
      perseed.push_back(hh);
      if (sh->nontrivial)
        if (hashes.insert(hh).second)
          nontriv++;
      for (int k = 0; k < sh->nstates; k++)
        states.insert(sh->states[k]);
      for (int k = 0; k < sh->ncounters; k++)
        agg.add(sh->counters[k].name, sh->counters[k].n);
      if (sh->done != 1) {
        nfail++;
        cls.add(sh->cls, 1);
        /* keep the first few of each class */
        long have = 0;
        for (auto &p : cls.c)
          if (p.first == sh->cls)
            have = p.second;
        if (have <= 8) {
          char b[64];
          snprintf(b, sizeof b, "%s{\"seed\":%lu,\"cls\":", fails.empty() ? "" : ",\n", (unsigned long)(seed0 + i));
          fails += b;
          fails += jstr(sh->cls) + ",\"detail\":" + jstr(sh->detail) + "}";
        }
      }
      if ((i & 15) == 15) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > maxs)
          break;
      }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    rm_root();
    FILE *f = fopen(out.c_str(), "w");
    if (!f)
      return 2;
    fprintf(f,
            "{\"runs\":%ld,\"events\":%ld,\"evals\":%ld,\"nontrivial\":%ld,\"simtime\":%.6f,\"hash\":\"%016lx\","
            "\"nfail\":%ld,\"wall\":%.3f,\n\"counters\":{",
            runs, events, ev, nontriv, simt, (unsigned long)all, nfail,
            (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec));
    for (size_t k = 0; k < agg.c.size(); k++)
      fprintf(f, "%s%s:%ld", k ? "," : "", jstr(agg.c[k].first).c_str(), agg.c[k].second);
    fprintf(f, "},\n\"classes\":{");
    for (size_t k = 0; k < cls.c.size(); k++)
      fprintf(f, "%s%s:%ld", k ? "," : "", jstr(cls.c[k].first).c_str(), cls.c[k].second);
    fprintf(f, "},\n\"fails\":[%s],\n\"nstates\":%zu}\n", fails.c_str(), states.size());
    fclose(f);
    /* state and run hashes for the union over workers */
    std::string sf = out + ".states";
    f = fopen(sf.c_str(), "wb");
    if (f) {
      for (uint64_t h : states)
        fwrite(&h, 8, 1, f);
      fclose(f);
    }
    sf = out + ".seeds";
    f = fopen(sf.c_str(), "wb");
    if (f) {
      fwrite(perseed.data(), 8, perseed.size(), f);
      fclose(f);
    }
    sf = out + ".runs";
    f = fopen(sf.c_str(), "wb");
    if (f) {
      for (uint64_t h : hashes)
        fwrite(&h, 8, 1, f);
      fclose(f);
    }
    return 0;
  }
  fprintf(stderr, "bad command\n");
  return 2;
}
} // namespace sim
int main(int argc, char **argv) { return sim::main_impl(argc, argv); }
