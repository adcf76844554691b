/* Runtime behind the compiler's -fsanitize=thread instrumentation. The library
 * is compiled with that instrumentation but linked with this file instead of
 * libtsan: every memory access, atomic operation, static-initialisation guard,
 * mutex and once-flag becomes a scheduling point owned by the simulator, and a
 * vector-clock detector flags unordered conflicting accesses. This file itself
 * is not instrumented. */
#include "threads.hpp"
#include <cerrno>
#include <condition_variable>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
bool lib_scope();
namespace {
constexpr int MAXT = 6;
struct VC {
  uint32_t c[MAXT] = {0};
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};
struct T {
  int id = 0;
  pthread_t th;
  VC vc;
  int go = 0; /* futex */
  bool done = false;
  const void *blocked = nullptr;
  uintptr_t lo = 0, hi = 0; /* own stack */
  const std::function<void()> *body = nullptr;
  long acc = 0;
};
T ts[MAXT];
int nt = 0;
bool on = false;
thread_local T *self = nullptr;
thread_local int inside = 0;
long steps = 0, switches = 0, cap = 30000000;
const SchedPlan *plan = nullptr;
size_t pnext = 0;
uint64_t rs = 1, ilv = 0;
long lastsw = 0;
int maingo = 0;

struct Cell {
  uintptr_t key;
  uint32_t wclk;
  uint8_t wtid, wmask;
  uint8_t rmask[MAXT];
  uint32_t rclk[MAXT];
};
constexpr size_t CELLS = 1 << 19;
Cell *cells = nullptr;
size_t ncells = 0;
std::map<const void *, VC> *syncs = nullptr;
std::map<const void *, int> *held = nullptr; /* mutexes / guards / onces in progress */

void fwait(int *f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void fwake(int *f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
uint32_t rnd() {
  rs = rs * 6364136223846793005ull + 1442695040888963407ull;
  return (uint32_t)(rs >> 33);
}
int pick_other(int me, bool include_me) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nt; i++)
    if (!ts[i].done && !ts[i].blocked && (include_me || i != me))
      c[n++] = i;
  return n ? c[rnd() % n] : -1;
}
void hand_to(int to) {
  T *me = self;
  struct {
    int a, b;
    long n;
  } k = {me->id, to, me->acc};
  ilv = fnv(&k, sizeof k, ilv);
  switches++;
  lastsw = steps;
  fwake(&ts[to].go);
  if (!me->done)
    fwait(&me->go);
}
[[noreturn]] void deadlock() {
  inside++;
  fail("deadlock", "no simulated thread can run");
}
void block_on(const void *what) {
  self->blocked = what;
  int to = pick_other(self->id, false);
  if (to < 0)
    deadlock();
  hand_to(to);
}
void unblock(const void *what) {
  for (int i = 0; i < nt; i++)
    if (ts[i].blocked == what)
      ts[i].blocked = nullptr;
}
void point() {
  T *me = self;
  steps++;
  me->acc++;
  if (steps > cap) {
    inside++;
    fail("hang", "more than %ld scheduling points", cap);
  }
  int to = -1;
  while (pnext < plan->pre.size() && plan->pre[pnext].step <= steps) {
    to = plan->pre[pnext].to % nt;
    if (to < 0)
      to = 0;
    pnext++;
    if (ts[to].done || ts[to].blocked || to == me->id)
      to = pick_other(me->id, false);
  }
  if (to < 0)
    for (auto &b : plan->burst)
      if (steps >= b.start && steps < b.start + b.len && b.every > 0 && (steps - b.start) % b.every == 0)
        to = pick_other(me->id, false);
  if (to >= 0 && to != me->id && switches < 20000) {
    inside++;
    hand_to(to);
    inside--;
  }
}
inline bool active() { return on && self && !inside; }

Cell *cell(uintptr_t k, bool make) {
  size_t i = (k * 0x9e3779b97f4a7c15ull) >> 45;
  for (size_t n = 0; n < CELLS; n++, i = (i + 1) & (CELLS - 1)) {
    if (cells[i].key == k)
      return &cells[i];
    if (!cells[i].key) {
      if (!make || ncells > CELLS * 3 / 4)
        return nullptr;
      ncells++;
      memset(&cells[i], 0, sizeof(Cell));
      cells[i].key = k;
      return &cells[i];
    }
  }
  return nullptr;
}
std::string symof(const void *pc) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname)
    return di.dli_sname;
  return "?";
}
void race(uintptr_t a, int other, bool w, bool ow, const void *pc) {
  inside++;
  Dl_info di;
  const char *obj = "heap or stack memory";
  if (dladdr((void *)a, &di) && di.dli_sname)
    obj = di.dli_sname;
  (void)other;
  fail("data-race", "unordered %s and %s of %s in %s", ow ? "write" : "read", w ? "write" : "read", obj,
       symof(pc).c_str());
}
void access1(uintptr_t k, uint8_t mask, bool w, const void *pc) {
  T *me = self;
  Cell *c = cell(k, true);
  if (!c)
    return;
  if (c->wmask & mask && c->wtid != me->id && c->wclk > me->vc.c[c->wtid])
    race(k << 3, c->wtid, w, true, pc);
  if (w) {
    for (int i = 0; i < nt; i++)
      if (i != me->id && (c->rmask[i] & mask) && c->rclk[i] > me->vc.c[i])
        race(k << 3, i, true, false, pc);
    c->wtid = (uint8_t)me->id;
    c->wclk = me->vc.c[me->id];
    c->wmask = mask;
  } else {
    if (c->rclk[me->id] != me->vc.c[me->id])
      c->rmask[me->id] = 0;
    c->rclk[me->id] = me->vc.c[me->id];
    c->rmask[me->id] |= mask;
  }
}
void access(const void *p, size_t n, bool w, const void *pc) {
  if (!active())
    return;
  uintptr_t a = (uintptr_t)p;
  if (a >= self->lo && a < self->hi)
    return; /* own stack */
  point();
  inside++;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t k = a >> 3;
    unsigned o = a & 7;
    unsigned m = (unsigned)std::min<uintptr_t>(8 - o, e - a);
    access1(k, (uint8_t)(((1u << m) - 1) << o), w, pc);
    a += m;
  }
  inside--;
}
void forget(void *p, size_t n) {
  if (!on || !cells || !n)
    return;
  inside++;
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  for (; a < e; a++)
    if (Cell *c = cell(a, false)) {
      uintptr_t k = c->key;
      memset(c, 0, sizeof *c);
      c->key = k;
    }
  inside--;
}
void acquire(const void *a) {
  auto it = syncs->find(a);
  if (it != syncs->end())
    self->vc.join(it->second);
}
void release(const void *a) {
  (*syncs)[a].join(self->vc);
  self->vc.c[self->id]++;
}
struct In {
  In() { inside++; }
  ~In() { inside--; }
};

void *thread_main(void *arg) {
  T *me = (T *)arg;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *sp;
  size_t sz;
  pthread_attr_getstack(&at, &sp, &sz);
  pthread_attr_destroy(&at);
  me->lo = (uintptr_t)sp;
  me->hi = me->lo + sz;
  fwait(&me->go);
  self = me;
  (*me->body)();
  inside++;
  me->done = true;
  int to = pick_other(me->id, false);
  if (to >= 0) {
    hand_to(to);
  } else {
    for (int i = 0; i < nt; i++)
      if (!ts[i].done)
        deadlock();
    on = false;
    fwake(&maingo);
  }
  self = nullptr;
  return nullptr;
}
} // namespace

void SchedPlan::feed(const Tok &t) {
  if (t.is("preempt"))
    pre.push_back({t.i(1), (int)t.i(2)});
  else if (t.is("burst"))
    burst.push_back({t.i(1), t.i(2), t.i(3)});
  else if (t.is("sched"))
    seed = (uint64_t)t.i(1);
}
void SchedPlan::gen(Rng &r, Script &s, int nthreads, long maxsteps) {
  s.add("sched %d", r.below(1000000));
  auto pos = [&]() -> long {
    double u = r.uni();
    /* half log-uniform (early, first-call windows), half uniform */
    if (r.chance(0.5))
      return 1 + (long)__builtin_exp(u * __builtin_log((double)maxsteps));
    return 1 + (long)(u * (double)maxsteps);
  };
  std::vector<std::pair<long, int>> p;
  int n = r.chance(0.2) ? r.below(2) : r.range(1, 14);
  for (int i = 0; i < n; i++)
    p.emplace_back(pos(), r.below(nthreads));
  std::sort(p.begin(), p.end());
  for (auto &x : p)
    s.add("preempt %ld %d", x.first, x.second);
  int nb = r.chance(0.5) ? r.range(1, 3) : 0;
  for (int i = 0; i < nb; i++) {
    long every = r.range(1, 20);
    s.add("burst %ld %ld %ld", pos(), every * r.range(5, 200), every);
  }
}
long sched_steps() { return steps; }
long sched_switches() { return switches; }

void run_threads(const SchedPlan &pl, const std::vector<std::function<void()>> &bodies) {
  nt = (int)bodies.size();
  if (nt == 0)
    return;
  if (nt > MAXT)
    nt = MAXT;
  static SchedPlan sorted;
  sorted = pl;
  std::stable_sort(sorted.pre.begin(), sorted.pre.end(),
                   [](const SchedPlan::Preempt &a, const SchedPlan::Preempt &b) { return a.step < b.step; });
  plan = &sorted;
  rs = pl.seed * 2862933555777941757ull + 3037000493ull;
  cells = (Cell *)mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!syncs)
    syncs = new std::map<const void *, VC>;
  if (!held)
    held = new std::map<const void *, int>;
  syncs->clear();
  held->clear();
  ncells = 0;
  steps = switches = 0;
  pnext = 0;
  ilv = 1469598103934665603ull;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < nt; i++) {
    ts[i] = T();
    ts[i].id = i;
    ts[i].body = &bodies[i];
    ts[i].vc.c[i] = 1;
    if (pthread_create(&ts[i].th, &at, thread_main, &ts[i]))
      _exit(4);
  }
  pthread_attr_destroy(&at);
  on = true;
  int first = (int)(rnd() % (uint32_t)nt);
  fwake(&ts[first].go);
  fwait(&maingo);
  on = false;
  for (int i = 0; i < nt; i++)
    pthread_join(ts[i].th, nullptr);
  state(ilv);
  trace("threads=%d steps=%ld switches=%ld interleaving=%016lx", nt, steps, switches, (unsigned long)ilv);
  count("sched", "switches", switches);
  count("sched", "points", steps);
  munmap(cells, CELLS * sizeof(Cell));
  cells = nullptr;
}

std::string in_fresh_process(const std::function<std::string()> &f) {
  int p[2];
  if (pipe(p))
    _exit(4);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    std::string r = f();
    size_t o = 0;
    while (o < r.size()) {
      ssize_t n = write(p[1], r.data() + o, r.size() - o);
      if (n <= 0)
        break;
      o += (size_t)n;
    }
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char b[4096];
  ssize_t n;
  while ((n = ::read(p[0], b, sizeof b)) > 0)
    r.append(b, (size_t)n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  return r;
}
void check_leaks(const char *) {}
long live_lib_blocks() { return 0; }
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void *a) { access(a, n, false, PC); }                                                            \
  void __tsan_write##n(void *a) { access(a, n, true, PC); }                                                            \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); }                                                  \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); }                                                  \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); }                                                   \
  void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
static void pre_at(const volatile void *a, int mo, bool ld, bool st) {
  if (!active())
    return;
  point();
  In in;
  (void)st;
  if (ld && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
    acquire((const void *)a);
}
static void post_at(const volatile void *a, int mo) {
  if (!active())
    return;
  In in;
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)
    release((const void *)a);
}
#define AT(bits, ty)                                                                                                   \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) {                                                        \
    pre_at(a, mo, true, false);                                                                                        \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) {                                                     \
    pre_at(a, mo, false, true);                                                                                        \
    post_at(a, mo);                                                                                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) {                                                    \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) {                                                   \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) {                                                   \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) {                                                    \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) {                                                   \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) {                                                   \
    pre_at(a, mo, true, true);                                                                                         \
    post_at(a, mo);                                                                                                    \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int) {                        \
    pre_at(a, mo, true, true);                                                                                         \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    if (ok)                                                                                                            \
      post_at(a, mo);                                                                                                  \
    return ok;                                                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) {                      \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);                                            \
  }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
  if (active())
    point();
}
void __tsan_atomic_signal_fence(int) {}

/* --- function-local static initialisation --- */
int __cxa_guard_acquire(long long *gp) {
  unsigned char *g = (unsigned char *)gp;
  if (!active()) {
    return __atomic_load_n(g, __ATOMIC_ACQUIRE) == 0;
  }
  point();
  In in;
  for (;;) {
    if (*g) {
      acquire(g);
      return 0;
    }
    auto it = held->find(g);
    if (it == held->end()) {
      (*held)[g] = self->id;
      probe("static_init_entered");
      return 1;
    }
    if (it->second == self->id)
      fail("deadlock", "recursive static initialisation");
    probe("static_init_contended");
    block_on(g);
  }
}
void __cxa_guard_release(long long *gp) {
  unsigned char *g = (unsigned char *)gp;
  if (active()) {
    In in;
    release(g);
    held->erase(g);
    unblock(g);
  }
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long *gp) {
  unsigned char *g = (unsigned char *)gp;
  if (active()) {
    In in;
    held->erase(g);
    unblock(g);
  }
}
/* --- locks --- */
static int lock_any(const void *m, bool try_) {
  point();
  In in;
  for (;;) {
    auto it = held->find(m);
    if (it == held->end()) {
      (*held)[m] = self->id;
      acquire(m);
      return 0;
    }
    if (try_)
      return EBUSY;
    if (it->second == self->id)
      fail("deadlock", "a simulated thread locks a mutex it holds");
    block_on(m);
  }
}
static int unlock_any(const void *m) {
  In in;
  release(m);
  held->erase(m);
  unblock(m);
  return 0;
}
#define REALFN(n) (__typeof__(&n)) dlsym(RTLD_NEXT, #n)
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (active())
    return lock_any(m, false);
  static auto f = REALFN(pthread_mutex_lock);
  return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (active())
    return lock_any(m, true);
  static auto f = REALFN(pthread_mutex_trylock);
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (active())
    return unlock_any(m);
  static auto f = REALFN(pthread_mutex_unlock);
  return f(m);
}
/* readers exclude each other here too: fewer interleavings, same guarantees */
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (active())
    return lock_any(m, false);
  static auto f = REALFN(pthread_rwlock_rdlock);
  return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (active())
    return lock_any(m, false);
  static auto f = REALFN(pthread_rwlock_wrlock);
  return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (active())
    return unlock_any(m);
  static auto f = REALFN(pthread_rwlock_unlock);
  return f(m);
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!active()) {
    static auto f = REALFN(pthread_once);
    return f(o, fn);
  }
  point();
  for (;;) {
    {
      In in;
      if (*(volatile int *)o == 2) {
        acquire(o);
        return 0;
      }
      if (!held->count(o)) {
        (*held)[o] = self->id;
        break;
      }
      block_on(o);
    }
  }
  fn();
  In in;
  *(volatile int *)o = 2;
  release(o);
  held->erase(o);
  unblock(o);
  return 0;
}
/* --- memory functions called from instrumented code (linker --wrap) --- */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_malloc(size_t);
void __real_free(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n, true, PC);
  return __real_memset(d, c, n);
}
}
#include <malloc.h>
extern "C" void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (on && p)
    forget(p, malloc_usable_size(p));
  return p;
}
extern "C" void __wrap_free(void *p) {
  if (on && p)
    forget(p, malloc_usable_size(p));
  __real_free(p);
}
static void *xnew(size_t n) {
  void *p = __wrap_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return xnew(n); }
void *operator new[](size_t n) { return xnew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
