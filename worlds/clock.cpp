/* World "clock": the timing helper on a simulated clock (C22). The machine's
 * monotonic and wall clocks are the harness's: the wall clock is stepped and
 * slewed, reads cost time, the resolution is coarse, the process stalls. */
#include "sim.hpp"
#include <time.h>
#include <sys/time.h>
#include <cmath>
#include <memory>
#include "clock.hpp"
using namespace sim;
typedef long long i64;
typedef long double LD;
const char *const world::name = "clock";

/* ---- the simulated clocks ------------------------------------------------------ */
static bool g_on;
static i64 g_mono, g_wall, g_res = 1, g_cost, g_ppm;
static void advance(i64 ns) {
  g_mono += ns;
  g_wall += ns + (i64)((LD)ns * g_ppm / 1000000);
}
static i64 quant(i64 v) {
  i64 r = v % g_res;
  return v - (r < 0 ? r + g_res : r);
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  static bool once;
  (void)once;
  if (!g_on) {
    /* not inside the library: the machine's own clock */
    long rc;
    __asm__ volatile("syscall" : "=a"(rc) : "a"(228L), "D"((long)id), "S"(ts) : "rcx", "r11", "memory");
    return rc < 0 ? -1 : 0;
  }
  advance(g_cost);
  const bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
  const i64 v = quant(wall ? g_wall : g_mono);
  if (wall)
    probe("wall clock read");
  i64 s = v / 1000000000, n = v % 1000000000;
  if (n < 0)
    s--, n += 1000000000;
  ts->tv_sec = (time_t)s;
  ts->tv_nsec = (long)n;
  return 0;
}
extern "C" int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
struct OnClock {
  OnClock() { g_on = true; }
  ~OnClock() { g_on = false; }
};

/* ---- generation ------------------------------------------------------------------ */
static i64 span(Rng &r) {
  switch (r.below(7)) {
  case 0:
    return 0;
  case 1:
    return r.range(1, 999);
  case 2:
    return (i64)r.range(1, 999) * 1000 + r.below(1000);
  case 3:
    return (i64)r.range(1, 999) * 1000000;
  case 4:
    return (i64)r.range(1, 100) * 1000000000LL;
  case 5:
    return (i64)r.range(1, 60) * 60000000000LL;
  default:
    return (i64)r.range(1, 100000);
  }
}
void world::generate(Rng &r, const std::string &, const std::string &cfg, Script &s) {
  s.add("boot %lld %lld", (long long)r.range(0, 1000000) * 1000003LL, 1400000000000000000LL + (long long)r.range(0, 1000000) * 1000000007LL);
  if (r.chance(.3))
    s.add("res %lld", r.chance(.5) ? 1000LL : r.chance(.5) ? 1000000LL : 10000000LL);
  if (r.chance(.7))
    s.add("cost %d", r.range(1, r.chance(.1) ? 100000 : 60));
  const int ops = r.range(4, 60);
  for (int k = 0; k < ops; k++) {
    const int a = r.below(3), b = r.below(3), w = k < 2 ? 0 : r.below(40);
    if (cfg == "step" && r.chance(.35)) {
      if (r.chance(.7))
        s.add("step %lld", (long long)(r.chance(.6) ? -1 : 1) * (span(r) + (r.chance(.3) ? 3600000000000LL : 0)));
      else
        s.add("slew %d", r.range(-500000, 500000));
    }
    if (w < 2)
      s.add("new %d %d %d", a, r.chance(.6) ? r.range(0, 23) : r.chance(.7) ? r.range(20, 40) : r.range(40, 400), r.below(26));
    else if (w < 18) {
      s.add("start %d", a);
      if (r.chance(.85)) {
        s.add("adv %lld", (long long)span(r));
        if (cfg == "step" && r.chance(.4))
          s.add("step %lld", (long long)(r.chance(.7) ? -1 : 1) * span(r));
        if (r.chance(.3))
          s.add("adv %lld", (long long)span(r));
        s.add("stop %d", a);
      }
    } else if (w < 20)
      s.add("adv %lld", (long long)span(r));
    else if (w < 21)
      s.add("stop %d", a);
    else if (w < 23)
      s.add("copy %d %d", a, b);
    else if (w < 24)
      s.add("move %d %d", a, b);
    else if (w < 26)
      s.add("assign %d %d", a, b);
    else if (w < 32)
      s.add("avg %d %d", a, r.below(4));
    else if (w < 34)
      s.add("total %d %d", a, r.below(4));
    else if (w < 37)
      s.add("faster %d %d", a, b);
    else
      s.add("compare %d %d", a, b);
  }
}

/* ---- execution ---------------------------------------------------------------------- */
struct Model {
  std::string label;
  i64 s0 = 0, s1 = 0; /* the start lies between these */
  i64 lo = 0, hi = 0; /* so does the total */
  int n = 0;
  bool running = false, odd = false; /* odd: stopped without a start */
};
struct Box {
  std::unique_ptr<Clock> c;
  Model m;
};
static const LD UNIT[] = {1, 1000, 1000000, 1000000000};
static double average(const Clock &c, int u) {
  OnClock on;
  Lib lib;
  return u == 0 ? c.average_running_time<std::chrono::nanoseconds>() : u == 1 ? c.average_running_time() : u == 2 ? c.average_running_time<std::chrono::milliseconds>() : c.average_running_time<std::chrono::seconds>();
}
static i64 total(const Clock &c, int u) {
  OnClock on;
  Lib lib;
  return u == 0 ? (i64)c.get_total_duration<std::chrono::nanoseconds>().count() : u == 1 ? (i64)c.get_total_duration().count() : u == 2 ? (i64)c.get_total_duration<std::chrono::milliseconds>().count() : (i64)c.get_total_duration<std::chrono::seconds>().count();
}
static void name_ok(const Box &b) {
  const char *p;
  {
    Lib lib;
    p = b.c->name();
  }
  const std::string got(p, strnlen(p, 4096));
  const std::string &want = b.m.label;
  if (want.size() <= 23 ? got != want : (got.empty() || want.compare(0, got.size(), got)))
    fail("label", "label \"%s\" (%d characters) became \"%s\"", want.substr(0, 60).c_str(), (int)want.size(), got.substr(0, 60).c_str());
}
void world::execute(const Script &s, const std::string &) {
  Box box[3];
  const i64 boot0 = 0;
  (void)boot0;
  i64 t0 = 0;
  for (auto &l : s.lines) {
    Tok t(l);
    const int k = (int)((t.i(1) % 3 + 3) % 3), j = (int)((t.i(2) % 3 + 3) % 3);
    Box &b = box[k];
    if (t.is("boot")) {
      g_mono = t0 = atoll(t.s(1).c_str());
      g_wall = atoll(t.s(2).c_str());
    } else if (t.is("res")) {
      g_res = std::max(1LL, atoll(t.s(1).c_str()));
      if (g_res > 1)
        fault("coarse_clock");
    } else if (t.is("cost")) {
      g_cost = t.i(1);
    } else if (t.is("adv")) {
      const i64 d = std::max(0LL, atoll(t.s(1).c_str()));
      advance(d);
      if (d >= 60000000000LL)
        fault("stall");
    } else if (t.is("step")) {
      const i64 d = atoll(t.s(1).c_str());
      g_wall += d;
      if (d)
        fault(d < 0 ? "wall_step_back" : "wall_step_forward");
    } else if (t.is("slew")) {
      g_ppm = t.i(1);
      fault("wall_slew");
    } else if (t.is("new")) {
      opcount("new");
      std::string lab;
      for (long q = 0; q < t.i(2); q++)
        lab += (char)('a' + (q * 7 + t.i(3)) % 26);
      b.c.reset();
      {
        OnClock on;
        Lib lib;
        b.c = std::make_unique<Clock>(lab.c_str());
      }
      b.m = Model();
      b.m.label = lab;
      if (lab.size() > 23)
        probe("long label");
      name_ok(b);
    } else if (!b.c) {
      continue;
    } else if (t.is("start")) {
      opcount("start");
      b.m.s0 = quant(g_mono);
      {
        OnClock on;
        Lib lib;
        b.c->start();
      }
      b.m.s1 = quant(g_mono);
      b.m.running = true;
    } else if (t.is("stop")) {
      opcount("stop");
      const i64 e0 = quant(g_mono);
      {
        OnClock on;
        Lib lib;
        b.c->stop();
      }
      const i64 e1 = quant(g_mono);
      if (!b.m.running)
        b.m.odd = true;
      b.m.running = false;
      b.m.lo += std::max<i64>(0, e0 - b.m.s1);
      b.m.hi += e1 - b.m.s0;
      b.m.n++;
      simtime((e1 - b.m.s0) / 1e9);
      trace("stop %d: %d samples", k, b.m.n);
    } else if (t.is("copy") || t.is("move") || t.is("assign")) {
      Box &o = box[j];
      if (!o.c)
        continue;
      opcount(t.s(0).c_str());
      if (!t.is("assign") && k == j)
        continue;
      {
        OnClock on;
        Lib lib;
        if (t.is("assign"))
          *b.c = *o.c;
        else if (t.is("copy"))
          b.c = std::make_unique<Clock>(*o.c);
        else
          b.c = std::make_unique<Clock>(std::move(*o.c));
      }
      if (k != j)
        b.m = o.m;
      if (t.is("move")) {
        o.c.reset();
        o.m = Model();
      }
      name_ok(b);
    } else if (t.is("avg")) {
      opcount("average");
      evals();
      const int u = (int)(t.i(2) & 3);
      const double v = average(*b.c, u);
      trace("average %d unit %d = %.6f of %d", k, u, v, b.m.n);
      if (v < 0)
        fail("negative-time", "the average over %d samples is %g", b.m.n, v);
      if (!b.m.n) {
        probe("average without samples");
        continue;
      }
      if (b.m.odd)
        continue;
      const LD lo = b.m.lo / UNIT[u] / b.m.n, hi = b.m.hi / UNIT[u] / b.m.n;
      if (!(v >= lo - 1.0000001L) || !(v <= hi + 1e-9L * hi + 1e-9L))
        fail("average", "the average over %d samples is %.9g, they took %.9Lg to %.9Lg", b.m.n, v, lo, hi);
      nontrivial();
      state((uint64_t)(b.m.n * 1000003) ^ (uint64_t)(hi * 64));
      probe("average judged");
    } else if (t.is("total")) {
      opcount("total");
      evals();
      const int u = (int)(t.i(2) & 3);
      const i64 v = total(*b.c, u);
      trace("total %d unit %d = %lld of %d", k, u, v, b.m.n);
      if (v < 0)
        fail("negative-time", "the total of %d samples is %lld", b.m.n, v);
      if (!b.m.n && v)
        fail("total", "no samples take %lld", v);
      if (b.m.odd)
        continue;
      if (!(v >= b.m.lo / UNIT[u] - 1.0000001L) || !(v <= b.m.hi / UNIT[u] + 1e-9L))
        fail("total", "the total of %d samples is %lld, they took %.9Lg to %.9Lg", b.m.n, v, b.m.lo / UNIT[u], b.m.hi / UNIT[u]);
      nontrivial();
      probe("total judged");
    } else if (t.is("faster")) {
      Box &o = box[j];
      if (!o.c)
        continue;
      opcount("faster");
      evals();
      bool x, y;
      {
        OnClock on;
        Lib lib;
        x = b.c->is_faster(*o.c);
        y = o.c->is_faster(*b.c);
      }
      trace("faster %d %d: %d %d", k, j, x, y);
      if (x && y)
        fail("order", "each of two timers is faster than the other");
      if (!b.m.n || !o.m.n) {
        probe("compared without samples");
        continue;
      }
      if (b.m.odd || o.m.odd)
        continue;
      const LD bl = b.m.lo / 1000.L / b.m.n, bh = b.m.hi / 1000.L / b.m.n, ol = o.m.lo / 1000.L / o.m.n, oh = o.m.hi / 1000.L / o.m.n;
      if (bh + 1 < ol - .001L && !x)
        fail("order", "%Lg us per run is not faster than %Lg us", bh, ol);
      if (oh < bl && x)
        fail("order", "%Lg us per run is faster than %Lg us", bl, oh);
      nontrivial();
      probe("order judged");
    } else if (t.is("compare")) {
      Box &o = box[j];
      if (!o.c)
        continue;
      opcount("compare");
      evals();
      char *out = nullptr;
      size_t len = 0;
      FILE *keep = stdout;
      FILE *m = open_memstream(&out, &len);
      stdout = m;
      {
        OnClock on;
        Lib lib;
        b.c->compare(*o.c);
      }
      stdout = keep;
      fclose(m);
      const std::string text(out ? out : "", len);
      free(out);
      trace("compare %d %d: %s", k, j, text.substr(0, 1000).c_str());
      if (!b.m.n || !o.m.n) {
        probe("compared without samples");
        continue;
      }
      if (b.m.odd || o.m.odd)
        continue;
      const LD bl = b.m.lo / 1000.L / b.m.n, bh = b.m.hi / 1000.L / b.m.n, ol = o.m.lo / 1000.L / o.m.n, oh = o.m.hi / 1000.L / o.m.n;
      if (ol < 1000 || bh > ol * 1e6L)
        continue;
      const size_t p = text.rfind('%');
      const size_t q = p == std::string::npos ? p : text.rfind(':', p);
      if (q == std::string::npos)
        continue; /* another layout */
      const double got = atof(text.c_str() + q + 1);
      const LD wl = 100 * (bl - 1 - oh) / oh, wh = 100 * (bh - (ol - 1)) / (ol - 1);
      if (!(got >= wl - .0501L - 1e-9L * fabsl(wl)) || !(got <= wh + .0501L + 1e-9L * fabsl(wh)))
        fail("comparison", "printed %g %%, the timers differ by %Lg to %Lg %%", got, wl, wh);
      nontrivial();
      probe("comparison judged");
    }
  }
  simtime((g_mono - t0) / 1e9 * 0);
  for (auto &b : box)
    b.c.reset();
  check_leaks("at the end");
}
