// P52, P53: what holds under concurrency.  The library of this group is built so
// that every load and store it makes, and every block copy, calls back here: each
// is a point where another thread of execution may run.
#include "pbt.h"
#include <algorithm>
#include <cmath>
#include <exception>
#include <sanitizer/common_interface_defs.h>
#include <ucontext.h>
#include <swiftnav/almanac.h>
#include <swiftnav/bits.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/set.h>
#include <swiftnav/shm.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>
#include <swiftnav/single_epoch_solver.h>
#include <swiftnav/troposphere.h>
using namespace pbt;

// ---------------------------------------------------------------- scheduling points
#define NOCOV __attribute__((no_sanitize("coverage")))
static void (*g_point)(const void *) = nullptr;  // called at every scheduling point while set; the address for a store
#define POINT(sfx, T) \
  extern "C" NOCOV void __sanitizer_cov_load##sfx(T *) { if (__builtin_expect(g_point != nullptr, 0)) g_point(nullptr); } \
  extern "C" NOCOV void __sanitizer_cov_store##sfx(T *p) { if (__builtin_expect(g_point != nullptr, 0)) g_point(p); }
POINT(1, uint8_t)
POINT(2, uint16_t)
POINT(4, uint32_t)
POINT(8, uint64_t)
POINT(16, __int128)
// block copies happen a few bytes at a time
extern "C" void *vp_memcpy(void *d, const void *s, size_t n) {
  if (!g_point) return memcpy(d, s, n);
  for (size_t i = 0; i < n;) {
    g_point((char *)d + i);
    size_t k = std::min<size_t>(n - i, n <= 16 ? 1 : (n + 15) / 16);
    memcpy((char *)d + i, (const char *)s + i, k);
    i += k;
  }
  g_point(nullptr);
  return d;
}
extern "C" void *vp_memmove(void *d, const void *s, size_t n) {
  if (g_point) g_point(d);
  memmove(d, s, n);
  if (g_point) g_point(nullptr);
  return d;
}

// ---------------------------------------------------------------- P52
namespace {
const size_t STACK = 512 * 1024;
struct Fiber {
  ucontext_t ctx;
  char *stack = nullptr;
  void (*body)() = nullptr;
  bool done = false;
  void *fake = nullptr;
} g_fib[2];
ucontext_t g_main;
void *g_main_fake;
const void *g_main_bottom;
size_t g_main_size;
int g_cur = -1;       // fiber running
int g_left;           // scheduling points until the other side may run (-1: until its operation ends)
std::exception_ptr g_err;
std::string g_trace;

NOCOV void to_main() {
  Fiber &f = g_fib[g_cur];
  __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fake, g_main_bottom, g_main_size);
  swapcontext(&f.ctx, &g_main);
  __sanitizer_finish_switch_fiber(f.fake, &g_main_bottom, &g_main_size);
}
NOCOV void sched_point(const void *) {
  if (g_cur < 0 || g_left < 0) return;
  if (g_left-- == 0) to_main();
}
void op_end() { if (g_cur >= 0 && g_left < 0) to_main(); }
void entry() {
  __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
  try { g_fib[g_cur].body(); } catch (...) { g_err = std::current_exception(); }
  g_fib[g_cur].done = true;
  to_main();
}
void start(int i, void (*body)()) {
  Fiber &f = g_fib[i];
  if (!f.stack) f.stack = (char *)malloc(STACK);
  f.body = body;
  f.done = false;
  f.fake = nullptr;
  getcontext(&f.ctx);
  f.ctx.uc_stack.ss_sp = f.stack;
  f.ctx.uc_stack.ss_size = STACK;
  f.ctx.uc_link = nullptr;
  makecontext(&f.ctx, entry, 0);
}
void resume(int i, int left) {
  g_cur = i;
  g_left = left;
  g_point = sched_point;
  __sanitizer_start_switch_fiber(&g_main_fake, g_fib[i].stack, STACK);
  swapcontext(&g_main, &g_fib[i].ctx);
  __sanitizer_finish_switch_fiber(g_main_fake, nullptr, nullptr);
  g_point = nullptr;
  g_cur = -1;
  if (g_err) { auto e = g_err; g_err = nullptr; std::rethrow_exception(e); }
}
// library calls are scheduled, the harness's own work is not

struct POp { int kind; uint32_t len; };
// what both sides have done, as the harness sees it
struct Shared {
  fifo_t *f;
  uint32_t size;
  uint64_t w, r;          // bytes accepted by finished writes / removed by finished removals
  uint64_t wcur, rcur;    // most an unfinished write / removal can add
  uint8_t seed;
  std::vector<POp> prod, cons;
  bool mid = false;       // some operation was interrupted by the other side
  uint32_t prod_ops = 0, cons_ops = 0;
} S;
uint8_t at(uint64_t i) {
  uint64_t x = (i + S.seed) * 0x9E3779B97F4A7C15ull;
  return (uint8_t)(x >> 56);
}
int64_t clip(int64_t v) { return v < 0 ? 0 : v > (int64_t)S.size ? (int64_t)S.size : v; }
// least and most that can be stored, given what is finished and what is under way
int64_t stored_lo() { return clip((int64_t)(S.w - (S.r + S.rcur))); }
int64_t stored_hi() { return clip((int64_t)(S.w + S.wcur - S.r)); }
// Each side knows its own count exactly; of the other side's it knows at least
// what was finished when the call began and at most what was begun when it ended.
int64_t known() { return clip((int64_t)(S.w - S.r)); }

void produce(uint32_t len, bool whole) {
  Buf b(len);
  for (uint32_t i = 0; i < len; i++) b[i] = at(S.w + i);
  int64_t lo = std::min<int64_t>(len, S.size - known());
  S.wcur = len;
  uint32_t c0 = S.cons_ops;
  uint32_t n = fifo_write(S.f, b.p, len);
  S.wcur = 0;
  int64_t hi = std::min<int64_t>(len, S.size - stored_lo());
  CHECK(n >= lo && n <= hi, "write(%u) returned %u; between its start and end there was room for %lld to %lld", len, n, (long long)lo, (long long)hi);
  if (whole) CHECK(n == len, "write of the %u bytes fifo_space promised accepted %u", len, n);
  for (uint32_t i = 0; i < len; i++) CHECK(b[i] == at(S.w + i), "write changed its input");
  S.w += n;
  S.prod_ops++;
  if (S.cons_ops != c0) S.mid = true;
  op_end();
}
void prod_body() {
  for (const POp &o : S.prod) {
    if (o.kind == 0) { produce(o.len, false); continue; }
    if (o.kind == 1) {
      int64_t lo = S.size - known();
      uint32_t s = fifo_space(S.f);
      int64_t hi = S.size - stored_lo();
      CHECK(s >= lo && s <= hi, "space seen by the producer is %u, not between %lld and %lld", s, (long long)lo, (long long)hi);
      op_end();
      produce(s, true);
    } else {
      int64_t hi = known();
      uint32_t l = fifo_length(S.f);
      int64_t lo = stored_lo();
      CHECK(l >= lo && l <= hi, "length seen by the producer is %u, not between %lld and %lld", l, (long long)lo, (long long)hi);
      op_end();
    }
  }
}
// read and remove take bytes out, peek leaves them.  Returns how many.
uint32_t consume(int kind, uint32_t len, int64_t exact) {
  Buf b(len);
  if (len) memset(b.p, 0x77, len);
  int64_t lo = std::min<int64_t>(len, known());
  uint32_t p0 = S.prod_ops;
  const char *nm = kind == 0 ? "read" : kind == 1 ? "peek" : "remove";
  if (kind != 1) S.rcur = len;
  uint32_t n = kind == 0 ? fifo_read(S.f, b.p, len) : kind == 1 ? fifo_peek(S.f, b.p, len) : fifo_remove(S.f, len);
  S.rcur = 0;
  int64_t hi = std::min<int64_t>(len, stored_hi());
  CHECK(n >= lo && n <= hi, "%s(%u) returned %u; between its start and end there were %lld to %lld bytes", nm, len, n, (long long)lo, (long long)hi);
  if (exact >= 0) CHECK(n == (uint64_t)exact, "%s(%u) of bytes known to be there returned %u", nm, len, n);
  if (kind != 2) {
    for (uint32_t i = 0; i < n; i++)
      CHECK(b[i] == at(S.r + i), "%s: byte %llu of the stream read as %02x, written as %02x", nm, (unsigned long long)(S.r + i), b[i], at(S.r + i));
    for (uint32_t i = n; i < len; i++) CHECK(b[i] == 0x77, "%s wrote past the %u bytes it returned", nm, n);
  }
  if (kind != 1) S.r += n;
  S.cons_ops++;
  if (S.prod_ops != p0) S.mid = true;
  op_end();
  return n;
}
void cons_body() {
  for (const POp &o : S.cons) {
    if (o.kind <= 2) consume(o.kind, o.len, -1);
    else if (o.kind == 3) {  // look first, then take part of what was seen
      uint32_t n = consume(1, o.len, -1);
      uint32_t t = n ? (uint32_t)((o.len * 7u) % (n + 1)) : 0;
      consume(2, t, t);
    } else if (o.kind == 4) {
      int64_t lo = known();
      uint32_t l = fifo_length(S.f);
      int64_t hi = stored_hi();
      CHECK(l >= lo && l <= hi, "length seen by the consumer is %u, not between %lld and %lld", l, (long long)lo, (long long)hi);
      op_end();
      consume(0, l, l);
    } else {
      int64_t hi = S.size - known();
      uint32_t s = fifo_space(S.f);
      int64_t lo = S.size - stored_hi();
      CHECK(s >= lo && s <= hi, "space seen by the consumer is %u, not between %lld and %lld", s, (long long)lo, (long long)hi);
      op_end();
    }
  }
}
void begin(fifo_t *f, uint8_t *mem, uint32_t size, uint32_t off, uint32_t fill, uint8_t seed) {
  S.f = f;
  S.size = size;
  S.w = S.r = S.wcur = S.rcur = 0;
  S.seed = seed;
  S.mid = false;
  S.prod_ops = S.cons_ops = 0;
  g_point = nullptr;
  g_cur = -1;
  g_err = nullptr;
  memset(f, 0xA5, sizeof *f);
  memset(mem, 0xEE, size);
  fifo_init(f, mem, size);
  for (uint32_t k = 0; k < off; k++) {
    uint8_t b = at(S.w), o;
    CHECK(fifo_write(f, &b, 1) == 1 && fifo_read(f, &o, 1) == 1 && o == b, "single byte through an empty fifo");
    S.w++; S.r++;
  }
  for (uint32_t k = 0; k < fill; k++) { uint8_t b = at(S.w); CHECK(fifo_write(f, &b, 1) == 1, "single byte refused"); S.w++; }
}
void finish() {
  CHECK(fifo_length(S.f) == S.w - S.r && fifo_space(S.f) == S.size - (S.w - S.r), "at rest: length %u space %u with %llu of %u stored", fifo_length(S.f), fifo_space(S.f),
        (unsigned long long)(S.w - S.r), S.size);
  consume(0, S.size, (int64_t)(S.w - S.r));
  CHECK(S.r == S.w, "bytes lost at the end");
}
}  // namespace
SUB(P52, histories, 3, 20000, "a fifo of 1..64 bytes at a random offset and fill; a producer of 1..8 operations (writes of any length, exactly the space it saw, space and length queries) and a consumer of 1..8 (read, peek, remove, peek then remove, exactly the length it saw, queries) interleaved at generated points down to single loads, stores and copied bytes; every byte, count and bound against the stream; non-trivial: an operation was interrupted by a finished one of the other side and data crossed the end of the buffer") {
  uint32_t size = 1u << c.range(0, 6);
  Buf mem(size), fm(sizeof(fifo_t));
  begin((fifo_t *)fm.p, mem.p, size, (uint32_t)c.draw(size - 1), (uint32_t)c.u(size), c.byte());
  c.note("size %u, %llu stored at offset %llu", size, (unsigned long long)(S.w - S.r), (unsigned long long)(S.r % size));
  S.prod.clear();
  S.cons.clear();
  int np = (int)c.size(1, 8), nc = (int)c.size(1, 8);
  for (int i = 0; i < np; i++) S.prod.push_back({(int)c.pick({0, 0, 0, 0, 1, 1, 2}), (uint32_t)(c.chance(1, 8) ? size + c.u(size) : c.u(size))});
  for (int i = 0; i < nc; i++) S.cons.push_back({(int)c.pick({0, 0, 0, 1, 2, 3, 3, 4, 4, 5}), (uint32_t)(c.chance(1, 8) ? size + c.u(size) : c.u(size))});
  if (c.verbose) {
    for (const POp &o : S.prod) c.note("producer op %d len %u", o.kind, o.len);
    for (const POp &o : S.cons) c.note("consumer op %d len %u", o.kind, o.len);
  }
  start(0, prod_body);
  start(1, cons_body);
  while (!g_fib[0].done || !g_fib[1].done) {
    int i = (int)c.draw(1);
    if (g_fib[i].done) i = 1 - i;
    int k = (int)c.draw(24);
    k = k == 0 ? -1 : k > 20 ? (k - 20) * 16 : k;
    if (c.verbose) { if (k < 0) c.note("run %s to the end of its operation", i ? "consumer" : "producer"); else c.note("run %s for %d steps", i ? "consumer" : "producer", k); }
    resume(i, k);
  }
  uint64_t wrapped = S.w / size;
  finish();
  c.nontrivial(S.mid && wrapped > 0);
}
static const int E_OFF = 4, E_FILL = 5, E_LEN = 6;
EXH(P52, one_against_one, 2 * E_OFF * E_FILL * E_LEN * E_LEN * 3, "every single write against every single read, peek-and-remove or remove on a 4-byte fifo (all offsets, fills, lengths 0..5), either one first, preempted at every step k and resumed after every number j of the other's steps; non-trivial: both lengths above zero") {
  uint64_t v = c.draw(2 * E_OFF * E_FILL * E_LEN * E_LEN * 3 - 1);
  int first = (int)(v % 2); v /= 2;
  uint32_t off = (uint32_t)(v % E_OFF); v /= E_OFF;
  uint32_t fill = (uint32_t)(v % E_FILL); v /= E_FILL;
  uint32_t wl = (uint32_t)(v % E_LEN); v /= E_LEN;
  uint32_t rl = (uint32_t)(v % E_LEN); v /= E_LEN;
  static const int kinds[3] = {0, 3, 2};
  int kind = kinds[v];
  Buf mem(4), fm(sizeof(fifo_t));
  S.prod = {{0, wl}};
  S.cons = {{kind, rl}};
  c.note("offset %u, %u stored, write %u against %s %u, %s first", off, fill, wl, kind == 0 ? "read" : kind == 3 ? "peek+remove" : "remove", rl, first ? "consumer" : "producer");
  // 1000 steps are always enough to finish
  for (int k = 0; k < 1000; k++) {
    bool over = false;
    for (int j = 0; j < 1000; j++) {
      begin((fifo_t *)fm.p, mem.p, 4, off, fill, 7);
      start(0, prod_body);
      start(1, cons_body);
      resume(first, k);
      over = g_fib[first].done;
      bool all = false;
      if (!over) { resume(1 - first, j); all = g_fib[1 - first].done; }
      while (!g_fib[first].done) resume(first, 100000);
      while (!g_fib[1 - first].done) resume(1 - first, 100000);
      finish();
      if (over || all) break;
    }
    if (over) break;
  }
  c.nontrivial(wl && rl);
}

// ---------------------------------------------------------------- P53
namespace {
uint64_t mix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
const size_t NIN = 200;
struct In {
  uint64_t s[NIN];
  size_t i = 0, used = 0;
  uint64_t next() { uint64_t v = s[i % NIN]; i++; if (i > used) used = i; return v; }
  uint64_t u(uint64_t max) { return max == UINT64_MAX ? next() : (uint64_t)(((unsigned __int128)next() * (max + 1)) >> 64); }
  int64_t r(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo)); }
  double real(double lo, double hi) { return lo + (hi - lo) * (double)(next() >> 11) * 0x1p-53; }
  bool chance(unsigned n, unsigned d) { return u(d - 1) < n; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u(l.size() - 1)); }
};
struct Out {
  std::vector<uint64_t> v;
  void u(uint64_t x) { v.push_back(x); }
  void d(double x) { uint64_t b; memcpy(&b, &x, 8); v.push_back(b); }
  void f(float x) { uint32_t b; memcpy(&b, &x, 4); v.push_back(b); }
  void d(const double *p, size_t n) { for (size_t i = 0; i < n; i++) d(p[i]); }
  void t(const gps_time_t &t) { d(t.tow); u((uint64_t)(int64_t)t.wn); }
  void s(const char *p) { uint64_t h = 5381; while (*p) h = h * 33 + (uint8_t)*p++; u(h); }
  void raw(const void *p, size_t n) { for (size_t i = 0; i < n; i++) u(((const uint8_t *)p)[i]); }
};
void clear(void *p, size_t n) { memset(p, 0, n); }
template <class T> T zero() { T t; memset(&t, 0, sizeof t); return t; }

gps_time_t gtime(In &i) { gps_time_t t = zero<gps_time_t>(); t.wn = (s16)i.r(1, 3000); t.tow = i.chance(1, 4) ? (double)i.r(0, 604799) : i.real(0, 604799.99); return t; }
utc_params_t uparams(In &i, const gps_time_t &t) {
  utc_params_t p = zero<utc_params_t>();
  p.a0 = i.real(-1e-7, 1e-7); p.a1 = i.real(-1e-13, 1e-13); p.a2 = 0;
  p.tot = t; p.tot.tow = (double)i.r(0, 147) * 4096; p.t_lse = t;
  p.t_lse.wn = (s16)(t.wn + i.r(-20, 20)); p.t_lse.tow = (double)i.r(1, 7) * 86400 - 86400;
  p.dt_ls = (s8)i.r(10, 20); p.dt_lsf = (s8)(p.dt_ls + i.r(-1, 1));
  return p;
}
void o_utm(Out &o, const utc_tm &u) { o.u(u.year); o.u(u.year_day); o.u(u.month); o.u(u.month_day); o.u(u.week_day); o.u(u.hour); o.u(u.minute); o.u(u.second_int); o.d(u.second_frac); }

void op_time(In &i, Out &o) {
  gps_time_t a = gtime(i), b = gtime(i);
  o.d(gpsdifftime(&a, &b));
  gps_time_duration_t du = zero<gps_time_duration_t>();
  o.u(gpsdifftime_week_second(&a, &b, &du)); o.d(du.seconds); o.u((uint16_t)du.weeks);
  gps_time_t k = a;
  add_secs(&k, i.real(-1e6, 1e6));
  o.t(k);
  k = b; k.tow += i.real(-1e6, 1e6);
  o.u(normalize_gps_time_safe(&k)); o.t(k);
  o.u((uint64_t)gps2time(&a));
  o.t(time2gps_t((time_t)i.r(1700000000, 4000000000)));
  gps_time_t m = b; m.wn = WN_UNKNOWN;
  o.u(gps_time_match_weeks_safe(&m, &a)); o.t(m);
  o.u(gps_adjust_week_cycle((u16)i.r(0, 1023), (u16)i.r(1024, 4000)));
  o.u(gps_adjust_week_cycle256((u16)i.r(0, 255), (u16)i.r(1024, 4000)));
  o.t(round_to_epoch(&a, i.pick({1.0, 2.0, 5.0, 10.0, 20.0})));
  o.t(floor_to_epoch(&a, i.pick({1.0, 2.0, 5.0, 10.0, 20.0})));
  o.u(gps_time_valid(&k)); o.u(gps_current_time_valid(&a));
  o.u(gps2doy(&a));
  gps_time_t e = a; e.tow = 604000;
  o.u(gpstime_in_range(&a, &e, &b));
}
void op_utc(In &i, Out &o) {
  gps_time_t a = gtime(i);
  utc_params_t p = uparams(i, a);
  const utc_params_t *q = i.chance(1, 2) ? &p : nullptr;
  utc_tm u = zero<utc_tm>();
  gps2utc(&a, &u, q); o_utm(o, u);
  gps_time_t g = zero<gps_time_t>();
  utc2gps(&u, &g, q); o.t(g);
  o.d(get_gps_utc_offset(&a, q)); o.d(get_utc_gps_offset(&a, q)); o.u(is_leap_second_event(&a, q));
  utc_tm w = zero<utc_tm>();
  make_utc_tm(&a, &w); o_utm(o, w);
  o.d(utc2gmst(u, i.real(-0.9, 0.9)));
  if (a.wn > 900) {
    glo_time_t gl = gps2glo(&a, q);
    o.u(gl.nt); o.u(gl.n4); o.u(gl.h); o.u(gl.m); o.d(gl.s);
    o.t(glo2gps(&gl, q));
  }
}
void op_date(In &i, Out &o) {
  s32 Y = (s32)i.r(1981, 2090), M = (s32)i.r(1, 12), D = (s32)i.r(1, 28), h = (s32)i.r(0, 23), m = (s32)i.r(0, 59);
  double s = i.real(0, 59.9);
  double j = date2mjd(Y, M, D, h, m, s);
  o.d(j);
  s32 y2, m2, d2, h2, n2; double s2;
  mjd2date(j, &y2, &m2, &d2, &h2, &n2, &s2);
  for (s32 k : {y2, m2, d2, h2, n2}) o.u((uint32_t)k);
  o.d(s2);
  gps_time_t g = date2gps(Y, M, D, h, m, s);
  o.t(g);
  utc_params_t p = uparams(i, g);
  const utc_params_t *q = i.chance(1, 2) ? &p : nullptr;
  gps2date_params(&g, &y2, &m2, &d2, &h2, &n2, &s2, q);
  for (s32 k : {y2, m2, d2, h2, n2}) o.u((uint32_t)k);
  o.d(s2);
  o_utm(o, mjd2utc(j));
  utc_tm u = date2utc(Y, M, D, h, m, s);
  o_utm(o, u);
  o.d(utc2mjd(&u));
  o.t(mjd2gps_params(j, q));
  o.d(gps2mjd_params(&g, q));
  o.u(days_in_month((u16)Y, (u8)M));
}
u32 word(In &i) { return (u32)i.next(); }
void o_kepler(Out &o, const ephemeris_kepler_t &k) {
  o.f(k.tgd.gps_s[0]); o.f(k.tgd.gps_s[1]);
  for (double d : {k.crc, k.crs, k.cuc, k.cus, k.cic, k.cis, k.dn, k.m0, k.ecc, k.sqrta, k.omega0, k.omegadot, k.w, k.inc, k.inc_dot, k.af0, k.af1, k.af2}) o.d(d);
  o.t(k.toc); o.u(k.iodc); o.u(k.iode);
}
void o_eph(Out &o, const ephemeris_t &e) {
  o.u(e.sid.sat); o.u((uint32_t)e.sid.code); o.t(e.toe); o.f(e.ura); o.u(e.fit_interval); o.u(e.valid); o.u(e.health_bits);
}
void op_decode_gps(In &i, Out &o) {
  u32 w[8], fw[3][8];
  for (u32 &x : w) x = word(i);
  if (i.chance(1, 2)) w[0] = (w[0] & 0x00ffffff) | (u32)i.pick({0x77u, 0x78u, 0x59u, 0x60u, 0x33u}) << 22;
  utc_params_t u = zero<utc_params_t>();
  o.u(decode_utc_parameters_with_wn_ref(w, &u, 2000)); o.d(u.a0); o.d(u.a1); o.t(u.tot); o.t(u.t_lse); o.u((uint8_t)u.dt_ls); o.u((uint8_t)u.dt_lsf);
  ionosphere_t ion = zero<ionosphere_t>();
  o.u(decode_iono_parameters(w, &ion)); o.d(ion.a0); o.d(ion.a3); o.d(ion.b0); o.d(ion.b3);
  almanac_t a = zero<almanac_t>();
  o.u(almanac_decode(w, &a)); o.u(a.sid.sat); o.d(a.data.kepler.ecc); o.d(a.data.kepler.m0); o.d(a.data.kepler.inc); o.d(a.data.kepler.af0);
  almanac_health_t h = zero<almanac_health_t>();
  o.u(almanac_decode_health(w, &h)); o.u(h.health_bits_valid); o.raw(h.health_bits, 32);
  almanac_ref_week_t rw = zero<almanac_ref_week_t>();
  o.u(almanac_decode_week_with_wn_ref(w, &rw, 2000)); o.u((uint16_t)rw.wna); o.u((uint32_t)rw.toa);
  for (auto &r : fw) for (u32 &x : r) x = word(i);
  ephemeris_t e = zero<ephemeris_t>();
  e.sid.code = i.chance(1, 4) ? CODE_QZS_L1CA : CODE_GPS_L1CA; e.sid.sat = e.sid.code == CODE_QZS_L1CA ? 195 : 7;
  decode_ephemeris_with_wn_ref(fw, &e, (double)i.r(0, 604799), 2000);
  o_eph(o, e); o_kepler(o, e.data.kepler);
}
void op_decode_other(In &i, Out &o) {
  u32 w[3][10];
  for (auto &r : w) for (u32 &x : r) x = word(i) & 0x3fffffff;
  ephemeris_t e = zero<ephemeris_t>();
  gnss_signal_t sid = zero<gnss_signal_t>();
  sid.code = CODE_BDS2_B1; sid.sat = (u16)i.r(1, 63);
  decode_bds_d1_ephemeris(w, sid, &e);
  o_eph(o, e); o_kepler(o, e.data.kepler);
  ionosphere_t ion = zero<ionosphere_t>();
  decode_bds_d1_iono(w[0], &ion);
  o.d(ion.a0); o.d(ion.a1); o.d(ion.a3); o.d(ion.b0); o.d(ion.b3);
  u8 page[5][GAL_INAV_CONTENT_BYTE];
  for (auto &p : page) for (u8 &x : p) x = (u8)i.next();
  for (int k = 0; k < 5; k++) page[k][0] = (u8)((page[k][0] & 3) | (k + 1) << 2);
  u16 iod = (u16)(i.next() & 0x3ff);
  for (int k = 0; k < 4; k++) { page[k][0] = (u8)((page[k][0] & 0xfc) | (iod >> 8)); page[k][1] = (u8)iod; }
  setbitu(page[3], 16, 6, (u32)i.r(1, 36));
  ephemeris_t g = zero<ephemeris_t>();
  g.sid.code = CODE_GAL_E1B; g.sid.sat = 11;
  o.u(decode_gal_ephemeris_safe(page, &g));
  o_eph(o, g); o_kepler(o, g.data.kepler);
}
void op_decode_glo(In &i, Out &o) {
  glo_string_t s[5];
  clear(s, sizeof s);
  for (int k = 0; k < 5; k++) {
    for (int j = 0; j < GLO_NAV_STR_WORDS; j++) s[k].word[j] = word(i);
    o.u((uint8_t)error_detection_glo(&s[k]));
    o.u(extract_word_glo(&s[k], (u16)i.r(1, 50), (u8)i.r(1, 32)));
    s[k].word[2] = (s[k].word[2] & ~(0xfu << 16)) | (u32)(k + 1) << 16;
  }
  ephemeris_t e = zero<ephemeris_t>();
  e.sid.code = CODE_GLO_L1OF; e.sid.sat = (u16)i.r(1, 28);
  glo_time_t tk = zero<glo_time_t>(), toe = zero<glo_time_t>();
  u8 age = 0; float tau = 0;
  o.u(decode_glo_string_1(&s[0], &e, &tk)); o.u(decode_glo_string_2(&s[1], &e, &toe)); o.u(decode_glo_string_3(&s[2], &e, &toe));
  o.u(decode_glo_string_4(&s[3], &e, &tk, &toe, &age)); o.u(decode_glo_string_5(&s[4], &e, &tk, &toe, &tau));
  o.u(tk.nt); o.u(tk.n4); o.u(tk.h); o.u(tk.m); o.d(tk.s); o.u(toe.nt); o.u(toe.n4); o.u(toe.h); o.u(toe.m); o.d(toe.s); o.u(age); o.f(tau);
  o_eph(o, e);
  o.d(e.data.glo.gamma); o.d(e.data.glo.tau); o.d(e.data.glo.d_tau); o.d(e.data.glo.pos, 3); o.d(e.data.glo.vel, 3); o.d(e.data.glo.acc, 3); o.u(e.data.glo.iod);
}
gnss_signal_t mksid(int code, int sat) { gnss_signal_t s = zero<gnss_signal_t>(); s.code = (code_t)code; s.sat = (u16)sat; return s; }
ephemeris_t geph(In &i, satellite_orbit_type_t &orb) {
  ephemeris_t e = zero<ephemeris_t>();
  orb = MEO;
  e.toe = gtime(i); e.toe.tow = floor(e.toe.tow / 16) * 16;
  e.ura = (float)i.real(1, 10); e.fit_interval = 14400; e.valid = 1;
  int k = (int)i.u(6);
  if (k == 5) {  // GLONASS
    e.sid = mksid(CODE_GLO_L1OF, (int)i.r(1, 28));
    double r = i.real(2.4e7, 2.6e7), la = i.real(-1, 1), lo = i.real(-3, 3);
    e.data.glo.pos[0] = r * cos(la) * cos(lo); e.data.glo.pos[1] = r * cos(la) * sin(lo); e.data.glo.pos[2] = r * sin(la);
    for (double &v : e.data.glo.vel) v = i.real(-2500, 2500);
    for (double &v : e.data.glo.acc) v = i.real(-4e-6, 4e-6);
    e.data.glo.gamma = i.real(-1e-9, 1e-9); e.data.glo.tau = i.real(-1e-3, 1e-3); e.data.glo.d_tau = i.real(-1e-8, 1e-8);
    e.data.glo.fcn = (u16)i.r(1, 14); e.data.glo.iod = (u8)i.next();
    e.fit_interval = 2400;
    return e;
  }
  if (k == 6) {
    e.sid = mksid(CODE_SBAS_L1CA, (int)i.r(120, 138));
    for (double &v : e.data.xyz.pos) v = i.real(-4e7, 4e7);
    for (double &v : e.data.xyz.vel) v = i.real(-30, 30);
    for (double &v : e.data.xyz.acc) v = i.real(-0.05, 0.05);
    e.data.xyz.a_gf0 = i.real(-1e-6, 1e-6); e.data.xyz.a_gf1 = i.real(-1e-9, 1e-9);
    e.fit_interval = 600;
    return e;
  }
  ephemeris_kepler_t &q = e.data.kepler;
  switch (k) {
    default: e.sid = mksid(CODE_GPS_L1CA, (int)i.r(1, 32)); break;
    case 2: e.sid = mksid(CODE_GAL_E1B, (int)i.r(1, 36)); break;
    case 3: e.sid = mksid(CODE_BDS2_B1, (int)i.r(1, 63)); orb = e.sid.sat <= 5 ? GEO : e.sid.sat < 20 ? IGSO : MEO; break;
    case 4: e.sid = mksid(CODE_QZS_L1CA, (int)i.r(193, 202)); orb = IGSO; break;
  }
  q.tgd.gps_s[0] = (float)i.real(-2e-8, 2e-8); q.tgd.gps_s[1] = (float)i.real(-2e-8, 2e-8);
  q.crc = i.real(-400, 400); q.crs = i.real(-400, 400);
  for (double *p : {&q.cuc, &q.cus, &q.cic, &q.cis}) *p = i.real(-1e-5, 1e-5);
  q.dn = i.real(-5e-9, 5e-9); q.m0 = i.real(-3.14, 3.14); q.ecc = i.real(0, 0.1); q.sqrta = orb == MEO ? i.real(5100, 5450) : i.real(6450, 6550);
  q.omega0 = i.real(-3.14, 3.14); q.omegadot = i.real(-1e-8, 1e-8); q.w = i.real(-3.14, 3.14); q.inc = orb == GEO ? i.real(0, 0.1) : i.real(0.6, 1.0); q.inc_dot = i.real(-1e-9, 1e-9);
  q.af0 = i.real(-1e-3, 1e-3); q.af1 = i.real(-1e-11, 1e-11); q.af2 = i.chance(1, 2) ? 0 : i.real(-1e-17, 1e-17);
  q.toc = e.toe; q.iode = (u16)i.r(0, 255); q.iodc = q.iode;
  return e;
}
void op_sat(In &i, Out &o) {
  satellite_orbit_type_t orb;
  ephemeris_t e = geph(i, orb);
  gps_time_t t = e.toe;
  t.tow += i.real(-1, 1) * e.fit_interval * 0.55;
  normalize_gps_time(&t);
  double p[3] = {0, 0, 0}, v[3] = {0, 0, 0}, a[3] = {0, 0, 0}, ce = 0, cr = 0;
  o.u((uint8_t)calc_sat_state_orbit_type(&e, &t, orb, p, v, a, &ce, &cr));
  o.d(p, 3); o.d(v, 3); o.d(a, 3); o.d(ce); o.d(cr);
  double q[3] = {0, 0, 0}, w[3] = {0, 0, 0}, b[3] = {0, 0, 0}, c2 = 0, c3 = 0;
  o.u((uint8_t)calc_sat_state_n(&e, &t, orb, q, w, b, &c2, &c3)); o.d(q, 3); o.d(w, 3); o.d(b, 3); o.d(c2); o.d(c3);
  double ref[3], llh[3] = {i.real(-1.5, 1.5), i.real(-3, 3), i.real(-100, 9000)}, rv[3] = {i.real(-300, 300), i.real(-300, 300), i.real(-300, 300)};
  wgsllh2ecef(llh, ref);
  double az = 0, el = 0, dop = 0;
  o.u((uint8_t)calc_sat_az_el(&e, &t, ref, orb, &az, &el, true)); o.d(az); o.d(el);
  o.u((uint8_t)calc_sat_doppler(&e, &t, ref, rv, orb, &dop)); o.d(dop);
  o.u(ephemeris_valid_detailed(&e, &t)); o.u(ephemeris_valid(&e, &t)); o.u(get_ephemeris_status_t(&e)); o.u(ephemeris_healthy(&e, e.sid.code));
  ephemeris_t e2 = e;
  if (i.chance(1, 2)) e2.data.kepler.m0 += 1;
  o.u(ephemeris_equal(&e, &e2));
  float tg = 0;
  constellation_t cn = sid_to_constellation(e.sid);
  if (cn != CONSTELLATION_GLO && cn != CONSTELLATION_SBAS) { o.u((uint8_t)get_tgd_correction(&e, &e.sid, &tg)); o.f(tg); }
  if (cn == CONSTELLATION_BDS) o.u(get_bds2_iod_crc(&e));
  o.u(encode_ura(e.ura)); o.f(decode_ura_index((u8)i.r(0, 15))); o.f(decode_sisa_index((u8)i.r(0, 255))); o.f(decode_bds_ura_index((u8)i.r(0, 15)));
  o.u(decode_fit_interval((u8)i.r(0, 1), (u16)i.r(0, 1023)));
}
void op_almanac(In &i, Out &o) {
  almanac_t a = zero<almanac_t>();
  a.toa = gtime(i); a.ura = 900; a.fit_interval = 600000; a.valid = 1;
  int k = (int)i.u(2);
  if (k == 2) {
    a.sid = mksid(CODE_SBAS_L1CA, (int)i.r(120, 138));
    for (double &v : a.data.xyz.pos) v = i.real(-4e7, 4e7);
    for (double &v : a.data.xyz.vel) v = i.real(-30, 30);
    for (double &v : a.data.xyz.acc) v = i.real(-0.05, 0.05);
  } else {
    a.sid = mksid(CODE_GPS_L1CA, (int)i.r(1, 32));
    almanac_kepler_t &q = a.data.kepler;
    q.m0 = i.real(-3.14, 3.14); q.ecc = i.real(0, 0.05); q.sqrta = i.real(5140, 5170); q.omega0 = i.real(-3.14, 3.14); q.omegadot = i.real(-1e-8, 0); q.w = i.real(-3.14, 3.14);
    q.inc = i.real(0.9, 1); q.af0 = i.real(-1e-3, 1e-3); q.af1 = i.real(-1e-11, 1e-11);
  }
  gps_time_t t = a.toa;
  t.tow += i.real(-330000, 330000);
  normalize_gps_time(&t);
  double p[3] = {0, 0, 0}, v[3] = {0, 0, 0}, c[3] = {0, 0, 0}, ce = 0, cr = 0, az = 0, el = 0, dop = 0, ref[3], llh[3] = {i.real(-1.5, 1.5), i.real(-3, 3), 100};
  o.u((uint8_t)calc_sat_state_almanac(&a, &t, p, v, c, &ce, &cr)); o.d(p, 3); o.d(v, 3); o.d(c, 3); o.d(ce); o.d(cr);
  wgsllh2ecef(llh, ref);
  o.u((uint8_t)calc_sat_az_el_almanac(&a, &t, ref, &az, &el)); o.d(az); o.d(el);
  o.u((uint8_t)calc_sat_doppler_almanac(&a, &t, ref, &dop)); o.d(dop);
  o.u(almanac_valid(&a, &t)); o.u(almanac_healthy(&a));
  almanac_t b = a;
  if (i.chance(1, 2)) b.data.kepler.m0 += 1;
  o.u(almanac_equal(&a, &b));
}
void op_coord(In &i, Out &o) {
  double llh[3] = {i.real(-1.5707, 1.5707), i.real(-3.1415, 3.1415), i.real(-5000, 1e6)}, e[3], l2[3], n[3], r[3], e2[3] = {i.real(-3e7, 3e7), i.real(-3e7, 3e7), i.real(-3e7, 3e7)};
  wgsllh2ecef(llh, e); o.d(e, 3);
  wgsecef2llh(e, l2); o.d(l2, 3);
  wgsecef2llh(e2, l2); o.d(l2, 3);
  wgsecef2ned(e2, e, n); o.d(n, 3);
  wgsecef2ned_d(e2, e, n); o.d(n, 3);
  wgsned2ecef(n, e, r); o.d(r, 3);
  wgsned2ecef_d(n, e, r); o.d(r, 3);
  double az = 0, el = 0, M[3][3];
  wgsecef2azel(e2, e, &az, &el); o.d(az); o.d(el);
  wgs_ecef2ned_matrix(llh, M); o.d(&M[0][0], 9);
  ecef2ned_matrix(e2, M); o.d(&M[0][0], 9);
  llhrad2deg(llh, r); o.d(r, 3);
  llhdeg2rad(r, n); o.d(n, 3);
}
void op_linalg(In &i, Out &o) {
  u32 n = (u32)i.r(1, 6), m = (u32)i.r((int64_t)n, (int64_t)n + 3);
  double A[9 * 6], B[9 * 6], C[81], q[81], R[81], b[9], x[9], w[9], V[36];
  clear(C, sizeof C); clear(q, sizeof q); clear(R, sizeof R); clear(x, sizeof x); clear(V, sizeof V); clear(B, sizeof B);
  for (u32 k = 0; k < m * n; k++) A[k] = i.real(-10, 10);
  for (u32 k = 0; k < 9; k++) { b[k] = i.real(-10, 10); w[k] = i.real(0.1, 3); }
  o.u((uint32_t)matrix_inverse(n, A, B)); o.d(B, n * n);
  o.u((uint32_t)qrsolve(A, n, n, b, x)); o.d(x, n);
  clear(q, sizeof q); clear(R, sizeof R);
  o.u((uint32_t)qrdecomp_square(A, n, q, R)); o.d(q, n * n); o.d(R, n * n);
  clear(x, sizeof x);
  o.u((uint32_t)matrix_wlsq_solve(m, n, A, b, w, x, V)); o.d(x, n); o.d(V, n * n);
  matrix_multiply(m, n, 1, A, b, C); o.d(C, m);
  clear(B, sizeof B);
  o.u((uint32_t)matrix_pseudoinverse(m, n, A, B)); o.d(B, m * n);
  clear(C, sizeof C);
  o.u((uint32_t)matrix_ataiat(m, n, A, C)); o.d(C, n * m);
  clear(C, sizeof C);
  o.u((uint32_t)matrix_atwaiat(m, n, A, w, C)); o.d(C, n * m);
  double P[36], U[36], D[6], W[36];
  clear(P, sizeof P); clear(U, sizeof U); clear(D, sizeof D); clear(W, sizeof W);
  for (u32 r = 0; r < n; r++) for (u32 c = 0; c < n; c++) for (u32 k = 0; k < m; k++) P[r * n + c] += A[k * n + r] * A[k * n + c];
  memcpy(W, P, sizeof P);
  matrix_udu(n, W, U, D); o.d(U, n * n); o.d(D, n);
  matrix_reconstruct_udu(n, U, D, W); o.d(W, n * n);
  matrix_transpose(m, n, A, C); o.d(C, m * n);
  matrix_add_sc(m, n, A, A, i.real(-2, 2), C); o.d(C, m * n);
  o.d(vector_dot(m, b, w)); o.d(vector_norm(m, b)); o.d(vector_mean(m, b)); o.d(vector_distance(m, b, w));
  double c3[3], a3[3] = {b[0], w[0], 1}, b3[3] = {A[0], 2, w[0]};
  vector_cross(a3, b3, c3); o.d(c3, 3);
  vector_normalize(3, a3); o.d(a3, 3);
}
void op_atmo(In &i, Out &o) {
  gps_time_t t = gtime(i);
  ionosphere_t k = zero<ionosphere_t>();
  k.toa = t; k.a0 = i.real(0, 2e-8); k.a1 = i.real(-1e-8, 3e-8); k.a2 = i.real(-1e-7, 1e-7); k.a3 = i.real(-1e-7, 1e-7);
  k.b0 = i.real(8e4, 1.3e5); k.b1 = i.real(-2e5, 2e5); k.b2 = i.real(-3e5, 3e5); k.b3 = i.real(-5e5, 5e5);
  o.d(calc_ionosphere(&t, i.real(-1.5, 1.5), i.real(-3.1, 3.1), i.real(0, 6.28), i.real(0, 1.57), &k));
  o.d(calc_troposphere(i.real(1, 366), i.real(-1.57, 1.57), i.real(-500, 9000), i.real(0.02, 1.57)));
  o.f(get_geoid_offset(i.real(-1.57, 1.57), i.real(-3.14, 3.14))); o.u(get_geoid_model());
}
void op_pvt(In &i, Out &o) {
  int n = (int)i.r(4, 10), cons = (int)i.u(3);
  double llh[3] = {i.real(-1.5, 1.5), i.real(-3.1, 3.1), i.real(0, 5000)}, rx[3], clk[4];
  wgsllh2ecef(llh, rx);
  for (double &c : clk) c = i.real(-3e5, 3e5);
  static const int code[4] = {CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GLO_L1OF, CODE_BDS2_B1};
  std::vector<navigation_measurement_t> v;
  int bad = i.chance(1, 3) ? (int)i.u((uint64_t)n - 1) : -1;
  gps_time_t tor = gtime(i);
  for (int k = 0; k < n; k++) {
    navigation_measurement_t m = zero<navigation_measurement_t>();
    int g = k < 4 ? 0 : (int)i.u((uint64_t)cons);
    m.sid = mksid(code[g], k + 1);
    double az = 2.399 * k + i.real(-1, 1), el = k % 4 == 1 ? i.real(1.1, 1.5) : i.real(0.15, 0.9), ned[3] = {cos(el) * cos(az), cos(el) * sin(az), -sin(el)};
    double e[3], D[3][3];
    wgs_ecef2ned_matrix(llh, D);
    for (int a = 0; a < 3; a++) e[a] = D[0][a] * ned[0] + D[1][a] * ned[1] + D[2][a] * ned[2];
    double rho = i.real(2.05e7, 2.4e7), th = 7.2921151467e-5 * rho / GPS_C, at[3];
    for (int a = 0; a < 3; a++) at[a] = rx[a] + rho * e[a];
    m.sat_pos[0] = at[0] * cos(th) - at[1] * sin(th); m.sat_pos[1] = at[1] * cos(th) + at[0] * sin(th); m.sat_pos[2] = at[2];
    double rate = 0;
    for (int a = 0; a < 3; a++) { m.sat_vel[a] = i.real(-2500, 2500); rate += m.sat_vel[a] * e[a]; }
    m.sat_clock_err = i.real(-1e-4, 1e-4);
    m.raw_pseudorange = rho + clk[g] - GPS_C * m.sat_clock_err + i.real(-0.5, 0.5) + (k == bad ? 500 : 0);
    m.raw_measured_doppler = -rate * sid_to_carr_freq(m.sid) / GPS_C;
    m.cn0 = i.real(30, 50); m.lock_time = i.real(1, 100); m.elevation = el * 57.29578; m.tot = tor;
    m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID | NAV_MEAS_FLAG_PHASE_VALID;
    v.push_back(m);
  }
  gnss_solution s = zero<gnss_solution>();
  dops_t d = zero<dops_t>();
  gnss_sid_set_t rm = zero<gnss_sid_set_t>();
  sid_set_init(&rm);
  obs_mask_config_t mk = zero<obs_mask_config_t>();
  if (i.chance(1, 3)) { mk.cn0_mask.enable = true; mk.cn0_mask.threshold_dbhz = (float)i.real(25, 40); }
  s8 r = calc_PVT((u8)n, v.data(), &tor, i.chance(1, 4), i.chance(1, 4), &mk, (processing_strategy_t)i.u(3), &s, &d, &rm);
  o.u((uint8_t)r); o.u(s.valid); o.u(s.velocity_valid);
  for (u64 x : rm.sats) o.u(x);
  if (r < 0) return;
  o.d(s.pos_llh, 3); o.d(s.pos_ecef, 3); o.d(s.vel_ned, 3); o.d(s.vel_ecef, 3); o.d(s.err_cov, 7); if (s.velocity_valid) o.d(s.vel_cov, 7);
  o.d(s.clock_offset); o.d(s.clock_offset_var); o.d(s.clock_drift); o.d(s.clock_drift_var); o.t(s.time); o.u(s.n_sats_used); o.u(s.n_sigs_used);
  o.d(d.pdop); o.d(d.gdop); o.d(d.tdop); o.d(d.hdop); o.d(d.vdop);
}
void op_signal(In &i, Out &o) {
  code_t code = (code_t)i.u(CODE_COUNT - 1);
  gnss_signal_t any = mksid((int)code, (int)i.r(0, 250));
  o.u(sid_valid(any));
  gnss_signal_t s = sid_from_code_index(code, (u16)i.u((uint64_t)constellation_to_sat_count(code_to_constellation(code)) - 1));
  char t[SID_STR_LEN_MAX];
  clear(t, sizeof t);
  o.u((uint32_t)sid_to_string(t, sizeof t, s)); o.s(t);
  o.u(s.sat); o.u(sid_to_code_index(s)); o.d(sid_to_carr_freq(s)); o.d(sid_to_lambda(s)); o.u((uint64_t)sid_to_constellation(s));
  const char *cs = code_to_string(code);
  o.s(cs); o.u((uint64_t)code_string_to_enum(cs));
  constellation_t cn = code_to_constellation(code);
  o.s(constellation_to_string(cn)); o.u((uint64_t)constellation_string_to_enum(constellation_to_string(cn))); o.u(constellation_to_sat_count(cn));
  sub_constellation_t sc = (sub_constellation_t)i.u(SUB_CONSTELLATION_COUNT - 1);
  o.s(sub_constellation_to_string(sc)); o.u((uint64_t)sub_constellation_to_constellation(sc));
  o.u(code_to_chip_count(code)); o.d(code_to_chip_rate(code)); o.u(code_to_prn_period_ms(code)); o.u(code_requires_direct_acq(code)); o.u(code_requires_decoder(code));
  o.f(code_to_sv_doppler_min(code)); o.f(code_to_sv_doppler_max(code)); o.f(code_to_phase_alignment(code)); o.u(code_to_sig_count(code));
  gnss_signal_t sb = mksid(CODE_SBAS_L1CA, (int)i.r(120, 138));
  sbas_system_t sy = get_sbas_system(sb);
  o.u((uint64_t)(int64_t)sy);
  o.u(get_sbas_prn_list((sbas_system_t)i.u(SBAS_COUNT - 1))[0]);
  u16 s1 = 0, s2 = 0;
  o.u(glo_map_get_slot_id((u16)i.r(1, 14), &s1, &s2)); o.u(s1); o.u(s2);
  glo_biases_t b = zero<glo_biases_t>();
  b.mask = (u8)i.next(); b.l1of_bias_m = i.real(-9, 9); b.l1p_bias_m = i.real(-9, 9); b.l2of_bias_m = i.real(-9, 9); b.l2p_bias_m = i.real(-9, 9);
  o.d(get_glonass_bias(i.pick({CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GPS_L1CA}), b));
}
void op_bits(In &i, Out &o) {
  u8 b[64], d[64];
  for (u8 &x : b) x = (u8)i.next();
  clear(d, sizeof d);
  u32 n = (u32)i.r(0, 64);
  o.u(crc24q(b, n, (u32)i.u(0xffffff))); o.u(crc24q_bits((u32)i.u(0xffffff), b, (u32)i.r(1, 500), i.chance(1, 2)));
  o.u(getbitu(b, (u32)i.r(0, 400), (u8)i.r(1, 32))); o.u(getbitul(b, (u32)i.r(0, 400), (u8)i.r(1, 64))); o.u((uint32_t)getbits(b, (u32)i.r(0, 400), (u8)i.r(1, 32)));
  o.u((uint64_t)getbitsl(b, (u32)i.r(0, 400), (u8)i.r(1, 64)));
  bitcopy(d, (u32)i.r(0, 100), b, (u32)i.r(0, 100), (u32)i.r(0, 300)); o.raw(d, 64);
  bitshl(d, 64, (u32)i.r(0, 500)); o.raw(d, 64);
  setbitul(d, (u32)i.r(0, 400), (u32)i.r(1, 64), i.next()); setbitu(d, (u32)i.r(0, 400), (u32)i.r(1, 32), (u32)i.next()); o.raw(d, 64);
  o.u(parity((u32)i.next())); o.u(bytes_interleave((u8)i.next(), (u8)i.next()));
  o.u(count_bits_u64(i.next(), 1)); o.u(count_bits_u32((u32)i.next(), 0)); o.u(count_bits_u16((u16)i.next(), 1)); o.u(count_bits_u8((u8)i.next(), 1));
  u8 e[16];
  clear(e, sizeof e);
  o.u(memcpy_s(e, 16, b, (size_t)i.r(0, 20))); o.raw(e, 16);
  u8 fm[16], fo[16];
  clear(fm, sizeof fm); clear(fo, sizeof fo);
  fifo_t f;
  fifo_init(&f, fm, 16);
  o.u(fifo_write(&f, b, (u32)i.r(0, 20))); o.u(fifo_read(&f, fo, (u32)i.r(0, 16))); o.u(fifo_write(&f, b + 20, (u32)i.r(0, 20))); o.u(fifo_read(&f, fo, (u32)i.r(0, 16))); o.raw(fo, 16);
}
struct Ctx { Out *o; };
void op_sets(In &i, Out &o) {
  s32 a[10], b[10], ao[10], bo[10], w[12];
  u32 na = (u32)i.r(0, 10), nb = (u32)i.r(0, 10);
  s32 x = -100;
  for (u32 k = 0; k < na; k++) a[k] = x += (s32)i.r(1, 4);
  x = -100;
  for (u32 k = 0; k < nb; k++) b[k] = x += (s32)i.r(1, 4);
  clear(ao, sizeof ao); clear(bo, sizeof bo); clear(w, sizeof w);
  o.u(is_set((u8)na, sizeof(s32), a, cmp_s32_s32));
  s32 n = intersection(na, sizeof(s32), a, ao, nb, sizeof(s32), b, bo, cmp_s32_s32);
  o.u((uint32_t)n);
  for (s32 k = 0; k < n; k++) { o.u((uint32_t)ao[k]); o.u((uint32_t)bo[k]); }
  s32 e = (s32)i.r(-100, -60);
  o.u(insertion_index(na, sizeof(s32), a, &e, cmp_s32_s32));
  u32 k = insert_element(na, sizeof(s32), a, w, &e, cmp_s32_s32);
  o.u(k); for (u32 j = 0; j < k; j++) o.u((uint32_t)w[j]);
  k = remove_element(na, sizeof(s32), a, w, &e, cmp_s32_s32);
  o.u(k); for (u32 j = 0; j < k; j++) o.u((uint32_t)w[j]);
  Out *op = &o;
  o.u((uint32_t)intersection_map(na, sizeof(s32), a, nb, sizeof(s32), b, cmp_s32_s32, op, [](void *c, u32 q, const void *p, const void *) {
    ((Out *)c)->u(q); ((Out *)c)->u((uint32_t)*(const s32 *)p);
  }));
  gnss_sid_set_t s = zero<gnss_sid_set_t>();
  sid_set_init(&s);
  for (int j = 0; j < 6; j++) {
    code_t cd = (code_t)i.u(CODE_COUNT - 1);
    gnss_signal_t sd = sid_from_code_index(cd, (u16)i.u((uint64_t)constellation_to_sat_count(code_to_constellation(cd)) - 1));
    if (j == 4) sid_set_remove(&s, sd); else sid_set_add(&s, sd);
    o.u(sid_set_contains(&s, sd));
  }
  o.u(sid_set_get_sat_count(&s)); o.u(sid_set_get_sig_count(&s));
}
void op_meas(In &i, Out &o) {
  navigation_measurement_t m = zero<navigation_measurement_t>();
  m.sid = mksid(CODE_GPS_L1CA, (int)i.r(1, 32)); m.raw_pseudorange = i.real(1.9e7, 2.5e7); m.raw_carrier_phase = i.real(-1e8, 1e8); m.raw_measured_doppler = i.real(-5e3, 5e3);
  m.sat_clock_err = i.real(-1e-3, 1e-3); m.sat_clock_err_rate = i.real(-1e-9, 1e-9); m.flags = (u16)i.next(); m.lock_time = i.real(0, 1000); m.tot = gtime(i);
  navigation_measurement_t k = m;
  if (i.chance(1, 2)) k.cn0 += 1;
  o.u(nav_meas_equal(&m, &k)); o.u((uint32_t)nav_meas_cmp(&m, &k)); o.u(nav_meas_flags_valid(m.flags)); o.u(pseudorange_valid(&m)); o.u(encode_lock_time(m.lock_time)); o.d(decode_lock_time((u8)i.r(0, 15)));
  o.d(nav_meas_cor_sat_clk_on_pseudorange(&m)); o.d(nav_meas_cor_sat_clk_on_measured_doppler(&m)); o.d(nav_meas_cor_sat_clk_on_carrier_phase(&m));
  u8 shi = 0;
  shm_gps_decode_shi_ephemeris((u32)i.next(), &shi); o.u(shi);
  o.u(check_8bit_health_word((u8)i.next(), CODE_GPS_L1CA)); o.u(check_alma_page25_health_word((u8)i.r(0, 63), CODE_GPS_L2CM)); o.u(check_6bit_health_word((u8)i.r(0, 63), CODE_GPS_L1CA));
  o.u(check_nav_dhi((u8)i.next(), (u8)i.next()));
}
void take_snapshot();
struct Op { const char *name; void (*fn)(In &, Out &); };
const Op ops[] = {{"time", op_time}, {"utc", op_utc}, {"date", op_date}, {"decode gps", op_decode_gps}, {"decode bds/gal", op_decode_other}, {"decode glo", op_decode_glo},
                  {"satellite", op_sat}, {"almanac", op_almanac}, {"coordinates", op_coord}, {"linear algebra", op_linalg}, {"atmosphere and geoid", op_atmo}, {"solution", op_pvt},
                  {"signal", op_signal}, {"bits", op_bits}, {"sets", op_sets}, {"measurement", op_meas}};
const int NOPS = sizeof ops / sizeof *ops;
void quiet53() {
  static bool done = false;
  if (done) return;
  done = true;
  silence_logs();
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  for (int s = 1; s <= 28; s++) glo_map_set_slot_id((u16)(1 + (s * 5) % 14), (u16)s);
  take_snapshot();
}
__attribute__((noinline)) void dirty(int v) {
  volatile char b[20000];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v;
}
In expand(uint64_t seed) {
  In i;
  for (uint64_t &x : i.s) x = mix(seed);
  return i;
}
Out run_op(int op, In in, int fillv = 0) {
  Out o;
  in.i = 0;
  dirty(fillv);
  ops[op].fn(in, o);
  return o;
}
size_t used_of(int op, const In &in) { In k = in; k.i = k.used = 0; Out o; ops[op].fn(k, o); return std::min(k.used, NIN); }
void same(const Out &a, const Out &b, const char *op, const char *what) {
  CHECK(a.v.size() == b.v.size(), "%s: %zu results against %zu %s", op, a.v.size(), b.v.size(), what);
  for (size_t k = 0; k < a.v.size(); k++)
    CHECK(a.v[k] == b.v[k], "%s: result %zu is %016llx (%.17g) and %016llx (%.17g) %s", op, k, (unsigned long long)a.v[k], *(const double *)&a.v[k], (unsigned long long)b.v[k],
          *(const double *)&b.v[k], what);
}
// x with one or two of its inputs altered, a little or completely
In vary(Case &c, int op, const In &x) {
  In y = x;
  size_t n = std::max<size_t>(1, used_of(op, x));
  int k = 1 + (int)c.draw(1);
  for (int j = 0; j < k; j++) {
    size_t w = (size_t)c.draw(n - 1);
    if (c.coin()) y.s[w] = c.draw(UINT64_MAX);
    else y.s[w] ^= 1ull << c.draw(63);
  }
  return y;
}

// nested execution of another call at chosen points
struct Nest {
  int op;
  In in;
  Out want;
  uint64_t at[3];
  int n = 0, hit = 0;
  uint64_t count = 0;
} g_nest;
// the library's own writable memory: restored to what it was before the first call
extern "C" char lib_data_begin[], lib_data_end[], lib_bss_begin[], lib_bss_end[];
struct Snap { std::vector<char> d, b; } g_snap;
#define RAW __attribute__((no_sanitize("address", "coverage"), noinline))
RAW void copy_raw(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
size_t len_of(const char *a, const char *b) { return b > a ? (size_t)(b - a) : 0; }
void take_snapshot() {
  size_t nd = len_of(lib_data_begin, lib_data_end), nb = len_of(lib_bss_begin, lib_bss_end);
  g_snap.d.resize(nd); g_snap.b.resize(nb);
  copy_raw(g_snap.d.data(), lib_data_begin, nd);
  copy_raw(g_snap.b.data(), lib_bss_begin, nb);
}
void pristine() {
  copy_raw(lib_data_begin, g_snap.d.data(), g_snap.d.size());
  copy_raw(lib_bss_begin, g_snap.b.data(), g_snap.b.size());
}
NOCOV bool own(const void *p) {
  const char *q = (const char *)p;
  return (q >= lib_data_begin && q < lib_data_end) || (q >= lib_bss_begin && q < lib_bss_end);
}
// points right after which the library's own memory has been written
const int NHOT = 256;
uint64_t g_hot[NHOT];
int g_nhot;
NOCOV void count_point(const void *p) {
  if (p && own(p) && g_nhot < NHOT) g_hot[g_nhot++] = g_nest.count;
  g_nest.count++;
}
NOCOV void nest_point(const void *) {
  uint64_t k = g_nest.count++;
  if (g_nest.hit < g_nest.n && k == g_nest.at[g_nest.hit]) {
    g_nest.hit++;
    g_point = nullptr;
    Out o;
    In in = g_nest.in;
    in.i = 0;
    ops[g_nest.op].fn(in, o);
    same(o, g_nest.want, ops[g_nest.op].name, "when run in the middle of another call, and alone");
    g_point = nest_point;
  }
}
struct Armed { Armed(void (*p)(const void *)) { g_point = p; } ~Armed() { g_point = nullptr; } };
}  // namespace

SUB(P53, history, 2, 8000, "a call group (16 groups over the whole library) is evaluated on an input after unrelated inputs or with the library's static memory as at the start of the process, then again after a near-identical input (one or two arguments altered), after other groups and over dirty stack; all results must be bit-identical; non-trivial: the near-identical input gives a different result") {
  quiet53();
  g_point = nullptr;
  int op = (int)c.draw(NOPS - 1);
  In x = expand(c.draw(UINT64_MAX)), z = expand(c.draw(UINT64_MAX)), z2 = expand(c.draw(UINT64_MAX));
  In y = vary(c, op, x);
  int other = (int)c.draw(NOPS - 1);
  c.note("%s", ops[op].name);
  if (c.coin()) pristine(); else run_op(op, z);
  Out a = run_op(op, y, 0x00);
  int reps = (int)c.draw(3);
  for (int k = 0; k < reps; k++) run_op(other, expand(c.draw(UINT64_MAX)), 0x55);
  run_op(op, z2);
  Out p = run_op(op, x, 0xFF);
  Out b = run_op(op, y, 0x5A);
  same(a, b, ops[op].name, "after different earlier calls");
  Out p2 = run_op(op, x, 0x01);
  same(p, p2, ops[op].name, "before and after another call");
  c.nontrivial(p.v != b.v);
}
static void preempt(Case &c, bool fresh) {
  quiet53();
  g_point = nullptr;
  int op = (int)c.draw(NOPS - 1), other = c.coin() ? op : (int)c.draw(NOPS - 1);
  In x = expand(c.draw(UINT64_MAX));
  In y = other == op && c.chance(1, 4) ? vary(c, op, x) : expand(c.draw(UINT64_MAX));
  g_nest.op = other;
  g_nest.in = y;
  if (fresh) pristine();
  g_nest.want = run_op(other, y);
  g_nest.count = 0;
  g_nest.n = g_nest.hit = 0;
  g_nhot = 0;
  Out a;
  if (fresh) pristine();
  { Armed g(count_point); In in = x; in.i = 0; ops[op].fn(in, a); }
  uint64_t total = g_nest.count;
  if (!total) return;
  int n = 1 + (int)c.draw(2);
  for (int k = 0; k < n; k++) {
    bool hot = c.coin();
    uint64_t w = c.draw(UINT32_MAX), d = c.draw(3);
    g_nest.at[k] = hot && g_nhot ? std::min(total - 1, g_hot[w % (uint64_t)g_nhot] + 1 + d) : w % total;
  }
  std::sort(g_nest.at, g_nest.at + n);
  g_nest.n = n;
  g_nest.count = 0;
  c.note("%s interrupted by %s at %llu.. of %llu", ops[op].name, ops[other].name, (unsigned long long)g_nest.at[0], (unsigned long long)total);
  Out b;
  if (fresh) pristine();
  { Armed g(nest_point); In in = x; in.i = 0; ops[op].fn(in, b); }
  same(a, b, ops[op].name, "interrupted by another call, and alone");
  c.nontrivial(g_nest.hit > 0);
}
SUB(P53, preempted, 2, 4000, "a call group interrupted at one to three of its loads and stores (half the time right after a store to the library's own static memory, if it makes any) by a complete run of another (half the time the same) group on other inputs, both against their uninterrupted results; non-trivial: an interruption happened inside library code") { preempt(c, false); }
SUB(P53, first_use, 1, 2000, "the same with the library's static memory as it was before the first call of the process: the interrupted call is the first one; non-trivial: as above") { preempt(c, true); }
