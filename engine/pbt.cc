#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

// ---------------------------------------------------------------- coverage
static uint8_t *g_cov[64][2];
static int g_ncov = 0;

}  // namespace pbt
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
  for (int i = 0; i < pbt::g_ncov; i++)
    if (pbt::g_cov[i][0] == start) return;
  if (pbt::g_ncov < 64 && start < stop) {
    pbt::g_cov[pbt::g_ncov][0] = start;
    pbt::g_cov[pbt::g_ncov][1] = stop;
    pbt::g_ncov++;
  }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

namespace pbt {
// constants the code compared with: fed back into draws
static const int NCONST = 256;
struct Consts { int64_t v[NCONST]; int n = 0; uint64_t seen[64] = {0}; };
static Consts *g_consts = nullptr;  // current sub's
static inline void add_const(int64_t v) {
  Consts *k = g_consts;
  if (!k) return;
  uint64_t h = (uint64_t)v * 0x9E3779B97F4A7C15ull;
  uint64_t &w = k->seen[(h >> 58)];
  uint64_t bit = 1ull << ((h >> 50) & 63);
  if (w & bit) return;
  w |= bit;
  if (k->n < NCONST) k->v[k->n++] = v;
}
}  // namespace pbt
#define NOSAN __attribute__((no_sanitize("address", "undefined", "coverage")))
extern "C" {
NOSAN void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { pbt::add_const((int8_t)a); if (a > 127) pbt::add_const(a); }
NOSAN void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { pbt::add_const((int16_t)a); if (a > 32767) pbt::add_const(a); }
NOSAN void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { pbt::add_const((int32_t)a); if (a >> 31) pbt::add_const(a); }
NOSAN void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { pbt::add_const((int64_t)a); }
NOSAN void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
NOSAN void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
NOSAN void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
NOSAN void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
NOSAN void __sanitizer_cov_trace_switch(uint64_t, uint64_t *cases) {
  for (uint64_t i = 0; i < cases[0]; i++) pbt::add_const((int64_t)cases[2 + i]);
}
}

namespace pbt {
// ---------------------------------------------------------------- registry
static std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
static std::vector<Probe> &probes() { static std::vector<Probe> v; return v; }
int reg(const Sub &s) { subs().push_back(s); return 0; }
int reg_probe(const Probe &p) { probes().push_back(p); return 0; }

// ---------------------------------------------------------------- rng
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t Case::next() {
  uint64_t *s = rng;
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static void seed_rng(uint64_t *r, uint64_t s) { for (int i = 0; i < 4; i++) r[i] = splitmix(s); }
static inline uint64_t below(uint64_t r, uint64_t max) {  // [0,max]
  if (max == UINT64_MAX) return r;
  return (uint64_t)(((__uint128_t)r * (max + 1)) >> 64);
}

// record: v is the freshly generated value (ignored when replaying)
#define RECORD(maxv, GEN)                                                     \
  uint32_t i_ = *nch;                                                         \
  uint64_t v_;                                                                \
  if (i_ < nreplay) { v_ = replay[i_]; if (v_ > (maxv)) v_ = (maxv) == UINT64_MAX ? v_ : v_ % ((maxv) + 1); } \
  else if (generating && i_ < cap) { GEN }                                    \
  else v_ = 0;                                                                \
  if (i_ < cap) { ch[i_] = v_; *nch = i_ + 1; }                               \
  return v_;

uint64_t Case::draw(uint64_t max) { RECORD(max, v_ = below(next(), max);) }
uint64_t Case::u(uint64_t max) {
  RECORD(max, {
    uint64_t r = next();
    switch (r & 31) {
      case 0: v_ = 0; break;
      case 1: v_ = max; break;
      case 2: v_ = max ? 1 : 0; break;
      case 3: v_ = max ? max - 1 : 0; break;
      case 4: case 5: {
        v_ = below(next(), max);
        if (g_consts && g_consts->n) {
          uint64_t k = (uint64_t)g_consts->v[next() % g_consts->n] + (next() % 3) - 1;
          if (k <= max) v_ = k;
        }
        break;
      }
      default: v_ = below(next(), max);
    }
  })
}
int64_t Case::range(int64_t lo, int64_t hi) {
  if (hi < lo) hi = lo;
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  int64_t base = (lo <= 0 && hi >= 0) ? 0 : lo;
  // code: value v in [lo,hi] -> choice, zero is `base`
  auto enc = [&](int64_t v) -> uint64_t {
    if (base == lo) return (uint64_t)v - (uint64_t)lo;
    // zig-zag inside [lo,hi] around 0
    uint64_t neg = (uint64_t)0 - (uint64_t)lo, pos = (uint64_t)hi;
    if (v >= 0) { uint64_t a = (uint64_t)v; return a <= neg ? (a == 0 ? 0 : 2 * a - 1) : a + neg; }
    uint64_t a = (uint64_t)0 - (uint64_t)v;
    return a <= pos ? 2 * a : a + pos;
  };
  auto dec = [&](uint64_t ccode) -> int64_t {
    if (base == lo) return (int64_t)((uint64_t)lo + ccode);
    uint64_t neg = (uint64_t)0 - (uint64_t)lo, pos = (uint64_t)hi;
    uint64_t m = neg < pos ? neg : pos;
    if (ccode <= 2 * m) { return (ccode & 1) ? (int64_t)((ccode + 1) / 2) : -(int64_t)(ccode / 2); }
    uint64_t a = ccode - m;
    return pos > neg ? (int64_t)a : (int64_t)(0 - a);
  };
  auto gen = [&]() -> uint64_t {
    uint64_t r = next();
    int64_t v;
    switch (r & 31) {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = lo < hi ? lo + 1 : lo; break;
      case 3: v = lo < hi ? hi - 1 : hi; break;
      case 4: case 5: {
        v = (int64_t)((uint64_t)lo + below(next(), span));
        if (g_consts && g_consts->n) {
          int64_t k = (int64_t)((uint64_t)g_consts->v[next() % g_consts->n] + (next() % 3) - 1);
          if (k >= lo && k <= hi) v = k;
        }
        break;
      }
      default: v = (int64_t)((uint64_t)lo + below(next(), span));
    }
    return enc(v);
  };
  auto rec = [&]() -> uint64_t { RECORD(span, v_ = gen();) };
  return dec(rec());
}
int64_t Case::size(int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)(hi - lo);
  auto rec = [&]() -> uint64_t {
    RECORD(span, {
      uint64_t r = next();
      if ((r & 15) == 0) v_ = span;
      else if ((r & 15) == 1) v_ = 0;
      else if (r & 16) v_ = below(next(), span);
      else { uint64_t s = below(next(), span); v_ = below(next(), s); }
    })
  };
  return lo + (int64_t)rec();
}
uint64_t Case::bits(unsigned n) {
  if (n == 0) return 0;
  uint64_t max = n >= 64 ? UINT64_MAX : ((1ull << n) - 1);
  RECORD(max, {
    uint64_t r = next();
    switch (r & 15) {
      case 0: v_ = 0; break;
      case 1: v_ = max; break;
      case 2: v_ = 1ull << (next() % n); break;
      case 3: v_ = max ^ (1ull << (next() % n)); break;
      case 4: v_ = (1ull << (n - 1)) - (next() & 1); v_ &= max; break;
      case 5: v_ = next() & max; v_ >>= next() % n; break;
      case 6:
        v_ = next() & max;
        if (g_consts && g_consts->n) v_ = ((uint64_t)g_consts->v[next() % g_consts->n] + (next() % 3) - 1) & max;
        break;
      default: v_ = next() & max;
    }
  })
}
static const uint64_t RONE = 1ull << 53;
double Case::ureal(double lo, double hi) {
  uint64_t k = draw(RONE);
  double t = (double)k / (double)RONE;
  return k == RONE ? hi : lo + (hi - lo) * t;
}
double Case::real(double lo, double hi) {
  auto rec = [&]() -> uint64_t {
    RECORD(RONE, {
      uint64_t r = next();
      switch (r & 31) {
        case 0: v_ = 0; break;
        case 1: v_ = RONE; break;
        case 2: v_ = RONE / 2; break;
        case 3: v_ = (next() % 65) * (RONE / 64); break;
        case 4: case 5: {
          v_ = below(next(), RONE);
          double cand = 0;
          bool have = lo <= 0 && hi >= 0;
          if (g_consts && g_consts->n && (r & 64)) { cand = (double)g_consts->v[next() % g_consts->n]; have = cand >= lo && cand <= hi; }
          if (have && hi > lo) { double t = (cand - lo) / (hi - lo) * (double)RONE; if (t >= 0 && t <= (double)RONE) v_ = (uint64_t)t; }
          break;
        }
        case 6: v_ = below(next(), RONE >> (next() % 53)); break;
        case 7: v_ = RONE - below(next(), RONE >> (next() % 53)); break;
        default: v_ = below(next(), RONE);
      }
    })
  };
  uint64_t k = rec();
  if (k >= RONE) return hi;
  double t = (double)k / (double)RONE;
  double v = lo + (hi - lo) * t;
  return v > hi ? hi : v;
}
double Case::logreal(double lo, double hi) { return exp(real(log(lo), log(hi))); }
void Case::fill(void *p, size_t n) {
  uint8_t *b = (uint8_t *)p;
  size_t i = 0;
  if (n > 2048) {  // large blocks are expanded from one choice
    uint64_t x = bits(64);
    for (; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = (uint8_t)(x >> 56); }
    return;
  }
  for (; i + 8 <= n; i += 8) { uint64_t v = bits(64); memcpy(b + i, &v, 8); }
  if (i < n) { uint64_t v = bits((unsigned)(8 * (n - i))); memcpy(b + i, &v, n - i); }
}
static void note_out(const std::string &n);
void Case::note(const char *fmt, ...) {
  if (!verbose) return;
  char t[2048];
  va_list a; va_start(a, fmt); vsnprintf(t, sizeof t, fmt, a); va_end(a);
  if (notes.size() < 5000) { notes += t; notes += "; "; note_out(notes); }
}
std::string hex(const void *p, size_t n) {
  std::string s; char t[4];
  for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", ((const uint8_t *)p)[i]); s += t; }
  return s;
}

// ---------------------------------------------------------------- shared state
static const uint32_t CAP = 8192;
static const int RING = 128;
static const int MAXW = 16;
struct Slot { uint32_t sub, n, full; uint64_t ch[CAP]; };
struct WorkerShm {
  volatile uint64_t cases;       // progress counter
  volatile uint32_t cur;         // ring position of the running case
  volatile uint32_t state;       // 0 running, 1 failed (msg set), 2 done
  char key[64];
  char msg[3000];
  char notes[6000];
  Slot ring[RING];
};
static const uint32_t NDIST = 1u << 22;
struct Shared {
  WorkerShm w[MAXW];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> dist[NDIST];
};
static Shared *S;
static WorkerShm *W;  // mine

void fail(const char *key, const char *fmt, ...) {
  va_list a; va_start(a, fmt);
  vsnprintf(W->msg, sizeof W->msg, fmt, a);
  va_end(a);
  snprintf(W->key, sizeof W->key, "%s", key);
  throw Failure();
}

static void note_out(const std::string &n) { snprintf(W->notes, sizeof W->notes, "%s", n.c_str()); }
static bool add_distinct(uint64_t h) {
  if (!h) h = 1;
  uint32_t i = (uint32_t)(h >> 42);
  for (int k = 0; k < 32; k++, i = (i + 1) & (NDIST - 1)) {
    uint64_t v = S->dist[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      uint64_t e = 0;
      if (S->dist[i].compare_exchange_strong(e, h)) { S->distinct++; return true; }
      if (e == h) return false;
    }
  }
  return false;  // table crowded: not counted
}

// labels
struct LabelTab { std::vector<std::pair<const char *, uint64_t>> v; };
static LabelTab *g_labels = nullptr;
void Case::label(const char *l) {
  if (!g_labels) return;
  for (auto &p : g_labels->v) if (p.first == l) { p.second++; return; }
  g_labels->v.push_back({l, 1});
}

// ---------------------------------------------------------------- running one case
// Runs fn on the slot. Returns true if ok; false if a check failed.
static bool run_one(const Sub &s, Case &c) {
  try { s.fn(c); } catch (Failure &) { return false; }
  return true;
}
static void init_case(Case &c, Slot *slot, uint32_t subi) {
  slot->sub = subi; slot->n = 0; slot->full = 0;
  c.ch = slot->ch; c.nch = &slot->n; c.cap = CAP;
  c.nontrivial_ = false; c.notes.clear(); c.verbose = false;
  c.replay = nullptr; c.nreplay = 0; c.generating = false;
}

typedef std::vector<uint64_t> Seq;
struct Step { uint32_t sub; Seq seq; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { bool failed = false; bool hang = false; int status = 0; std::string key, msg, notes; Seq used; };

static double g_hang_cpu = 20;
static int g_devnull = -1, g_keep_stderr = 0;

static double child_cpu(pid_t p) {
  clockid_t cid;
  if (clock_getcpuclockid(p, &cid)) return -1;
  struct timespec t;
  if (clock_gettime(cid, &t)) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Execute a program (list of steps) in a fresh child; outcome of the last failing step.
static Outcome exec_steps(const std::vector<Step> &steps, bool verbose, bool show = false) {
  Outcome o;
  WorkerShm *w = &S->w[MAXW - 1];
  w->state = 0; w->key[0] = 0; w->msg[0] = 0; w->notes[0] = 0; w->cur = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    W = w;
    g_consts = nullptr; g_labels = nullptr;
    if (!show) { dup2(g_devnull, 1); dup2(g_devnull, 2); }
    for (size_t i = 0; i < steps.size(); i++) {
      Slot *slot = &w->ring[0];
      Case c;
      init_case(c, slot, steps[i].sub);
      c.replay = steps[i].seq.data();
      c.nreplay = (uint32_t)steps[i].seq.size();
      c.verbose = verbose;
      w->notes[0] = 0;
      bool ok = run_one(subs()[steps[i].sub], c);
      if (!ok) { w->state = 1; _exit(70); }
    }
    w->state = 2;
    _exit(0);
  }
  int st = 0;
  double t0 = now();
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (r < 0 && errno != EINTR) break;
    double el = now() - t0;
    if (el > 1) {
      double cpu = child_cpu(pid);
      if (cpu > g_hang_cpu) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.hang = true; break; }
    }
    usleep(el < 0.05 ? 200 : 5000);
  }
  o.status = st;
  o.used.assign(w->ring[0].ch, w->ring[0].ch + w->ring[0].n);
  o.notes = w->notes;
  if (o.hang) { o.failed = true; o.key = "hang"; o.msg = "case did not terminate (CPU limit)"; return o; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.failed = true;
  if (w->state == 1) { o.key = w->key; o.msg = w->msg; }
  else { o.key = "crash"; o.msg = "abort, sanitizer report or signal while running the case"; }
  return o;
}

static double g_shrink_budget = 25;
static std::vector<Step> shrink(std::vector<Step> prog, const std::string &key) {
  double t0 = now();
  auto still = [&](const std::vector<Step> &p, Seq *used) {
    if (now() - t0 > g_shrink_budget) return false;
    Outcome o = exec_steps(p, false);
    if (used) *used = o.used;
    return o.failed && o.key == key;
  };
  double limit = g_hang_cpu;
  if (key == "hang") { g_shrink_budget = 60; g_hang_cpu = 8; }  // the result is confirmed with the full limit
  // drop earlier steps
  for (size_t chunk = prog.size() / 2 + 1; chunk >= 1 && prog.size() > 1; chunk /= 2) {
    for (size_t i = 0; i + 1 < prog.size();) {
      size_t n = std::min(chunk, prog.size() - 1 - i);
      std::vector<Step> q = prog;
      q.erase(q.begin() + i, q.begin() + i + n);
      if (still(q, nullptr)) prog = q; else i += n;
    }
    if (chunk == 1) break;
  }
  bool again = true;
  for (int round = 0; again && round < 8 && now() - t0 < g_shrink_budget; round++) {
    again = false;
    for (size_t si = prog.size(); si-- > 0;) {
      bool last = si + 1 == prog.size();
      auto trial = [&](const Seq &s) {
        std::vector<Step> q = prog;
        q[si].seq = s;
        Seq used;
        if (!still(q, &used)) return false;
        prog[si].seq = s;
        if (last && used.size() < s.size()) prog[si].seq = used;
        again = true;
        return true;
      };
      // delete chunks
      for (size_t k = std::max<size_t>(prog[si].seq.size() / 2, 1); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= prog[si].seq.size();) {
          Seq s = prog[si].seq;
          s.erase(s.begin() + i, s.begin() + i + k);
          if (!trial(s)) i += k;
          if (now() - t0 > g_shrink_budget) break;
        }
        if (k == 1 || now() - t0 > g_shrink_budget) break;
      }
      // zero chunks
      for (size_t k = std::max<size_t>(prog[si].seq.size() / 2, 1); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= prog[si].seq.size(); i += k) {
          Seq s = prog[si].seq;
          bool ch = false;
          for (size_t j = i; j < i + k; j++) { ch |= s[j] != 0; s[j] = 0; }
          if (ch) trial(s);
          if (now() - t0 > g_shrink_budget) break;
        }
        if (k == 1 || now() - t0 > g_shrink_budget) break;
      }
      // minimise single values
      for (size_t i = 0; i < prog[si].seq.size() && now() - t0 < g_shrink_budget; i++) {
        uint64_t lo = 0, hi = prog[si].seq[i];
        for (int it = 0; it < 16 && lo < hi; it++) {
          uint64_t mid = lo + (hi - lo) / 2;
          Seq s = prog[si].seq;
          if (i >= s.size()) break;
          s[i] = mid;
          if (trial(s)) hi = mid; else lo = mid + 1;
          if (i >= prog[si].seq.size()) break;
          hi = prog[si].seq[i];
        }
      }
    }
  }
  g_hang_cpu = limit;
  return prog;
}

// ---------------------------------------------------------------- worker
struct SubState {
  uint64_t rng[4];
  uint64_t cases = 0, nontrivial = 0, exh_next = 0, mutated = 0;
  double spent = 0;
  std::vector<Seq> corpus;
  std::vector<uint8_t> virgin;
  Consts consts;
  LabelTab labels;
  std::vector<std::string> samples;
};

static size_t cov_total() { size_t n = 0; for (int i = 0; i < g_ncov; i++) n += g_cov[i][1] - g_cov[i][0]; return n; }
NOSAN static void cov_clear() { for (int i = 0; i < g_ncov; i++) memset(g_cov[i][0], 0, g_cov[i][1] - g_cov[i][0]); }
NOSAN static bool cov_new(std::vector<uint8_t> &virgin) {
  bool nw = false;
  size_t off = 0;
  for (int i = 0; i < g_ncov; i++) {
    uint8_t *p = g_cov[i][0], *e = g_cov[i][1];
    uint8_t *v = virgin.data() + off;
    size_t n = e - p;
    size_t k = 0;
    for (; k + 8 <= n; k += 8) {
      uint64_t x; memcpy(&x, p + k, 8);
      if (!x) continue;
      for (size_t j = k; j < k + 8; j++) if (p[j]) {
        uint8_t b = p[j] == 1 ? 1 : p[j] == 2 ? 2 : p[j] == 3 ? 4 : p[j] < 8 ? 8 : p[j] < 16 ? 16 : p[j] < 32 ? 32 : p[j] < 128 ? 64 : 128;
        if (!(v[j] & b)) { v[j] |= b; nw = true; }
      }
    }
    for (; k < n; k++) if (p[k]) { uint8_t b = p[k] == 1 ? 1 : p[k] < 4 ? 2 : p[k] < 16 ? 8 : 64; if (!(v[k] & b)) { v[k] |= b; nw = true; } }
    off += n;
  }
  return nw;
}

static Seq mutate(const Seq &base, const std::vector<Seq> &corpus, Case &r) {
  Seq s = base;
  int n = 1 + (int)(r.next() % 4);
  while (n--) {
    uint64_t k = r.next();
    switch (k % 8) {
      case 0: if (!s.empty()) s[r.next() % s.size()] = r.next() >> (r.next() % 64); break;
      case 1: if (!s.empty()) { size_t i = r.next() % s.size(); s[i] += (r.next() % 9) - 4; } break;
      case 2: if (!s.empty()) s[r.next() % s.size()] ^= 1ull << (r.next() % 64); break;
      case 3: if (s.size() > 1) { size_t i = r.next() % s.size(); size_t m = 1 + r.next() % std::min<size_t>(8, s.size() - i); s.erase(s.begin() + i, s.begin() + i + m); } break;
      case 4: if (!s.empty() && s.size() < CAP / 2) { size_t i = r.next() % s.size(); size_t m = 1 + r.next() % std::min<size_t>(16, s.size() - i); Seq t(s.begin() + i, s.begin() + i + m); s.insert(s.begin() + r.next() % s.size(), t.begin(), t.end()); } break;
      case 5: if (!corpus.empty() && !s.empty()) { const Seq &o = corpus[r.next() % corpus.size()]; size_t i = r.next() % s.size(); s.resize(i); if (i < o.size()) s.insert(s.end(), o.begin() + i, o.end()); } break;
      case 6: if (!s.empty()) { size_t i = r.next() % s.size(), j = r.next() % s.size(); s[i] = s[j]; } break;
      case 7: if (!s.empty()) { s.resize(r.next() % s.size()); } break;
    }
  }
  return s;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  char t[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch < 32 || ch > 126) { snprintf(t, sizeof t, "\\u%04x", ch); o += t; }
    else o += (char)ch;
  }
  return o + "\"";
}

struct Opts {
  std::string prop, tier = "quick", outdir, replay;
  uint64_t seed = 1;
  int workers = 8;
  double budget = 8, hardcap = 400;
  double floor_mult = 1;
};

static void worker(int wi, const std::vector<uint32_t> &mine, const Opts &o) {
  W = &S->w[wi];
  dup2(g_devnull, 1);
  std::string errf = o.outdir + "/w" + std::to_string(wi) + ".err";
  int efd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (efd >= 0) { dup2(efd, 2); close(efd); }
  std::vector<SubState> st(mine.size());
  size_t nc = cov_total();
  for (size_t i = 0; i < mine.size(); i++) {
    uint64_t h = 1469598103934665603ull;
    for (const char *p = subs()[mine[i]].name; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
    seed_rng(st[i].rng, h ^ (o.seed * 0x2545F4914F6CDD1Dull) ^ ((uint64_t)wi << 56));
    st[i].virgin.assign(nc, 0);
    st[i].exh_next = (uint64_t)wi;
  }
  double t0 = now();
  uint64_t ringpos = 0;
  Case mutr;
  for (;;) {
    double el = now() - t0;
    // choose a sub: exhaustive ones first, then floors, then least spent/weight
    int best = -1;
    double bestv = 0;
    bool floors = false;
    for (size_t i = 0; i < mine.size(); i++) {
      const Sub &s = subs()[mine[i]];
      if (s.exh) { if (st[i].exh_next < s.exh) { best = (int)i; break; } continue; }
      uint64_t fl = (uint64_t)((double)s.min_cases * o.floor_mult / o.workers) + 1;
      if (st[i].cases < fl) floors = true;
      if (el >= o.budget && st[i].cases >= fl) continue;
      double v = st[i].spent / s.weight;
      if (best < 0 || v < bestv) { best = (int)i; bestv = v; }
    }
    if (best < 0) break;
    const Sub &s = subs()[mine[best]];
    SubState &ss = st[best];
    if (el >= o.budget && !s.exh && !floors) break;
    if (el > o.hardcap) break;
    double tb = now();
    int batch = s.exh ? 4096 : 64;
    g_consts = &ss.consts;
    g_labels = &ss.labels;
    while (batch-- > 0) {
      Slot *slot = &W->ring[ringpos % RING];
      W->cur = (uint32_t)(ringpos % RING);
      ringpos++;
      Case c;
      init_case(c, slot, mine[best]);
      memcpy(c.rng, ss.rng, sizeof c.rng);
      Seq pre;
      bool mut = false;
      if (s.exh) {
        if (ss.exh_next >= s.exh) break;
        pre.push_back(ss.exh_next);
        ss.exh_next += (uint64_t)o.workers;
        c.replay = pre.data(); c.nreplay = 1;
      } else {
        c.generating = true;
        if (!ss.corpus.empty() && c.next() % 10 < 3) {
          memcpy(mutr.rng, c.rng, sizeof c.rng);
          pre = mutate(ss.corpus[mutr.next() % ss.corpus.size()], ss.corpus, mutr);
          memcpy(c.rng, mutr.rng, sizeof c.rng);
          c.replay = pre.data(); c.nreplay = (uint32_t)std::min<size_t>(pre.size(), CAP);
          mut = true;
          ss.mutated++;
        }
      }
      cov_clear();
      bool ok = run_one(s, c);
      W->cases = W->cases + 1;
      ss.cases++;
      if (!ok) {
        W->state = 1;
        _exit(70);
      }
      bool nw = s.exh ? false : cov_new(ss.virgin);
      memcpy(ss.rng, c.rng, sizeof c.rng);
      if (!s.exh) c.next(), memcpy(ss.rng, c.rng, sizeof c.rng);
      if (nw && slot->n < 2048 && ss.corpus.size() < 400) ss.corpus.push_back(Seq(slot->ch, slot->ch + slot->n));
      (void)mut;
      if (c.nontrivial_) {
        ss.nontrivial++;
        uint64_t h = 0x100 + mine[best];
        for (uint32_t k = 0; k < slot->n; k++) { h ^= slot->ch[k] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
        add_distinct(h);
        if (wi == (int)(mine[best] % o.workers) && (ss.nontrivial == 3 || ss.nontrivial == 40 || ss.nontrivial == 400)) {
          Seq sq(slot->ch, slot->ch + slot->n);
          Slot *sl2 = &W->ring[ringpos % RING];
          W->cur = (uint32_t)(ringpos % RING);
          ringpos++;
          Case d;
          init_case(d, sl2, mine[best]);
          d.replay = sq.data(); d.nreplay = (uint32_t)sq.size(); d.verbose = true;
          g_labels = nullptr;
          if (!run_one(s, d)) { W->state = 1; _exit(70); }
          g_labels = &ss.labels;
          std::string smp = std::string(s.name) + ": " + d.notes.substr(0, 600);
          if (d.notes.empty()) {
            smp += "choices";
            for (size_t k = 0; k < sq.size() && k < 24; k++) smp += " " + std::to_string(sq[k]);
          }
          ss.samples.push_back(smp);
        }
      }
    }
    ss.spent += now() - tb;
  }
  g_consts = nullptr;
  std::string f = o.outdir + "/w" + std::to_string(wi) + ".out";
  FILE *fp = fopen(f.c_str(), "w");
  if (fp) {
    for (size_t i = 0; i < mine.size(); i++) {
      fprintf(fp, "S %s %llu %llu %zu %llu %d\n", subs()[mine[i]].name, (unsigned long long)st[i].cases, (unsigned long long)st[i].nontrivial, st[i].corpus.size(), (unsigned long long)st[i].mutated, (int)(subs()[mine[i]].exh ? 1 : 0));
      for (auto &l : st[i].labels.v) fprintf(fp, "L %s %llu %s\n", subs()[mine[i]].name, (unsigned long long)l.second, l.first);
      for (auto &m : st[i].samples) { std::string t = m; for (auto &ch : t) if (ch == '\n') ch = ' '; fprintf(fp, "X %s\n", t.c_str()); }
    }
    fclose(fp);
  }
  W->state = 2;
  _exit(0);
}

static int sub_by_name(const std::string &prop, const std::string &n) {
  for (size_t i = 0; i < subs().size(); i++) if (prop == subs()[i].prop && n == subs()[i].name) return (int)i;
  return -1;
}
static bool load_replay(const std::string &f, const std::string &prop, std::vector<Step> &out) {
  FILE *fp = fopen(f.c_str(), "r");
  if (!fp) return false;
  char *line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, fp) > 0) {
    if (strncmp(line, "case ", 5)) continue;
    char *p = strtok(line + 5, " \n");
    Step s;
    int k = sub_by_name(prop, p ? p : "");
    if (k < 0) { fclose(fp); return false; }
    s.sub = (uint32_t)k;
    while ((p = strtok(nullptr, " \n"))) s.seq.push_back(strtoull(p, nullptr, 10));
    out.push_back(s);
  }
  free(line);
  fclose(fp);
  return !out.empty();
}
static std::string report(const Opts &o, std::vector<Step> prog, Outcome out) {
  mkdir((o.outdir + "/replays").c_str(), 0755);
  std::string f = o.outdir + "/replays/" + o.prop + "-" + subs()[prog.back().sub].name + ".txt";
  FILE *fp = fopen(f.c_str(), "w");
  if (fp) {
    fprintf(fp, "# property %s\n# key %s\n# message %s\n# notes %s\n", o.prop.c_str(), out.key.c_str(), out.msg.c_str(), out.notes.c_str());
    for (auto &s : prog) {
      fprintf(fp, "case %s", subs()[s.sub].name);
      for (auto v : s.seq) fprintf(fp, " %llu", (unsigned long long)v);
      fprintf(fp, "\n");
    }
    fclose(fp);
  }
  return f;
}

// Confirm a failing program three times in fresh processes.
static bool confirm(const std::vector<Step> &p, Outcome &out) {
  for (int i = 0; i < 3; i++) {
    Outcome o = exec_steps(p, true);
    if (!o.failed) return false;
    out = o;
    if (o.hang) break;  // each run costs the whole CPU limit
  }
  return true;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char **argv) {
  Opts o;
  std::map<std::string, std::string> kv;
  for (int i = 1; i + 1 < argc; i += 2) kv[argv[i]] = argv[i + 1];
  o.prop = kv["--prop"];
  if (kv.count("--seed")) o.seed = strtoull(kv["--seed"].c_str(), nullptr, 10);
  if (kv.count("--workers")) o.workers = atoi(kv["--workers"].c_str());
  if (kv.count("--budget")) o.budget = atof(kv["--budget"].c_str());
  if (kv.count("--floor")) o.floor_mult = atof(kv["--floor"].c_str());
  o.outdir = kv["--out"];
  o.replay = kv["--replay"];
  std::string only = kv["--sub"];
  if (o.workers > MAXW - 1) o.workers = MAXW - 1;
  double t0 = now();
  g_devnull = open("/dev/null", O_RDWR);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  W = &S->w[MAXW - 1];
  silence_logs();

  if (!o.replay.empty()) {
    std::vector<Step> p;
    if (!load_replay(o.replay, o.prop, p)) { fprintf(stderr, "bad replay file\n"); return 3; }
    Outcome out = exec_steps(p, true, true);
    printf("notes: %s\n", out.notes.c_str());
    if (out.failed) {
      printf("key: %s\nmessage: %s\nVIOLATION property=%s replay=%s\n", out.key.c_str(), out.msg.c_str(), o.prop.c_str(), o.replay.c_str());
      return 1;
    }
    printf("replay passed\n");
    return 0;
  }

  std::vector<uint32_t> mine;
  for (size_t i = 0; i < subs().size(); i++)
    if (o.prop == subs()[i].prop && (only.empty() || only == subs()[i].name)) mine.push_back((uint32_t)i);
  if (mine.empty()) { fprintf(stderr, "no subtests for %s\n", o.prop.c_str()); return 3; }

  // known-finding probes: each runs in its own child
  for (auto &p : probes()) {
    if (o.prop != p.prop) continue;
    int fd[2];
    if (pipe(fd)) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      dup2(g_devnull, 2);
      std::string what;
      bool bad = p.fn(what);
      std::string s = (bad ? "B" : "G") + what;
      ssize_t r = write(fd[1], s.data(), s.size());
      (void)r;
      _exit(0);
    }
    close(fd[1]);
    std::string got; char b[512]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) got.append(b, n);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0) || got.empty() || got[0] == 'B';
    printf("PROBE %s %s %s\n", p.key, bad ? "fails" : "passes", got.size() > 1 ? got.c_str() + 1 : "");
  }
  fflush(stdout);

  pid_t pids[MAXW] = {0};
  uint64_t last_cases[MAXW] = {0};
  double last_cpu[MAXW] = {0};
  uint64_t generation[MAXW] = {0};
  auto spawn = [&](int i) {
    S->w[i].state = 0; S->w[i].cases = 0; S->w[i].key[0] = 0; S->w[i].msg[0] = 0;
    for (int r = 0; r < RING; r++) S->w[i].ring[r].n = 0, S->w[i].ring[r].sub = UINT32_MAX;
    last_cases[i] = 0; last_cpu[i] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      Opts q = o;
      q.seed = o.seed + generation[i] * 1000003;
      q.budget = o.budget - (now() - t0);
      if (q.budget < 1) q.budget = 1;
      worker(i, mine, q);
    }
    pids[i] = p;
  };
  for (int i = 0; i < o.workers; i++) spawn(i);
  int alive = o.workers;
  int violations = 0, flaky = 0;
  std::string vio_line;
  while (alive > 0) {
    bool any = false;
    for (int i = 0; i < o.workers; i++) {
      if (!pids[i]) continue;
      int st;
      pid_t r = waitpid(pids[i], &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        double cpu = child_cpu(pids[i]);
        if (S->w[i].cases != last_cases[i] || last_cpu[i] == 0) { last_cases[i] = S->w[i].cases; last_cpu[i] = cpu; }
        else if (cpu - last_cpu[i] > g_hang_cpu) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); hang = true; r = pids[i]; }
        if (!hang) continue;
      }
      any = true;
      pids[i] = 0;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->w[i].state == 2) { alive--; continue; }
      // a failing case: reproduce, shrink, confirm
      WorkerShm *w = &S->w[i];
      Slot *cur = &w->ring[w->cur];
      std::vector<Step> prog{{cur->sub, Seq(cur->ch, cur->ch + cur->n)}};
      Outcome out;
      fprintf(stderr, "worker %d failed in %s key='%s' msg=%s\n", i, subs()[cur->sub].name, w->state == 1 ? w->key : (hang ? "hang" : "crash"), w->state == 1 ? w->msg : "");
      bool rep = confirm(prog, out);
      if (!rep) {
        // maybe state carried over from earlier cases of this process
        std::vector<Step> h;
        for (int k = 1; k <= RING; k++) {
          Slot *s = &w->ring[(w->cur + k) % RING];
          if (s->sub == UINT32_MAX || s->sub >= subs().size()) continue;
          h.push_back({s->sub, Seq(s->ch, s->ch + s->n)});
        }
        rep = h.size() > 1 && confirm(h, out);
        if (rep) prog = h;
      }
      if (rep) {
        std::string key = out.key;
        for (int k = 0; k < o.workers; k++) if (pids[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], &st, 0); pids[k] = 0; }
        std::vector<Step> small = shrink(prog, key);
        Outcome o2;
        if (confirm(small, o2)) { prog = small; out = o2; }
        else confirm(prog, out);
        std::string f = report(o, prog, out);
        printf("FAILURE sub=%s key=%s message=%s\n", subs()[prog.back().sub].name, out.key.c_str(), out.msg.c_str());
        printf("NOTES %s\n", out.notes.c_str());
        fflush(stdout);
        if (!out.hang) exec_steps(prog, false, true);  // shows the sanitizer report
        vio_line = "VIOLATION property=" + o.prop + " replay=" + f;
        violations = 1;
        alive = 0;
        break;
      }
      flaky++;
      fprintf(stderr, "not reproducible in a fresh process; continuing\n");
      generation[i]++;
      if (flaky < 20) spawn(i); else alive--;
    }
    if (!any) usleep(10000);
  }

  // merge worker results
  struct Agg { uint64_t cases = 0, nt = 0, corpus = 0, mut = 0; int exh = 0; std::map<std::string, uint64_t> labels; };
  std::map<std::string, Agg> agg;
  std::vector<std::string> samples;
  for (int i = 0; i < o.workers; i++) {
    FILE *fp = fopen((o.outdir + "/w" + std::to_string(i) + ".out").c_str(), "r");
    if (!fp) continue;
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) {
      if (line[n - 1] == '\n') line[--n] = 0;
      if (line[0] == 'S') {
        char nm[128]; unsigned long long a, b, m; size_t cz; int ex;
        if (sscanf(line + 2, "%127s %llu %llu %zu %llu %d", nm, &a, &b, &cz, &m, &ex) == 6) {
          Agg &g = agg[nm]; g.cases += a; g.nt += b; g.corpus += cz; g.mut += m; g.exh = ex;
        }
      } else if (line[0] == 'L') {
        char nm[128]; unsigned long long a; int off = 0;
        if (sscanf(line + 2, "%127s %llu %n", nm, &a, &off) >= 2) agg[nm].labels[line + 2 + off] += a;
      } else if (line[0] == 'X') samples.push_back(line + 2);
    }
    free(line);
    fclose(fp);
  }
  uint64_t total = 0;
  for (auto &a : agg) total += a.second.cases;
  if (violations) for (int i = 0; i < o.workers; i++) total += S->w[i].cases;
  FILE *fp = fopen((o.outdir + "/summary.json").c_str(), "w");
  if (!fp) { perror("summary"); return 3; }
  fprintf(fp, "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"violations\": %d, \"unreproducible\": %d, \"wall_s\": %.2f,\n \"instrumented_edges\": %zu, \"subtests\": {", (unsigned long long)total, (unsigned long long)S->distinct.load(), violations, flaky, now() - t0, cov_total());
  bool first = true;
  for (auto i : mine) {
    Agg &a = agg[subs()[i].name];
    fprintf(fp, "%s\n  %s: {\"rule\": %s, \"cases\": %llu, \"nontrivial\": %llu, \"exhaustive\": %s, \"corpus\": %llu, \"mutated\": %llu, \"labels\": {", first ? "" : ",", json_str(subs()[i].name).c_str(), json_str(subs()[i].rule).c_str(), (unsigned long long)a.cases, (unsigned long long)a.nt, a.exh ? "true" : "false", (unsigned long long)a.corpus, (unsigned long long)a.mut);
    bool f2 = true;
    for (auto &l : a.labels) { fprintf(fp, "%s%s: %llu", f2 ? "" : ", ", json_str(l.first).c_str(), (unsigned long long)l.second); f2 = false; }
    fprintf(fp, "}}");
    first = false;
  }
  fprintf(fp, "},\n \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(fp, "%s\n  %s", i ? "," : "", json_str(samples[i]).c_str());
  fprintf(fp, "]}\n");
  fclose(fp);
  if (violations) { printf("%s\n", vio_line.c_str()); return 1; }
  return 0;
}
