// Small property-based-testing engine: choice-sequence generation, integrated
// shrinking by re-running in forked children, coverage-guided mutation of
// choice sequences, crash/hang capture, replay.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Failure { };

// One generated case. Every random decision goes through draw(), which records
// (or replays) an integer choice; 0 is the simplest choice.
class Case {
 public:
  // uniform integer in [0,max]
  uint64_t draw(uint64_t max);
  // integer in [0,max], biased to the ends and to constants seen in comparisons
  uint64_t u(uint64_t max);
  // integer in [lo,hi], simplest is lo (or 0 when inside)
  int64_t range(int64_t lo, int64_t hi);
  // size in [lo,hi] skewed to small values
  int64_t size(int64_t lo, int64_t hi);
  // n-bit pattern, biased to interesting patterns
  uint64_t bits(unsigned n);
  uint64_t u64() { return bits(64); }
  uint32_t u32() { return (uint32_t)bits(32); }
  uint8_t byte() { return (uint8_t)bits(8); }
  bool coin() { return draw(1) != 0; }
  // true with probability num/den; false is the simplest
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  // uniform real in [lo,hi], biased to ends/middle/round values
  double real(double lo, double hi);
  // uniform real without bias
  double ureal(double lo, double hi);
  // log-uniform positive real
  double logreal(double lo, double hi);
  double sign() { return coin() ? -1.0 : 1.0; }
  void fill(void *p, size_t n);
  template <class T> T pick(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size() - 1));
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) {
      size_t j = i - 1 - draw(i - 1);
      if (j != i - 1) std::swap(v[i - 1], v[j]);
    }
  }

  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const char *literal);
  // text of the case, only collected when someone wants to read it
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool verbose = false;

  // internals
  uint64_t *ch = nullptr;        // choices (shared memory)
  volatile uint32_t *nch = nullptr;
  uint32_t cap = 0;
  const uint64_t *replay = nullptr;
  uint32_t nreplay = 0;
  bool generating = false;       // choices beyond the replayed prefix are random (else 0)
  bool nontrivial_ = false;
  std::string notes;
  uint64_t rng[4];
  uint64_t next();
};

typedef void (*Fn)(Case &);
struct Sub {
  const char *prop, *name;
  Fn fn;
  double weight;
  uint64_t exh;        // >0: enumerate first choice 0..exh-1 exhaustively, once
  uint64_t min_cases;  // total floor over all workers in the quick tier
  const char *rule;    // what a case is / what is non-trivial
};
int reg(const Sub &s);
// Probe for one specific known finding: returns true if it still fails.
struct Probe { const char *prop, *key; bool (*fn)(std::string &what); };
int reg_probe(const Probe &p);

[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// silence / capture of the library's log output
void silence_logs();

inline bool near(double a, double b, double abs_tol, double rel_tol = 0) {
  if (a == b) return true;
  double d = fabs(a - b);
  return d <= abs_tol + rel_tol * fmax(fabs(a), fabs(b));
}

// exact-size heap buffer so the address sanitizer sees any overrun
struct Buf {
  uint8_t *p; size_t n;
  explicit Buf(size_t n_) : p((uint8_t *)malloc(n_ ? n_ : 1)), n(n_) {
    if (!n_) { free(p); p = (uint8_t *)malloc(0); }
    memset(p, 0, n);
  }
  Buf(const Buf &) = delete;
  Buf &operator=(const Buf &) = delete;
  ~Buf() { free(p); }
  uint8_t &operator[](size_t i) { return p[i]; }
};
std::string hex(const void *p, size_t n);

}  // namespace pbt

#define CHECK(cond, ...) do { if (!(cond)) pbt::fail("", __VA_ARGS__); } while (0)
#define CHECK_KEY(cond, key, ...) do { if (!(cond)) pbt::fail(key, __VA_ARGS__); } while (0)
// SUB(prop, name, weight, min_cases, rule) { body using c }
#define SUB(prop, name, weight, mincases, rule)                                   \
  static void prop##_##name(pbt::Case &c);                                        \
  static int reg_##prop##_##name =                                                \
      pbt::reg({#prop, #name, prop##_##name, weight, 0, mincases, rule});         \
  static void prop##_##name([[maybe_unused]] pbt::Case &c)
#define EXH(prop, name, count, rule)                                              \
  static void prop##_##name(pbt::Case &c);                                        \
  static int reg_##prop##_##name =                                                \
      pbt::reg({#prop, #name, prop##_##name, 1, count, 0, rule});                 \
  static void prop##_##name([[maybe_unused]] pbt::Case &c)
