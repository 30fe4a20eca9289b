// P37-P39: linear algebra.
#include "pbt.h"
#include <string.h>
#include <memory>
#include <vector>
#include <swiftnav/float_equality.h>
#include <swiftnav/linear_algebra.h>
using namespace pbt;

namespace {
typedef long double LD;
typedef uint32_t N;

// exact-size heap array of doubles, pre-filled with a value that shows if it is read
template <class T> struct Arr {
  T *p; size_t n;
  explicit Arr(size_t n_) : p((T *)malloc(n_ * sizeof(T))), n(n_) { memset(p, 0xAB, n * sizeof(T)); }
  Arr(const Arr &) = delete;
  Arr &operator=(const Arr &) = delete;
  ~Arr() { free(p); }
  T &operator[](size_t i) { return p[i]; }
  const T &operator[](size_t i) const { return p[i]; }
  operator T *() { return p; }
  std::vector<T> copy() const { return std::vector<T>(p, p + n); }
  bool same(const std::vector<T> &v) const { return memcmp(p, v.data(), n * sizeof(T)) == 0; }
};
typedef Arr<double> D;
void poison(Case &c, D &a) {
  if (c.coin()) for (size_t i = 0; i < a.n; i++) a[i] = NAN;
  else for (size_t i = 0; i < a.n; i++) a[i] = 1e30 + (double)i;
}

typedef std::vector<LD> M;
// inverse in extended precision with full pivoting; false when singular
bool inverse(N n, const double *a, M &inv) {
  M w(n * 2 * n);
  for (N i = 0; i < n; i++) { for (N j = 0; j < n; j++) w[i * 2 * n + j] = a[i * n + j]; w[i * 2 * n + n + i] = 1; }
  std::vector<int> colperm(n);
  for (N i = 0; i < n; i++) colperm[i] = (int)i;
  for (N k = 0; k < n; k++) {
    N pr = k, pc = k;
    LD best = -1;
    for (N i = k; i < n; i++) for (N j = k; j < n; j++) if (fabsl(w[i * 2 * n + j]) > best) { best = fabsl(w[i * 2 * n + j]); pr = i; pc = j; }
    if (best == 0) return false;
    for (N j = 0; j < 2 * n; j++) std::swap(w[k * 2 * n + j], w[pr * 2 * n + j]);
    for (N i = 0; i < n; i++) std::swap(w[i * 2 * n + k], w[i * 2 * n + pc]);
    std::swap(colperm[k], colperm[pc]);
    LD d = w[k * 2 * n + k];
    for (N j = 0; j < 2 * n; j++) w[k * 2 * n + j] /= d;
    for (N i = 0; i < n; i++) {
      if (i == k) continue;
      LD f = w[i * 2 * n + k];
      if (f == 0) continue;
      for (N j = 0; j < 2 * n; j++) w[i * 2 * n + j] -= f * w[k * 2 * n + j];
    }
  }
  inv.assign(n * n, 0);
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) inv[(N)colperm[i] * n + j] = w[i * 2 * n + n + j];
  return true;
}
template <class A> LD fro(const A &a, size_t n) { LD s = 0; for (size_t i = 0; i < n; i++) { s += (LD)a[i] * a[i]; } return sqrtl(s); }

// entries of a matrix of assorted structure
void gen_mat(Case &c, N r, N k, double *a, bool &integer) {
  integer = false;
  double s = 1;
  switch (c.draw(3)) {
    case 0: for (N i = 0; i < r * k; i++) a[i] = c.real(-1, 1); break;
    case 1: integer = true; for (N i = 0; i < r * k; i++) a[i] = (double)c.range(-4, 4); break;
    case 2: for (N i = 0; i < r * k; i++) a[i] = (c.coin() ? c.real(-1, 1) : 0) + (i / k == i % k ? 3 * c.sign() : 0); break;
    default: for (N i = 0; i < r * k; i++) a[i] = c.sign() * c.logreal(0.05, 5); break;
  }
  if (c.chance(1, 6)) {  // permutation-like: force pivoting
    integer = true;
    std::vector<int> p(k);
    for (N i = 0; i < k; i++) p[i] = (int)i;
    c.shuffle(p);
    for (N i = 0; i < r; i++) for (N j = 0; j < k; j++) a[i * k + j] = (int)j == p[i % k] ? c.sign() * (double)(1 + c.draw(3)) : 0;
  }
  if (c.chance(1, 4)) { s = c.pick({1e-6, 1e-3, 1e3, 1e6, 64.0}); integer = integer && s == 64; }
  for (N i = 0; i < r * k; i++) a[i] *= s;
}
// relative error to expect of the library's inverse at condition k
LD inv_tol(N n, LD k) { return 32e-16L * n * n * (n <= 4 && n >= 2 ? powl(k, n - 1) : 16 * k); }
}  // namespace

// ---------------------------------------------------------------- P37
SUB(P37, inverse, 3, 20000, "square matrices of size 1..16, rarely 17..36 (random, integer, dominant, wide dynamic range, permutations) and overall scales 1e-6..1e6, optionally with rows and columns scaled by powers of two; compared with an extended-precision inverse and with the identity, tolerance from the measured condition; non-trivial: size above 1 and tolerance tight") {
  N n = (N)(c.chance(3, 4) ? 1 + c.draw(7) : c.chance(1, 8) ? 17 + c.draw(19) : 1 + c.draw(15));
  D a(n * n), b(n * n);
  bool ig;
  gen_mat(c, n, n, a, ig);
  poison(c, b);
  std::vector<int> rs(n, 0), cs(n, 0);
  if (c.chance(1, 4)) for (N i = 0; i < n; i++) { rs[i] = (int)c.range(-6, 6); cs[i] = (int)c.range(-6, 6); }
  if (n > 4) for (N i = 0; i < n; i++) rs[i] = 0;  // row scaling would defeat partial pivoting
  M ref;
  if (!inverse(n, a, ref)) return;
  LD na = fro(a, n * n), nr = fro(ref, n * n), k = na * nr, tol = inv_tol(n, k);
  if (!(tol < 1e-4L)) return;
  // smallest determinant or pivot scale allowed by the documented threshold
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) a[i * n + j] = ldexp(a[i * n + j], rs[i] + cs[j]);
  c.nontrivial(n > 1 && tol < 1e-8L);
  c.label(n == 1 ? "1x1" : n == 2 ? "2x2" : n == 3 ? "3x3" : n == 4 ? "4x4" : "elimination");
  c.note("n %u condition %.3Lg", n, k);
  auto before = a.copy();
  int r = matrix_inverse(n, a, b);
  CHECK(r == 0, "reported singular (%d) at condition %.3Lg", r, k);
  CHECK(a.same(before), "input modified");
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) {
    LD want = ldexpl(ref[i * n + j], -cs[i] - rs[j]);
    LD scale = ldexpl(nr, -cs[i] - rs[j]);
    CHECK(fabsl(b[i * n + j] - want) <= tol * scale, "element %u,%u is %.15g not %.15Lg (tolerance %.3Lg)", i, j, b[i * n + j], want, tol * scale);
  }
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) {
    LD s = 0;
    for (N q = 0; q < n; q++) s += (LD)b[i * n + q] * a[q * n + j];
    CHECK(fabsl(s - (i == j)) <= tol * na * nr * ldexpl(1, cs[j] - cs[i]) * n, "inverse times matrix is not the identity at %u,%u: %.3Lg", i, j, s);
  }
}
SUB(P37, singular, 1, 10000, "square matrices of size 1..10 with integer entries made exactly singular by a zero row or column, a repeated row, or (up to size 4) a repeated or integer-combined row or column: inversion and QR solving report it, inputs untouched; non-trivial: size above 1") {
  N n = (N)(1 + c.draw(9));
  D a(n * n), b(n * n), x(n), y(n);
  for (N i = 0; i < n * n; i++) a[i] = (double)c.range(-5, 5);
  N p = (N)c.draw(n - 1), q = (N)c.draw(n - 1);
  int kind = (int)c.draw(n > 4 ? 2 : 4);
  bool qr_exact = false;  // Householder leaves an exact zero only for a zero column
  if (n == 1) kind = 0;
  if (p == q) q = (p + 1) % n;
  switch (kind) {
    case 0: for (N j = 0; j < n; j++) a[j * n + p] = 0; qr_exact = true; break;
    case 1: for (N j = 0; j < n; j++) a[p * n + j] = 0; break;
    case 2:
      if (n > 4) {
        // one dominating power of two, so that elimination is exact however it is arranged
        for (N j = 0; j < n; j++) a[q * n + j] = 0;
        a[q * n + (N)c.draw(n - 1)] = ldexp(c.sign(), 20);
      }
      for (N j = 0; j < n; j++) a[p * n + j] = a[q * n + j];
      break;
    case 3: for (N j = 0; j < n; j++) a[j * n + p] = a[j * n + q] * 2; break;
    default: {
      N t = (N)c.draw(n - 1);
      for (N j = 0; j < n; j++) a[p * n + j] = a[q * n + j] * 2 + (t != p ? a[t * n + j] : 0);
    }
  }
  for (N i = 0; i < n; i++) y[i] = (double)c.range(-5, 5);
  c.nontrivial(n > 1);
  c.label(kind == 0 ? "zero column" : kind == 1 ? "zero row" : kind == 2 ? "repeated row" : kind == 3 ? "repeated column" : "combined row");
  auto before = a.copy();
  int r = matrix_inverse(n, a, b);
  CHECK(r < 0, "singular matrix of size %u accepted (%d)", n, r);
  if (qr_exact) {
    int s = qrsolve(a, n, n, y, x);
    CHECK(s < 0, "singular matrix of size %u accepted by the QR solver (%d)", n, s);
  }
  D qt(n * n), rr(n * n);
  qrdecomp_square(a, n, qt, rr);
  CHECK(a.same(before), "input modified");
}
SUB(P37, qr, 2, 20000, "square matrices of size 1..12 (rarely 30) of condition up to 1e5: the first factor is orthogonal, the second upper triangular with exact zeros, their product is the matrix; solving satisfies the system and the solve steps agree, also with the right-hand side overwritten in place; non-trivial: size above 1") {
  N n = (N)(1 + c.draw(c.coin() ? 5 : c.chance(1, 16) ? 29 : 11));
  D a(n * n), qt(n * n), r(n * n), b(n), x(n), y(n);
  bool ig;
  gen_mat(c, n, n, a, ig);
  poison(c, qt); poison(c, r); poison(c, x);
  for (N i = 0; i < n; i++) b[i] = c.real(-100, 100);
  M ref;
  if (!inverse(n, a, ref)) return;
  LD na = fro(a, n * n), k = na * fro(ref, n * n);
  if (k > 1e5L || na / k < 1e-9L) return;  // the documented singularity threshold is 1e-12 on the diagonal
  c.nontrivial(n > 1);
  c.note("n %u condition %.3Lg", n, k);
  auto ba = a.copy(), bb = b.copy();
  CHECK(qrdecomp_square(a, n, qt, r) == 0, "reported singular at condition %.3Lg", k);
  CHECK(a.same(ba), "input modified");
  for (N i = 0; i < n; i++) for (N j = 0; j < i; j++) CHECK(r[i * n + j] == 0, "below the diagonal: %g", r[i * n + j]);
  LD tol = 64e-16L * n * n;
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) {
    LD s = 0, t = 0, u = 0;
    for (N q = 0; q < n; q++) { s += (LD)qt[i * n + q] * qt[j * n + q]; t += (LD)qt[q * n + i] * r[q * n + j]; u += (LD)qt[q * n + i] * qt[q * n + j]; }
    CHECK(fabsl(s - (i == j)) < tol && fabsl(u - (i == j)) < tol, "not orthogonal at %u,%u", i, j);
    CHECK(fabsl(t - a[i * n + j]) < tol * na, "product is %.15Lg not %.15g at %u,%u", t, a[i * n + j], i, j);
  }
  CHECK(qrsolve(a, n, n, b, x) == 0, "solver reports singular");
  CHECK(a.same(ba) && b.same(bb), "input modified");
  LD nx = 0;
  for (N i = 0; i < n; i++) { LD t = 0; for (N q = 0; q < n; q++) { t += ref[i * n + q] * b[q]; } nx += t * t; }
  nx = sqrtl(nx);
  for (N i = 0; i < n; i++) {
    LD t = 0, s = 0;
    for (N q = 0; q < n; q++) { t += ref[i * n + q] * b[q]; s += (LD)a[i * n + q] * x[q]; }
    CHECK(fabsl(x[i] - t) <= 4 * tol * k * nx + 1e-300L, "solution %u is %.15g not %.15Lg", i, x[i], t);
    CHECK(fabsl(s - b[i]) <= 4 * tol * (na * nx + fro(b, n)), "equation %u not met", i);
  }
  D z(n);
  poison(c, z);
  qtmult(qt, n, b, y);
  for (N i = 0; i < n; i++) { LD s = 0; for (N j = 0; j < n; j++) { s += (LD)qt[i * n + j] * b[j]; } CHECK(fabsl(y[i] - s) <= tol * fro(b, n), "rotated right-hand side %u", i); }
  rsolve(r, n, n, y, z);
  rsolve(r, n, n, y, y);  // documented as safe in place
  for (N i = 0; i < n; i++) CHECK(fabsl((LD)z[i] - x[i]) <= 8 * tol * k * nx + 1e-300L && y[i] == z[i], "solve step %u: %.15g, in place %.15g, whole %.15g", i, z[i], y[i], x[i]);
}

// ---------------------------------------------------------------- P38
namespace {
// normal matrix of A (n x m) with weights, and its condition
bool normal(N n, N m, const double *a, const double *w, M &nm, M &inv, LD &k) {
  nm.assign(m * m, 0);
  std::vector<double> d(m * m);
  M mag(m * m);  // terms before cancellation (weights may be negative): the scale of the rounding errors
  for (N i = 0; i < m; i++) for (N j = 0; j < m; j++) {
    LD s = 0, g = 0;
    for (N q = 0; q < n; q++) { LD t = (LD)a[q * m + i] * (w ? w[q] : 1) * a[q * m + j]; s += t; g += fabsl(t); }
    nm[i * m + j] = s;
    d[i * m + j] = (double)s;
    mag[i * m + j] = g;
  }
  if (!inverse(m, d.data(), inv)) return false;
  k = fro(mag, m * m) * fro(inv, m * m);
  return true;
}
LD det_scale(N m, const M &nm) { return powl(fro(nm, m * m), m); }
}  // namespace
SUB(P38, weighted, 3, 20000, "tall and square systems up to 16 (sometimes 60) equations in up to 8 (sometimes 20) unknowns with positive weights over six decades or none, with and without the covariance or solution requested: solution and covariance equal the extended-precision minimiser, the weighted residual is orthogonal to every column; non-trivial: more equations than unknowns") {
  N m = (N)(1 + (c.chance(1, 10) ? c.draw(19) : c.draw(7))), n = m + (N)(c.chance(1, 10) ? c.draw(40) : c.draw(8));
  D a(n * m), b(n), w(n), x(m), v(m * m);
  bool ig;
  gen_mat(c, n, m, a, ig);
  bool weighted = c.coin();
  for (N i = 0; i < n; i++) { b[i] = c.real(-100, 100); w[i] = weighted ? (c.coin() ? c.logreal(1e-3, 1e3) : c.real(0.5, 2)) : 1; }
  poison(c, x); poison(c, v);
  M nm, inv;
  LD k;
  if (!normal(n, m, a, weighted ? (double *)w : nullptr, nm, inv, k)) return;
  LD tol = inv_tol(m, k) + 64e-16L * n;
  if (!(tol < 1e-6L) || det_scale(m, nm) / powl(k, m) < 1e-50L) return;
  c.nontrivial(n > m);
  c.label(weighted ? "weighted" : "unweighted");
  c.note("%u equations, %u unknowns, condition %.3Lg", n, m, k);
  int opt = (int)c.draw(3);
  auto ba = a.copy(), bb = b.copy(), bw = w.copy();
  int r = matrix_wlsq_solve(n, m, a, b, weighted ? (double *)w : nullptr, opt == 1 ? nullptr : (double *)x, opt == 2 ? nullptr : (double *)v);
  CHECK(r == 0, "reported failure (%d) at condition %.3Lg", r, k);
  CHECK(a.same(ba) && b.same(bb) && w.same(bw), "input modified");
  LD ni = fro(inv, m * m), nn = fro(nm, m * m);
  if (opt != 2) for (N i = 0; i < m * m; i++) CHECK(fabsl(v[i] - inv[i]) <= tol * ni, "covariance element %u is %.15g not %.15Lg", i, v[i], inv[i]);
  if (opt != 1) {
    M atb(m, 0);
    LD s0 = 0, mag = 0;
    for (N j = 0; j < m; j++) { for (N q = 0; q < n; q++) { atb[j] += (LD)a[q * m + j] * w[q] * b[q]; mag += fabsl((LD)a[q * m + j] * w[q] * b[q]); } s0 += atb[j] * atb[j]; }
    LD t = tol * ni * mag;
    for (N i = 0; i < m; i++) {
      LD s = 0;
      for (N j = 0; j < m; j++) s += inv[i * m + j] * atb[j];
      CHECK(fabsl(x[i] - s) <= t, "solution %u is %.15g not %.15Lg", i, x[i], s);
    }
    for (N j = 0; j < m; j++) {
      LD g = 0;
      for (N q = 0; q < n; q++) { LD res = -(LD)b[q]; for (N i = 0; i < m; i++) { res += (LD)a[q * m + i] * x[i]; } g += a[q * m + j] * w[q] * res; }
      CHECK(fabsl(g) <= t * nn * m, "weighted residual not orthogonal to column %u: %.3Lg", j, g);
    }
  }
}
SUB(P38, pseudo_inverse, 3, 20000, "full-rank tall, square and wide matrices up to 12x12 (sometimes 24x24), plain and with diagonal weights of either sign, through the general entry and through the tall and wide ones: equals the documented formula in extended precision and meets the four Moore-Penrose equations in the plain case; exact-size operands; non-trivial: not square") {
  N n = (N)(1 + c.draw(c.coin() ? 5 : 11)), m = (N)(1 + c.draw(c.coin() ? 5 : 11));
  if (c.chance(1, 16)) { n += (N)c.draw(12); m += (N)c.draw(12); }
  bool ig;
  D a(n * m), p(n * m), w(n > m ? n : m);
  gen_mat(c, n, m, a, ig);
  poison(c, p);
  bool tall = n > m, wide = n < m;
  bool weighted = (tall || wide) && c.chance(1, 3);
  for (size_t i = 0; i < w.n; i++) w[i] = weighted ? c.logreal(1e-2, 1e2) : 1;
  if (weighted && c.chance(1, 4)) for (size_t i = 0; i < w.n; i++) w[i] *= c.sign();  // the formula holds for any weights that leave it regular
  N s = n < m ? n : m, L = n < m ? m : n;
  // normal matrix on the short side
  D t(L * s);
  for (N i = 0; i < L; i++) for (N j = 0; j < s; j++) t[i * s + j] = wide ? a[j * m + i] : a[i * m + j];
  M nm, inv, ref(n * m, 0);
  LD k;
  if (tall || wide) {
    if (!normal(L, s, t, w, nm, inv, k)) return;
    for (N i = 0; i < m; i++) for (N j = 0; j < n; j++) {
      LD q = 0;
      if (tall) for (N h = 0; h < s; h++) q += inv[i * s + h] * a[j * m + h];
      else for (N h = 0; h < s; h++) q += (LD)a[h * m + i] * inv[h * s + j];
      ref[i * n + j] = q;
    }
  } else {
    if (!inverse(n, a, inv)) return;
    k = fro(a, n * n) * fro(inv, n * n);
    ref = inv;
    nm.assign(n * n, 0);
    for (N i = 0; i < n * n; i++) nm[i] = a[i];
  }
  LD tol = inv_tol(s, k) + 64e-16L * L;
  if (!(tol < 1e-6L) || det_scale(s, nm) / powl(k, s) < 1e-50L) return;
  c.nontrivial(tall || wide);
  c.label(tall ? "tall" : wide ? "wide" : "square");
  c.note("%u x %u condition %.3Lg%s", n, m, k, weighted ? " weighted" : "");
  auto ba = a.copy(), bw = w.copy();
  int r;
  bool direct = c.coin();
  if (weighted) r = tall ? matrix_atwaiat(n, m, a, w, p) : matrix_atawati(n, m, a, w, p);
  else if (direct && tall) r = matrix_ataiat(n, m, a, p);
  else if (direct && wide) r = matrix_ataati(n, m, a, p);
  else r = matrix_pseudoinverse(n, m, a, p);
  CHECK(r == 0, "reported failure (%d) for a full-rank matrix", r);
  CHECK(a.same(ba) && w.same(bw), "input modified");
  LD ni = fro(inv, s * s), na = fro(a, n * m), scale = tall || wide ? ni * na : ni;
  for (N i = 0; i < n * m; i++) CHECK(fabsl(p[i] - ref[i]) <= tol * scale, "element %u is %.15g not %.15Lg", i, p[i], ref[i]);
  if (!weighted) {
    // identity on the full-rank side (implies the four defining equations together with the symmetric side)
    for (N i = 0; i < s; i++) for (N j = 0; j < s; j++) {
      LD q = 0;
      for (N h = 0; h < L; h++) q += wide ? (LD)a[i * m + h] * p[h * n + j] : (LD)p[i * n + h] * a[h * m + j];
      CHECK(fabsl(q - (i == j)) <= tol * scale * na * s, "not an inverse at %u,%u: %.6Lg", i, j, q);
    }
    for (N i = 0; i < L; i++) for (N j = 0; j < i; j++) {
      LD q = 0, z = 0;
      for (N h = 0; h < s; h++) { q += wide ? (LD)p[i * n + h] * a[h * m + j] : (LD)a[i * m + h] * p[h * n + j]; z += wide ? (LD)p[j * n + h] * a[h * m + i] : (LD)a[j * m + h] * p[h * n + i]; }
      CHECK(fabsl(q - z) <= 2 * tol * scale * na * s, "projection not symmetric at %u,%u", i, j);
    }
  }
}
SUB(P38, failures, 1, 10000, "under-determined systems, matrices with a zero column (tall) or row (wide), and the specialised pseudo-inverses on the wrong shape: reported as failure, operands of exactly the needed size; non-trivial: always") {
  N m = (N)(1 + c.draw(6)), n = (N)(1 + c.draw(6));
  D a(n * m), b(n), x(m), v(m * m), p(n * m), w(n > m ? n : m);
  for (N i = 0; i < n * m; i++) a[i] = (double)c.range(-5, 5);
  for (N i = 0; i < n; i++) b[i] = (double)c.range(-5, 5);
  for (size_t i = 0; i < w.n; i++) w[i] = 1 + (double)c.draw(3);
  c.nontrivial();
  c.note("%u x %u", n, m);
  if (n < m) {
    c.label("under-determined");
    CHECK(matrix_wlsq_solve(n, m, a, b, c.coin() ? (double *)w : nullptr, x, v) < 0, "under-determined system accepted");
    CHECK(matrix_ataiat(n, m, a, p) < 0 && matrix_atwaiat(n, m, a, w, p) < 0, "tall formula accepted a wide matrix");
    N z = (N)c.draw(n - 1);
    for (N j = 0; j < m; j++) a[z * m + j] = 0;
    CHECK(matrix_pseudoinverse(n, m, a, p) < 0 && matrix_ataati(n, m, a, p) < 0, "row of zeros accepted");
    CHECK(matrix_atawati(n, m, a, w, p) < 0, "row of zeros accepted with weights");
  } else {
    c.label("zero column");
    CHECK(matrix_ataati(n, m, a, p) < 0 && matrix_atawati(n, m, a, w, p) < 0, "wide formula accepted a tall or square matrix");
    if (n == m) CHECK(matrix_ataiat(n, m, a, p) < 0 && matrix_atwaiat(n, m, a, w, p) < 0, "tall formula accepted a square matrix");
    N z = (N)c.draw(m - 1);
    for (N j = 0; j < n; j++) a[j * m + z] = 0;
    CHECK(matrix_wlsq_solve(n, m, a, b, c.coin() ? (double *)w : nullptr, x, v) < 0, "column of zeros accepted");
    CHECK(matrix_pseudoinverse(n, m, a, p) < 0, "column of zeros accepted");
  }
}

// ---------------------------------------------------------------- P39
namespace {
double any(Case &c) { return c.chance(1, 8) ? c.pick({0.0, -0.0, 1.0, -1.0}) : c.sign() * c.logreal(1e-9, 1e9); }
void gen_any(Case &c, D &a) { for (size_t i = 0; i < a.n; i++) a[i] = any(c); }
#define BIT_EQ(x, y) (memcmp(&(x), &(y), sizeof(x)) == 0)
}  // namespace
SUB(P39, products, 2, 20000, "matrix products of all shapes up to 12 (double, 32-bit and 64-bit integer) and right multiplication by a diagonal, against definition; exact for integers, within rounding for doubles; non-trivial: inner size above 1") {
  N n = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11)), m = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11)), p = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11));
  c.nontrivial(m > 1);
  c.note("%u x %u x %u", n, m, p);
  switch (c.draw(3)) {
    case 0: {
      D a(n * m), b(m * p), r(n * p);
      gen_any(c, a); gen_any(c, b); poison(c, r);
      auto ba = a.copy(), bb = b.copy();
      matrix_multiply(n, m, p, a, b, r);
      CHECK(a.same(ba) && b.same(bb), "input modified");
      for (N i = 0; i < n; i++) for (N j = 0; j < p; j++) {
        LD s = 0, g = 0;
        for (N q = 0; q < m; q++) { LD t = (LD)a[i * m + q] * b[q * p + j]; s += t; g += fabsl(t); }
        CHECK(fabsl(r[i * p + j] - s) <= 4e-16L * m * g, "element %u,%u is %.15g not %.15Lg", i, j, r[i * p + j], s);
      }
      break;
    }
    case 1: {
      Arr<s32> a(n * m), b(m * p), r(n * p);
      int64_t lim = c.pick({(int64_t)9, (int64_t)1000, (int64_t)13000});  // no overflow: 12 * 13000^2 < 2^31
      for (size_t i = 0; i < a.n; i++) a[i] = (s32)c.range(-lim, lim);
      for (size_t i = 0; i < b.n; i++) b[i] = (s32)c.range(-lim, lim);
      if (m == 1 && c.coin()) { for (size_t i = 0; i < a.n; i++) a[i] = c.coin() ? INT32_MAX : INT32_MIN; for (size_t i = 0; i < b.n; i++) b[i] = (s32)c.draw(1); }
      auto ba = a.copy(), bb = b.copy();
      matrix_multiply_i(n, m, p, a, b, r);
      CHECK(a.same(ba) && b.same(bb), "input modified");
      for (N i = 0; i < n; i++) for (N j = 0; j < p; j++) {
        int64_t s = 0;
        for (N q = 0; q < m; q++) s += (int64_t)a[i * m + q] * b[q * p + j];
        CHECK(r[i * p + j] == s, "element %u,%u is %d not %lld", i, j, r[i * p + j], (long long)s);
      }
      break;
    }
    case 2: {
      Arr<s64> a(n * m), b(m * p), r(n * p);
      int64_t lim = c.pick({(int64_t)9, (int64_t)100000, (int64_t)800000000});
      for (size_t i = 0; i < a.n; i++) a[i] = c.range(-lim, lim);
      for (size_t i = 0; i < b.n; i++) b[i] = c.range(-lim, lim);
      auto ba = a.copy(), bb = b.copy();
      matrix_multiply_s64(n, m, p, a, b, r);
      CHECK(a.same(ba) && b.same(bb), "input modified");
      for (N i = 0; i < n; i++) for (N j = 0; j < p; j++) {
        __int128 s = 0;
        for (N q = 0; q < m; q++) s += (__int128)a[i * m + q] * b[q * p + j];
        CHECK((__int128)r[i * p + j] == s, "element %u,%u is %lld not %lld", i, j, (long long)r[i * p + j], (long long)s);
      }
      break;
    }
    default: {
      D a(n * m), d(m);
      gen_any(c, a); gen_any(c, d);
      auto ba = a.copy(), bd = d.copy();
      matrix_multiply_diag_right(n, m, a, d);
      CHECK(d.same(bd), "input modified");
      for (N i = 0; i < n; i++) for (N j = 0; j < m; j++) CHECK(a[i * m + j] == ba[i * m + j] * bd[j], "element %u,%u is %.15g", i, j, a[i * m + j]);
    }
  }
}
SUB(P39, moves, 2, 20000, "transpose, copy, scaled sum, sub-matrix by index lists and from the corner, identity, upper triangle, all shapes up to 12: every element exactly by definition, inputs untouched, outputs of exactly the needed size; non-trivial: more than one row and column") {
  N n = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11)), m = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11));
  D a(n * m), b(n * m), r(n * m);
  gen_any(c, a); gen_any(c, b); poison(c, r);
  auto ba = a.copy(), bb = b.copy();
  c.nontrivial(n > 1 && m > 1);
  c.note("%u x %u", n, m);
  switch (c.draw(6)) {
    case 0:
      matrix_transpose(n, m, a, r);
      for (N i = 0; i < n; i++) for (N j = 0; j < m; j++) CHECK(BIT_EQ(r[j * n + i], a[i * m + j]), "transpose at %u,%u", i, j);
      break;
    case 1:
      matrix_copy(n, m, a, r);
      CHECK(r.same(ba), "copy differs");
      break;
    case 2: {
      double g = any(c);
      matrix_add_sc(n, m, a, b, g, r);
      for (N i = 0; i < n * m; i++) CHECK(fabsl(r[i] - (a[i] + (LD)g * b[i])) <= 3e-16L * (fabsl(a[i]) + fabsl((LD)g * b[i])), "scaled sum at %u", i);
      break;
    }
    case 3: {
      N nr = (N)(1 + c.draw(8)), nc = (N)(1 + c.draw(8));
      Arr<u32> ri(nr), ci(nc);
      for (N i = 0; i < nr; i++) ri[i] = (u32)c.draw(n - 1);
      for (N i = 0; i < nc; i++) ci[i] = (u32)c.draw(m - 1);
      D s(nr * nc);
      submatrix(nr, nc, m, a, ri, ci, s);
      for (N i = 0; i < nr; i++) for (N j = 0; j < nc; j++) CHECK(BIT_EQ(s[i * nc + j], a[ri[i] * m + ci[j]]), "sub-matrix at %u,%u", i, j);
      break;
    }
    case 4: {
      N nr = (N)(1 + c.draw(n - 1)), nc = (N)(1 + c.draw(m - 1));
      D s(nr * nc);
      submatrix_ul(nr, nc, m, a, s);
      for (N i = 0; i < nr; i++) for (N j = 0; j < nc; j++) CHECK(BIT_EQ(s[i * nc + j], a[i * m + j]), "corner sub-matrix at %u,%u", i, j);
      break;
    }
    case 5: {
      D s(n * n);
      poison(c, s);
      matrix_eye(n, s);
      for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) CHECK(s[i * n + j] == (i == j), "identity at %u,%u", i, j);
      break;
    }
    default: {
      D s(n * n);
      gen_any(c, s);
      auto bs = s.copy();
      matrix_triu(n, s);
      for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) CHECK(j < i ? s[i * n + j] == 0 : BIT_EQ(s[i * n + j], bs[i * n + j]), "upper triangle at %u,%u", i, j);
    }
  }
  CHECK(a.same(ba) && b.same(bb), "input modified");
}
SUB(P39, udu, 2, 20000, "symmetric positive definite matrices up to 12x12 built from known unit-triangular and positive diagonal factors (also positive semi-definite with exact zeros, only the upper half filled in, rows and columns scaled by powers of two): the factorisation recovers the factors, the reconstruction is the symmetric product; non-trivial: size above 1") {
  N n = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 27 : 11));
  D u(n * n), d(n), m(n * n), U(n * n), Dg(n), R(n * n);
  bool zeros = c.chance(1, 4);
  for (N i = 0; i < n; i++) {
    d[i] = zeros && c.chance(1, 3) ? 0 : zeros ? (double)(1 + c.draw(7)) : c.logreal(0.1, 10);
    for (N j = 0; j < n; j++) u[i * n + j] = j < i ? 0 : i == j ? 1 : zeros ? (double)c.range(-2, 2) : c.real(-1, 1);
  }
  LD big = 0;
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) {
    LD s = 0;
    for (N q = 0; q < n; q++) s += (LD)u[i * n + q] * d[q] * u[j * n + q];
    m[i * n + j] = (double)s;
    big = fmaxl(big, fabsl(s));
  }
  poison(c, R); poison(c, U); poison(c, Dg);
  c.nontrivial(n > 1);
  c.label(zeros ? "semi-definite, exact" : "definite");
  c.note("n %u", n);
  auto bu = u.copy(), bd = d.copy(), bm = m.copy();
  matrix_reconstruct_udu(n, u, d, R);
  CHECK(u.same(bu) && d.same(bd), "input modified");
  for (N i = 0; i < n * n; i++) CHECK(fabsl(R[i] - (LD)bm[i]) <= 1e-14L * big * n, "reconstruction element %u is %.15g not %.15g", i, R[i], bm[i]);
  for (N i = 0; i < n; i++) for (N j = 0; j < i; j++) CHECK(fabsl((LD)R[i * n + j] - R[j * n + i]) <= 1e-15L * big * n, "reconstruction not symmetric");
  if (c.coin()) for (N i = 0; i < n; i++) for (N j = 0; j < i; j++) m[i * n + j] = any(c);  // the lower half is not used
  // scaling rows and columns by powers of two scales the factors exactly: the units of the states do not matter
  std::vector<int> sc(n, 0);
  if (c.chance(1, 3)) {
    int g = (int)c.range(-40, 40);
    for (N i = 0; i < n; i++) sc[i] = g + (int)c.range(-20, 20);
    for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) m[i * n + j] = ldexp(m[i * n + j], sc[i] + sc[j]);
  }
  matrix_udu(n, m, U, Dg);
  for (N i = 0; i < n; i++) {
    Dg[i] = ldexp(Dg[i], -2 * sc[i]);
    for (N j = i + 1; j < n; j++) U[i * n + j] = ldexp(U[i * n + j], sc[j] - sc[i]);
  }
  // error growth of the back elimination: bounded by the product of the factors' sizes
  LD un = fro(u, n * n), tol = 1e-13L * n * big * powl(un, 2);
  for (N i = 0; i < n; i++) for (N j = 0; j < i; j++) CHECK(U[i * n + j] == 0, "below the diagonal");
  for (N i = 0; i < n; i++) CHECK(U[i * n + i] == 1 && Dg[i] >= 0, "diagonal %u: %g, %g", i, U[i * n + i], Dg[i]);
  for (N i = 0; i < n; i++) for (N j = 0; j < n; j++) {
    LD s = 0;
    for (N q = 0; q < n; q++) s += (LD)U[i * n + q] * Dg[q] * U[j * n + q];
    CHECK(fabsl(s - bm[i * n + j]) <= tol, "factors multiply to %.15Lg not %.15g at %u,%u (tolerance %.3Lg)", s, bm[i * n + j], i, j, tol);
  }
  if (zeros) for (N i = 0; i < n; i++) CHECK(fabsl(Dg[i] - bd[i]) <= tol, "diagonal factor %u is %.15g not %.15g", i, Dg[i], bd[i]);
}
SUB(P39, udu_edge, 0.3, 2000, "symmetric matrices up to 8x8 that are positive semi-definite only up to rounding (products of a thin matrix with its transpose) or indefinite: the diagonal factor is never negative, as a covariance needs, the other factor is unit upper triangular and finite; non-trivial: size above 1") {
  N n = (N)(1 + c.draw(7)), r = (N)c.draw(n - 1);
  bool indef = c.chance(1, 3);
  D m(n * n), U(n * n), Dg(n), g(n * (r + 1));
  for (N i = 0; i < n * (r + 1); i++) g[i] = c.real(-3, 3);
  for (N i = 0; i < n; i++) for (N j = 0; j <= i; j++) {
    double s = 0;
    for (N q = 0; q <= r; q++) s += g[i * (r + 1) + q] * g[j * (r + 1) + q] * (indef && q % 2 == 0 ? -1 : 1);
    m[i * n + j] = m[j * n + i] = s;
  }
  poison(c, U); poison(c, Dg);
  c.nontrivial(n > 1);
  c.label(indef ? "indefinite" : r + 1 < n ? "singular up to rounding" : "full rank");
  c.note("n %u rank %u", n, r + 1);
  matrix_udu(n, m, U, Dg);
  for (N i = 0; i < n; i++) {
    CHECK(Dg[i] >= 0 && std::isfinite(Dg[i]), "diagonal factor %u is %g", i, Dg[i]);
    CHECK(U[i * n + i] == 1, "diagonal of the triangular factor");
    for (N j = 0; j < n; j++) CHECK(j < i ? U[i * n + j] == 0 : (bool)std::isfinite(U[i * n + j]), "triangular factor %u,%u is %g", i, j, U[i * n + j]);
  }
}
SUB(P39, long_vectors, 0.1, 60, "vectors of 300..70000 elements from a seeded generator (one in two beyond 65535): dot product, norm, mean, distance, normalisation, sums, scaled sum, and copy, transpose and scaled sum of the same data as one column or one row; non-trivial: beyond 65535 elements") {
  N n = (N)(c.coin() ? 65536 + c.draw(4000) : 300 + c.draw(3000));
  uint64_t st = c.u64() | 1;
  auto nx = [&]() { st = st * 6364136223846793005ull + 1442695040888963407ull; return (double)((int64_t)st >> 20) * 0x1p-30; };
  std::unique_ptr<double[]> a(new double[n]), b(new double[n]), r(new double[n]);
  LD dot = 0, mag = 0, sum = 0, asum = 0, aa = 0, dd = 0;
  for (N i = 0; i < n; i++) {
    a[i] = nx(); b[i] = nx(); r[i] = NAN;
    LD t = (LD)a[i] * b[i]; dot += t; mag += fabsl(t); sum += a[i]; asum += fabsl(a[i]); aa += (LD)a[i] * a[i]; LD d = (LD)a[i] - b[i]; dd += d * d;
  }
  c.nontrivial(n > 65535);
  c.note("n %u", n);
  LD e = 2.5e-16L * n;
  CHECK(fabsl(vector_dot(n, a.get(), b.get()) - dot) <= e * mag, "dot product of %u", n);
  CHECK(fabsl(vector_norm(n, a.get()) - sqrtl(aa)) <= e * sqrtl(aa), "norm of %u", n);
  CHECK(fabsl(vector_mean(n, a.get()) - sum / n) <= e * asum / n, "mean of %u", n);
  CHECK(fabsl(vector_distance(n, a.get(), b.get()) - sqrtl(dd)) <= e * sqrtl(dd) + 2e-16L * sqrtl(aa), "distance of %u", n);
  double g = nx();
  vector_add(n, a.get(), b.get(), r.get());
  for (N i = 0; i < n; i++) CHECK(r[i] == a[i] + b[i], "sum at %u of %u", i, n);
  vector_subtract(n, a.get(), b.get(), r.get());
  for (N i = 0; i < n; i++) CHECK(r[i] == a[i] - b[i], "difference at %u of %u", i, n);
  bool row = c.coin();
  auto sc = [&](const char *w) { for (N i = 0; i < n; i++) CHECK(fabsl(r[i] - (a[i] + (LD)g * b[i])) <= 3e-16L * (fabsl(a[i]) + fabsl((LD)g * b[i])), "%s at %u of %u", w, i, n); };
  vector_add_sc(n, a.get(), b.get(), g, r.get()); sc("scaled vector sum");
  for (N i = 0; i < n; i++) r[i] = NAN;
  if (row) matrix_add_sc(1, n, a.get(), b.get(), g, r.get()); else matrix_add_sc(n, 1, a.get(), b.get(), g, r.get());
  sc("scaled matrix sum");
  if (row) matrix_copy(1, n, a.get(), r.get()); else matrix_copy(n, 1, a.get(), r.get());
  for (N i = 0; i < n; i++) CHECK(r[i] == a[i], "copy at %u of %u", i, n);
  if (row) matrix_transpose(1, n, b.get(), r.get()); else matrix_transpose(n, 1, b.get(), r.get());
  for (N i = 0; i < n; i++) CHECK(r[i] == b[i], "transpose at %u of %u", i, n);
  LD nn = sqrtl(aa);
  std::vector<double> ba(a.get(), a.get() + n);
  vector_normalize(n, a.get());
  for (N i = 0; i < n; i++) CHECK(fabsl(a[i] - ba[i] / nn) <= 2 * e * fabsl(ba[i] / nn) + 1e-18L, "normalised at %u of %u", i, n);
}
SUB(P39, vectors, 2, 20000, "dot and cross products, norm, mean, normalisation, scaled sum, sum, difference, distance of vectors of 1..32 (rarely 256) elements, finite and with an infinite one, also with the output on an input: by definition within rounding, inputs untouched; non-trivial: more than one element") {
  N n = (N)(1 + c.draw(c.coin() ? 4 : c.chance(1, 24) ? 255 : 31));
  D a(n), b(n), r(n);
  gen_any(c, a); gen_any(c, b); poison(c, r);
  auto ba = a.copy(), bb = b.copy();
  c.nontrivial(n > 1);
  c.note("n %u", n);
  LD e = 4e-16L * n;
  LD dot = 0, mag = 0, sum = 0, asum = 0, aa = 0, dd = 0;
  for (N i = 0; i < n; i++) { LD t = (LD)a[i] * b[i]; dot += t; mag += fabsl(t); sum += a[i]; asum += fabsl(a[i]); aa += (LD)a[i] * a[i]; LD d = (LD)a[i] - b[i]; dd += d * d; }
  CHECK(fabsl(vector_dot(n, a, b) - dot) <= e * mag, "dot product");
  CHECK(fabsl(vector_norm(n, a) - sqrtl(aa)) <= e * sqrtl(aa), "norm");
  CHECK(fabsl(vector_mean(n, a) - sum / n) <= e * asum / n, "mean");
  CHECK(fabsl(vector_distance(n, a, b) - sqrtl(dd)) <= e * (sqrtl(dd)) + 2e-16L * sqrtl(aa), "distance %.17g not %.17Lg", vector_distance(n, a, b), sqrtl(dd));
  double g = any(c);
  vector_add_sc(n, a, b, g, r);
  for (N i = 0; i < n; i++) CHECK(fabsl(r[i] - (a[i] + (LD)g * b[i])) <= 3e-16L * (fabsl(a[i]) + fabsl((LD)g * b[i])), "scaled sum at %u", i);
  vector_add(n, a, b, r);
  for (N i = 0; i < n; i++) CHECK(r[i] == ba[i] + bb[i], "sum at %u", i);
  vector_subtract(n, a, b, r);
  for (N i = 0; i < n; i++) CHECK(r[i] == ba[i] - bb[i], "difference at %u", i);
  CHECK(a.same(ba) && b.same(bb), "input modified");
  if (n >= 3) {
    D x(3), y(3), z(3);
    for (int i = 0; i < 3; i++) { x[i] = a[i]; y[i] = b[i]; }
    poison(c, z);
    vector_cross(x, y, z);
    for (int i = 0; i < 3; i++) {
      int j = (i + 1) % 3, k = (i + 2) % 3;
      LD t = (LD)x[j] * y[k], u = (LD)x[k] * y[j];
      CHECK(fabsl(z[i] - (t - u)) <= 4e-16L * (fabsl(t) + fabsl(u)), "cross product at %d", i);
    }
  }
  if (aa > 0) {
    vector_normalize(n, a);
    for (N i = 0; i < n; i++) CHECK(fabsl(a[i] - ba[i] / sqrtl(aa)) <= 2 * e, "normalised at %u", i);
  }
  double t = c.pick({1e-12, 1e-3, 1.0, 100.0}), p = any(c), q = c.coin() ? p + c.real(-2, 2) * t : any(c);
  LD diff = fabsl((LD)p - q);
  if (fabsl(diff - t) > 1e-15L * (fabs(p) + fabs(q))) CHECK(double_within(p, q, t) == (diff < t), "within %.17g of %.17g and %.17g", t, p, q);
  if (fabsl(diff - 1e-12L) > 1e-15L * (fabs(p) + fabs(q))) {
    CHECK(double_approx_eq(p, q) == (diff < 1e-12L), "approximately equal: %.17g and %.17g", p, q);
    CHECK(double_equal(p, q) == (diff < 1e-12L) && double_equal(q, p) == (diff < 1e-12L), "equal: %.17g and %.17g", p, q);
  }
  float pf = (float)p, qf = c.coin() ? pf : c.coin() ? nextafterf(pf, (float)c.sign() * 1e30f) : (float)q;
  CHECK(float_equal(pf, qf) == (fabsl((LD)pf - qf) < 1e-12L), "equal in single precision: %.9g and %.9g", pf, qf);
  // an infinite element: sums and norms are infinite, whatever its place
  if (c.chance(1, 8)) {
    D h(n);
    for (N i = 0; i < n; i++) h[i] = ba[i];
    double inf = c.sign() * INFINITY;
    h[(N)c.draw(n - 1)] = inf;
    CHECK(vector_mean(n, h) == inf && vector_norm(n, h) == INFINITY && vector_distance(n, h, b) == INFINITY, "mean, norm or distance with an infinite element");
  }
}
