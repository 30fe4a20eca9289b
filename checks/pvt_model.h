// Reference model of the single epoch solver (P44-P47; a filter in P54).
#pragma once
#include <math.h>
#include <string.h>
#include <utility>
#include <vector>
extern "C" {
#include <swiftnav/nav_meas.h>
}
#include <swiftnav/signal.h>

namespace pvt_model {
typedef long double LD;
const LD PIl = 3.14159265358979323846264338327950288L;
const LD Cl = 299792458.0L, WE = 7.2921151467e-5L;
const LD AE = 6378137.0L, FE = 1 / 298.257223563L, E2 = FE * (2 - FE);
enum { G, S, R, C, J, E, NC };

struct Code { int code, cons; LD hz; LD var; };  // published carrier; variance of the noise model [m^2], 0 = unsupported
const Code codes[] = {
    {CODE_GPS_L1CA, G, 1575.42e6L, 0.4L}, {CODE_GPS_L1P, G, 1575.42e6L, 0.4L}, {CODE_GPS_L2CM, G, 1227.60e6L, 1}, {CODE_GPS_L2CL, G, 1227.60e6L, 1},
    {CODE_GPS_L2CX, G, 1227.60e6L, 1}, {CODE_GPS_L2P, G, 1227.60e6L, 1}, {CODE_GPS_L5I, G, 1176.45e6L, 1}, {CODE_GPS_L5Q, G, 1176.45e6L, 1},
    {CODE_GPS_L5X, G, 1176.45e6L, 1}, {CODE_GLO_L1OF, R, 1602e6L, 8}, {CODE_GLO_L2OF, R, 1246e6L, 8}, {CODE_BDS2_B1, C, 1561.098e6L, 0.5L},
    {CODE_BDS2_B2, C, 1207.14e6L, 0.5L}, {CODE_BDS3_B1CI, C, 1575.42e6L, 0.5L}, {CODE_BDS3_B1CQ, C, 1575.42e6L, 0.5L}, {CODE_BDS3_B1CX, C, 1575.42e6L, 0.5L},
    {CODE_BDS3_B3I, C, 1268.52e6L, 0.5L}, {CODE_BDS3_B3Q, C, 1268.52e6L, 0.5L}, {CODE_BDS3_B3X, C, 1268.52e6L, 0.5L}, {CODE_BDS3_B5I, C, 1176.45e6L, 0.5L},
    {CODE_BDS3_B5Q, C, 1176.45e6L, 0.5L}, {CODE_BDS3_B5X, C, 1176.45e6L, 0.5L}, {CODE_BDS3_B7I, C, 1207.14e6L, 0.5L}, {CODE_BDS3_B7Q, C, 1207.14e6L, 0.5L},
    {CODE_BDS3_B7X, C, 1207.14e6L, 0.5L}, {CODE_GAL_E1B, E, 1575.42e6L, 0.4L}, {CODE_GAL_E1C, E, 1575.42e6L, 0.4L}, {CODE_GAL_E1X, E, 1575.42e6L, 0.4L},
    {CODE_GAL_E7I, E, 1207.14e6L, 0.4L}, {CODE_GAL_E7Q, E, 1207.14e6L, 0.4L}, {CODE_GAL_E7X, E, 1207.14e6L, 0.4L}, {CODE_GAL_E5I, E, 1176.45e6L, 0.4L},
    {CODE_GAL_E5Q, E, 1176.45e6L, 0.4L}, {CODE_GAL_E5X, E, 1176.45e6L, 0.4L}, {CODE_QZS_L1CA, J, 1575.42e6L, 1}, {CODE_QZS_L2CM, J, 1227.60e6L, 1},
    {CODE_QZS_L2CL, J, 1227.60e6L, 1}, {CODE_QZS_L2CX, J, 1227.60e6L, 1}, {CODE_QZS_L5I, J, 1176.45e6L, 1}, {CODE_QZS_L5Q, J, 1176.45e6L, 1}, {CODE_QZS_L5X, J, 1176.45e6L, 1}};
const int sat_lo[6] = {1, 120, 1, 1, 193, 1}, sat_n[6] = {32, 19, 28, 64, 10, 36};
inline const Code *find_code(int code) {
  for (const Code &k : codes) if (k.code == code) return &k;
  return nullptr;
}
static int g_fcn[29];  // GLONASS channel (map units) per slot
inline LD carrier(int code, int sat) {
  const Code *k = find_code(code);
  if (k->cons != R) return k->hz;
  LD step = code == CODE_GLO_L1OF ? 562500.0L : 437500.0L;
  return k->hz + (g_fcn[sat] - 8) * step;
}

// ------------------------------------------------------------ reference model
struct M {
  int code, sat, cons, idx;
  LD pr, pdot, pos[3], vel[3], rvar, dvar, lambda;
  bool dop;
  std::pair<int, int> sid() const { return {code, sat}; }
  std::pair<int, int> sv() const { return {cons, sat}; }
};
inline M to_ref(const navigation_measurement_t &m, int idx) {
  M r;
  const Code *k = find_code(m.sid.code);
  r.code = m.sid.code; r.sat = m.sid.sat; r.cons = k->cons; r.idx = idx;
  LD f = carrier(r.code, r.sat);
  r.lambda = Cl / f;
  r.pr = (LD)m.raw_pseudorange + Cl * m.sat_clock_err;
  r.pdot = -((LD)m.raw_measured_doppler - m.sat_clock_err_rate * f) * r.lambda;
  for (int i = 0; i < 3; i++) { r.pos[i] = m.sat_pos[i]; r.vel[i] = m.sat_vel[i]; }
  LD cn = expl(-(LD)m.cn0 / 6.5L), el = 1 / fmaxl(sinl(m.elevation * PIl / 180), 1e-3L);
  r.rvar = k->var + 780 * cn + 0.1L * el * el;
  r.dvar = 0.1L + 700 * cn;
  if (!(m.flags & NAV_MEAS_FLAG_PHASE_VALID)) { r.rvar *= 16; r.dvar *= 16; }
  if (m.lock_time < 4) { LD q = 4 - 3 * (LD)m.lock_time / 4; r.rvar *= q; r.dvar *= q; }
  r.dop = m.flags & NAV_MEAS_FLAG_MEAS_DOPPLER_VALID;
  return r;
}
inline bool invert(int n, const std::vector<LD> &A, std::vector<LD> &X, LD *det) {
  *det = 1;
  std::vector<LD> a(A);
  X.assign((size_t)(n * n), 0);
  for (int i = 0; i < n; i++) X[(size_t)(i * n + i)] = 1;
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k; i < n; i++) if (fabsl(a[(size_t)(i * n + k)]) > fabsl(a[(size_t)(p * n + k)])) p = i;
    LD v = a[(size_t)(p * n + k)];
    if (!(fabsl(v) > 0)) return false;
    *det *= v;
    if (p != k) for (int j = 0; j < n; j++) { std::swap(a[(size_t)(k * n + j)], a[(size_t)(p * n + j)]); std::swap(X[(size_t)(k * n + j)], X[(size_t)(p * n + j)]); }
    for (int j = 0; j < n; j++) { a[(size_t)(k * n + j)] /= v; X[(size_t)(k * n + j)] /= v; }
    for (int i = 0; i < n; i++)
      if (i != k) {
        LD q = a[(size_t)(i * n + k)];
        if (q != 0) for (int j = 0; j < n; j++) { a[(size_t)(i * n + j)] -= q * a[(size_t)(k * n + j)]; X[(size_t)(i * n + j)] -= q * X[(size_t)(k * n + j)]; }
      }
  }
  return true;
}
// weighted least squares; cond is set to the condition number (1-norm) of the normal matrix scaled to a unit diagonal,
// or the reciprocal of its determinant where a closed form is used
inline bool wls(int n, int m, const std::vector<LD> &A, const LD *b, const std::vector<LD> &w, LD *x, std::vector<LD> &V, LD &cond) {
  std::vector<LD> N((size_t)(m * m), 0), r((size_t)m, 0);
  for (int k = 0; k < n; k++)
    for (int i = 0; i < m; i++) {
      LD aw = A[(size_t)(k * m + i)] * w[(size_t)k];
      if (b) r[(size_t)i] += aw * b[k];
      for (int j = 0; j < m; j++) N[(size_t)(i * m + j)] += aw * A[(size_t)(k * m + j)];
    }
  LD det;
  if (!invert(m, N, V, &det)) return false;
  // the closed-form small inverses lose digits with the determinant of the unit-diagonal matrix
  for (int i = 0; i < m; i++) det /= N[(size_t)(i * m + i)];
  LD na = 0, nb = 0;
  for (int i = 0; i < m; i++) {
    LD sa = 0, sb = 0;
    for (int j = 0; j < m; j++) {
      LD d = sqrtl(fabsl(N[(size_t)(i * m + i)] * N[(size_t)(j * m + j)]));
      sa += fabsl(N[(size_t)(i * m + j)] / d);
      sb += fabsl(V[(size_t)(i * m + j)] * d);
    }
    na = fmaxl(na, sa); nb = fmaxl(nb, sb);
  }
  cond = fmaxl(na * nb, m == 4 ? 1 / fabsl(det) : 0);
  if (x)
    for (int i = 0; i < m; i++) { x[i] = 0; for (int j = 0; j < m; j++) x[i] += V[(size_t)(i * m + j)] * r[(size_t)j]; }
  return true;
}
struct Sol {
  int ns = 0, iters = 0;
  LD x[2 * 9];
  std::vector<LD> V, VV, H;
  std::vector<LD> res, vres;
  LD cond = 0, vcond = 0;
};
inline LD norm3(const LD *a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
inline void rot(const LD *s, LD tau, LD *o) { o[0] = s[0] + WE * tau * s[1]; o[1] = s[1] - WE * tau * s[0]; o[2] = s[2]; }
inline LD pred_range(const LD *u, const M &m, LD *los) {
  LD d[3], s[3];
  for (int i = 0; i < 3; i++) d[i] = u[i] - m.pos[i];
  rot(m.pos, norm3(d) / Cl, s);
  for (int i = 0; i < 3; i++) d[i] = s[i] - u[i];
  LD r = norm3(d);
  for (int i = 0; i < 3; i++) los[i] = d[i] / r;
  return r;
}
inline LD pred_rate(const LD *u, const LD *v, LD drift, const M &m) {
  LD d[3], s[3], p[3];
  for (int i = 0; i < 3; i++) d[i] = m.pos[i] - u[i];
  LD tau = norm3(d) / Cl, o = 0;
  rot(m.vel, tau, s);
  rot(m.pos, tau, p);
  for (int i = 0; i < 3; i++) d[i] = p[i] - u[i];
  LD r = norm3(d);
  for (int i = 0; i < 3; i++) o += d[i] / r * (s[i] - v[i]);
  return o + drift;
}
// Newton iteration from the Earth's centre: at most 10 steps, converged below 1 mm
inline int ref_iter(const std::vector<M> &ms, const int *cmap, int ns, bool novel, Sol &o, bool &amb) {
  int n = (int)ms.size();
  o = Sol();
  o.ns = ns;
  memset(o.x, 0, sizeof o.x);
  std::vector<LD> A((size_t)(n * ns)), w((size_t)n), w1((size_t)n, 1);
  o.res.assign((size_t)n, 0); o.vres.assign((size_t)n, 0);
  for (o.iters = 1; o.iters <= 10; o.iters++) {
    for (int k = 0; k < n; k++) {
      LD los[3];
      const M &m = ms[(size_t)k];
      LD p = pred_range(o.x, m, los) + o.x[cmap[m.cons]];
      o.res[(size_t)k] = m.pr - p;
      w[(size_t)k] = 1 / m.rvar;
      for (int i = 0; i < ns; i++) A[(size_t)(k * ns + i)] = i < 3 ? -los[i] : i == cmap[m.cons];
    }
    LD dx[9];
    LD cond;
    if (!wls(n, ns, A, o.res.data(), w, dx, o.V, cond)) return -1;
    if (!(cond < 1e9L)) { amb = true; return -1; }
    o.cond = fmaxl(o.cond, cond);
    for (int i = 0; i < ns; i++) o.x[i] += dx[i];
    LD step = norm3(dx);
    if (o.iters == 10 && step > 0.5e-3L && step < 2e-3L) amb = true;
    if (!(step < 1e12L)) amb = true;
    if (step > 1e-3L) continue;
    if (!novel) {
      std::vector<LD> b((size_t)n);
      for (int k = 0; k < n; k++) {
        const M &m = ms[(size_t)k];
        w[(size_t)k] = 1 / (m.dvar * m.lambda * m.lambda);
        LD z[3] = {0, 0, 0};
        b[(size_t)k] = m.pdot - pred_rate(o.x, z, 0, m);
      }
      if (!wls(n, ns, A, b.data(), w, o.x + ns, o.VV, cond)) return -1;
      o.vcond = cond;
      if (!(cond < 1e9L)) { amb = true; return -1; }
      for (int k = 0; k < n; k++) o.vres[(size_t)k] = ms[(size_t)k].pdot - pred_rate(o.x, o.x + ns, o.x[ns + cmap[ms[(size_t)k].cons]], ms[(size_t)k]);
    }
    if (!wls(n, ns, A, nullptr, w1, nullptr, o.H, cond)) return -1;
    return 0;
  }
  amb |= n > ns && o.x[0] != o.x[0];
  return -1;
}
}  // namespace pvt_model
