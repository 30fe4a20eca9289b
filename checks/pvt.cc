// P44-P47: single epoch solver.
#include "pbt.h"
#include "max_channels.h"
#include "pvt_model.h"
#include <algorithm>
#include <set>
#include <string.h>
extern "C" {
#include <swiftnav/glo_map.h>
#include <swiftnav/logging.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/single_epoch_solver.h>
}
#include <swiftnav/signal.h>
using namespace pbt;

namespace {
using namespace pvt_model;
const int CH_MAX = MAX_CHANNELS;
void mute(int, const char *, ...) {}
void mute2(int, const char *, const int, const char *, ...) {}
void quiet() {
  static bool done = false;
  if (done) return;
  done = true;
  logging_set_implementation(mute, mute2);
}
void setup_glo(Case &c) {
  glo_map_init(nullptr, nullptr);
  int base = (int)c.draw(13);
  for (int s = 1; s <= 28; s++) {
    g_fcn[s] = 1 + (base + s * 5) % 14;
    gnss_signal_t sid;
    memset(&sid, 0, sizeof sid);
    sid.code = CODE_GLO_L1OF; sid.sat = (u16)s;
    glo_map_set_slot_id((u16)g_fcn[s], (u16)s);
  }
}
// residual norm relative to 2.5 sigma per measurement; passes below 1
LD raim_ratio(const std::vector<M> &ms, const Sol &s, bool novel) {
  LD q = 0;
  for (size_t k = 0; k < ms.size(); k++) {
    q += s.res[k] * s.res[k] / ms[k].rvar;
    if (!novel) q += s.vres[k] * s.vres[k] / ms[k].dvar;
  }
  return sqrtl(q / (6.25L * (LD)ms.size() * (novel ? 1 : 2)));
}
struct Out {
  int code = 0;  // before the sanity filter
  Sol sol;
  std::vector<M> used;
  std::set<std::pair<int, int>> removed;
  bool amb = false;
  LD ratio = 0;
};
typedef std::set<std::pair<int, int>> SidSet;
size_t sat_count(const std::vector<M> &v) {
  SidSet s;
  for (const M &m : v) s.insert(m.sv());
  return s.size();
}
// one candidate exclusion
int masked(const std::vector<M> &ms, const int *cmap, int ns, bool novel, const SidSet &rm, Sol &sol, std::vector<M> &used, LD &ratio, bool &amb) {
  used.clear();
  for (const M &m : ms) if (!rm.count(m.sid())) used.push_back(m);
  ratio = INFINITY;
  if (used.empty() || sat_count(used) < (size_t)ns) return -1;
  bool a = false;
  int r = ref_iter(used, cmap, ns, novel, sol, a);
  if (a || sol.iters >= 9) amb = true;
  if (r) return -1;
  ratio = raim_ratio(used, sol, novel);
  // scale that makes candidates comparable: the library's metric is per degree of freedom
  if (fabsl(ratio - 1) < 1e-6L) amb = true;
  return ratio < 1 ? 0 : -1;
}
int clock_map(const std::vector<M> &ms, int *cmap) {
  int ns = 3;
  for (int i = 0; i < NC; i++) cmap[i] = -1;
  for (const M &m : ms) if (cmap[m.cons] < 0) cmap[m.cons] = ns++;
  return ns;
}
Out reference(const std::vector<M> &ms, bool noraim, bool novel) {
  Out o;
  int cmap[NC], ns = clock_map(ms, cmap);
  o.sol.ns = ns;
  int n = (int)ms.size();
  if ((size_t)ns > sat_count(ms)) { o.code = PVT_INSUFFICENT_MEAS; return o; }
  o.used = ms;
  int r = ref_iter(ms, cmap, ns, novel, o.sol, o.amb);
  if (o.sol.iters >= 9) o.amb = true;
  if (noraim) { o.code = r ? PVT_UNCONVERGED : PVT_CONVERGED_NO_RAIM; return o; }
  if (!r && n <= ns) { o.code = PVT_CONVERGED_NO_RAIM; return o; }
  if (r && n <= ns + 1) { o.code = PVT_RAIM_REPAIR_IMPOSSIBLE; return o; }
  if (!r) {
    o.ratio = raim_ratio(ms, o.sol, novel);
    if (fabsl(o.ratio - 1) < 1e-6L) o.amb = true;
    if (o.ratio < 1) return o;
  }
  SidSet rm;
  for (int round = 0; round < 2 && n - round - 1 > ns; round++) {
    LD best = INFINITY;
    int who = -1;
    bool ok = false;
    std::vector<LD> good, all;
    for (int i = 0; i < n; i++) {
      const M &m = ms[(size_t)i];
      if (rm.count(m.sid())) continue;
      SidSet t = rm;
      t.insert(m.sid());
      Sol s;
      std::vector<M> u;
      LD q;
      bool amb = false;
      int f = masked(ms, cmap, ns, novel, t, s, u, q, amb);
      if (amb) o.amb = true;
      if (!f) { if (!ok) best = INFINITY; ok = true; good.push_back(q); }
      else all.push_back(q);
      if (q <= best && (!ok || !f)) { best = q; who = i; }
    }
    std::vector<LD> &v = ok ? good : all;
    std::sort(v.begin(), v.end());
    if (v.size() > 1 && v[1] - v[0] < 1e-6L * (1 + v[0])) o.amb = true;  // a tie
    if (who < 0) break;
    if (!ok && std::isinf((double)best)) o.amb = true;
    rm.insert(ms[(size_t)who].sid());
    if (ok) {
      LD q;
      masked(ms, cmap, ns, novel, rm, o.sol, o.used, q, o.amb);
      o.removed = rm;
      o.code = PVT_CONVERGED_RAIM_REPAIR;
      return o;
    }
  }
  // last resort: GPS alone
  SidSet ng;
  std::vector<M> gps;
  for (const M &m : ms) { if (m.cons != G) ng.insert(m.sid()); else gps.push_back(m); }
  if ((int)gps.size() <= 4) { o.code = PVT_RAIM_REPAIR_IMPOSSIBLE; return o; }
  for (int &x : cmap) x = -1;
  cmap[G] = 3;
  LD q;
  int f = masked(ms, cmap, 4, novel, ng, o.sol, o.used, q, o.amb);
  if (!f) { o.removed = ng; o.code = PVT_CONVERGED_RAIM_REPAIR; return o; }
  o.code = PVT_RAIM_REPAIR_FAILED;
  return o;
}

// ------------------------------------------------------------ geodesy
void geodetic(const LD *p, LD &lat, LD &lon, LD &h) {
  LD r = hypotl(p[0], p[1]);
  lon = atan2l(p[1], p[0]);
  LD t = atan2l(p[2], r * (1 - E2));
  for (int i = 0; i < 60; i++) {
    LD N = AE / sqrtl(1 - E2 * sinl(t) * sinl(t));
    t = atan2l(p[2] + E2 * N * sinl(t), r);
  }
  LD N = AE / sqrtl(1 - E2 * sinl(t) * sinl(t));
  lat = t;
  h = r * cosl(t) + p[2] * sinl(t) - AE * AE / N;
}
void ned_rows(LD lat, LD lon, LD m[3][3]) {
  LD sp = sinl(lat), cp = cosl(lat), sl = sinl(lon), cl = cosl(lon);
  m[0][0] = -sp * cl; m[0][1] = -sp * sl; m[0][2] = cp;
  m[1][0] = -sl; m[1][1] = cl; m[1][2] = 0;
  m[2][0] = -cp * cl; m[2][1] = -cp * sl; m[2][2] = -sp;
}

// ------------------------------------------------------------ scenes
struct Scene {
  LD pos[3], vel[3], lat, lon, h, clk[NC], drift;
  std::vector<navigation_measurement_t> m;
  gps_time_t tor;
};
struct Opt {
  int max_cons = 5, extra = 12, min_extra = 0;
  LD hmax = 9000, vmax = 500, elmin = 8;
  bool wild_geom = false, gps_first = false, need_gps = false;
};
Scene gen_scene(Case &c, const Opt &q) {
  quiet();
  setup_glo(c);
  Scene s;
  // receiver
  s.lat = (LD)(c.coin() ? c.real(-90, 90) : c.pick({0.0, 90.0, -90.0, 45.0, 89.9999, -33.0}));
  s.lon = (LD)(c.coin() ? c.real(-180, 180) : c.pick({0.0, 180.0, -180.0, 90.0, -90.0, 122.4}));
  s.h = c.coin() ? (LD)c.real(-900, 900) : (LD)c.real(-900, (double)q.hmax);
  s.lat *= PIl / 180; s.lon *= PIl / 180;
  LD N = AE / sqrtl(1 - E2 * sinl(s.lat) * sinl(s.lat));
  s.pos[0] = (N + s.h) * cosl(s.lat) * cosl(s.lon); s.pos[1] = (N + s.h) * cosl(s.lat) * sinl(s.lon); s.pos[2] = (N * (1 - E2) + s.h) * sinl(s.lat);
  LD ned[3][3];
  ned_rows(s.lat, s.lon, ned);
  LD sp = c.chance(1, 4) ? 0 : (LD)c.real(0, (double)q.vmax), d[3];
  for (LD &x : d) x = c.real(-1, 1);
  LD dn = norm3(d) + 1e-9L;
  for (int i = 0; i < 3; i++) s.vel[i] = sp * d[i] / dn;
  for (LD &x : s.clk) x = (c.coin() ? c.real(-1e-6, 1e-6) : c.chance(1, 8) ? c.real(-1, 1) : c.real(-1e-2, 1e-2)) * Cl;
  s.drift = c.chance(1, 5) ? 0 : (LD)c.real(-1e-6, 1e-6) * Cl;
  s.tor.wn = (s16)c.range(1, 4000);
  s.tor.tow = c.coin() ? c.real(0, 604799.9) : c.pick({0.0, 604799.999, 1.0, 302400.0, 1e-4});
  // constellations
  std::vector<int> av = {G, R, C, J, E};
  c.shuffle(av);
  int k = c.coin() ? 1 : 1 + (int)c.draw((uint64_t)q.max_cons - 1);
  if (q.gps_first || q.need_gps || (k == 1 && c.coin())) {
    auto it = std::find(av.begin(), av.end(), (int)G);
    std::swap(*it, av[q.gps_first || k == 1 ? 0 : c.draw((uint64_t)k - 1)]);
  }
  int cap = 0;
  for (int i = 0; i < k; i++) cap += av[(size_t)i] == J ? 10 : 20;
  int nsat = std::min(cap, 3 + k + q.min_extra + (int)c.size(0, (size_t)q.extra));
  std::vector<int> cons;
  for (int i = 0; i < nsat; i++) cons.push_back(i < k ? av[(size_t)i] : av[c.draw((uint64_t)k - 1)]);
  std::set<std::pair<int, int>> taken;
  int fixed_az = q.wild_geom && c.chance(1, 3) ? (int)c.draw(359) : -1;
  for (int i = 0; i < nsat; i++) {
    int cn = cons[(size_t)i], sat = sat_lo[cn] + (int)c.u((uint64_t)sat_n[cn] - 1);
    int guard = 0;
    while (taken.count({cn, sat}) && guard++ < 80) sat = sat_lo[cn] + (sat - sat_lo[cn] + 1) % sat_n[cn];
    if (taken.count({cn, sat})) continue;
    taken.insert({cn, sat});
    LD az, el;
    if (q.wild_geom) {
      az = (fixed_az >= 0 ? (LD)fixed_az : c.coin() ? (LD)c.real(0, 360) : (LD)c.real(0, 40)) * PIl / 180;
      el = (LD)(c.coin() ? c.real(-5, 90) : c.real(60, 90)) * PIl / 180;
    } else {
      // spread: stratified azimuth, every fourth near the zenith
      az = ((LD)i * 137.5L + (LD)c.real(-60, 60)) * PIl / 180;
      el = (LD)(i % 4 == 1 ? c.real(60, 90) : c.real((double)q.elmin, i % 4 == 3 ? 75 : 40)) * PIl / 180;
    }
    LD dir[3], ndv[3] = {cosl(el) * cosl(az), cosl(el) * sinl(az), -sinl(el)};
    for (int a = 0; a < 3; a++) dir[a] = ned[0][a] * ndv[0] + ned[1][a] * ndv[1] + ned[2][a] * ndv[2];
    LD rad = (cn == J || (cn == C && c.chance(1, 3))) ? 4.2164e7L : (LD)c.real(2.55e7, 2.97e7);
    LD b = dir[0] * s.pos[0] + dir[1] * s.pos[1] + dir[2] * s.pos[2], cc = norm3(s.pos) * norm3(s.pos) - rad * rad;
    LD rho = -b + sqrtl(b * b - cc), at[3], sv[3], sr[3];
    for (int a = 0; a < 3; a++) at[a] = s.pos[a] + rho * dir[a];
    // direction of arrival -> position at transmission, in the frame of that time
    LD th = WE * rho / Cl;
    sr[0] = at[0] * cosl(th) - at[1] * sinl(th); sr[1] = at[1] * cosl(th) + at[0] * sinl(th); sr[2] = at[2];
    for (int a = 0; a < 3; a++) sv[a] = (LD)c.real(-2500, 2500);
    int nsig = 1 + (c.chance(1, 3) ? 1 + (int)c.draw(1) : 0);
    std::vector<int> pool;
    for (const Code &kd : codes) if (kd.cons == cn) pool.push_back(kd.code);
    c.shuffle(pool);
    if (cn == G && c.coin()) std::swap(*std::find(pool.begin(), pool.end(), (int)CODE_GPS_L1CA), pool[0]);
    if (cn == E && c.coin()) std::swap(*std::find(pool.begin(), pool.end(), (int)CODE_GAL_E1B), pool[0]);
    double ce = c.real(-1e-3, 1e-3), cr = c.real(-1e-10, 1e-10);
    for (int g = 0; g < nsig && g < (int)pool.size() && s.m.size() < (size_t)CH_MAX; g++) {
      navigation_measurement_t m;
      memset(&m, 0, sizeof m);
      m.sid.code = (code_t)pool[(size_t)g]; m.sid.sat = (u16)sat;
      LD f = carrier(m.sid.code, sat);
      LD e[3], sp2[3];
      for (int a = 0; a < 3; a++) { m.sat_pos[a] = (double)sr[a]; m.sat_vel[a] = (double)sv[a]; }
      // exact light-time rotation of the stored position
      LD rr[3] = {(LD)m.sat_pos[0] * cosl(th) + (LD)m.sat_pos[1] * sinl(th), (LD)m.sat_pos[1] * cosl(th) - (LD)m.sat_pos[0] * sinl(th), m.sat_pos[2]};
      LD rv[3] = {(LD)m.sat_vel[0] * cosl(th) + (LD)m.sat_vel[1] * sinl(th), (LD)m.sat_vel[1] * cosl(th) - (LD)m.sat_vel[0] * sinl(th), m.sat_vel[2]};
      for (int a = 0; a < 3; a++) sp2[a] = rr[a] - s.pos[a];
      LD range = norm3(sp2), rate = 0;
      for (int a = 0; a < 3; a++) { e[a] = sp2[a] / range; rate += e[a] * (rv[a] - s.vel[a]); }
      m.sat_clock_err = ce; m.sat_clock_err_rate = cr;
      m.raw_pseudorange = (double)(range + s.clk[cn] - Cl * ce);
      m.raw_measured_doppler = (double)(-(rate + s.drift) * f / Cl + cr * f);
      m.raw_computed_doppler = m.raw_measured_doppler + c.real(-5, 5);
      m.raw_carrier_phase = c.real(-1e8, 1e8);
      m.cn0 = c.coin() ? c.real(35, 55) : c.real(18, 60);
      m.lock_time = c.coin() ? c.real(4, 1000) : c.real(0, 8);
      m.elevation = (double)(el * 180 / PIl);
      m.tot = s.tor;
      m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID;
      if (!c.chance(1, 4)) m.flags |= NAV_MEAS_FLAG_PHASE_VALID;
      if (c.coin()) m.flags |= NAV_MEAS_FLAG_HALF_CYCLE_KNOWN;
      s.m.push_back(m);
    }
  }
  std::vector<navigation_measurement_t> first;
  if (c.coin()) {
    std::vector<int> ix;
    for (size_t i = 0; i < s.m.size(); i++) ix.push_back((int)i);
    c.shuffle(ix);
    first = s.m;
    for (size_t i = 0; i < ix.size(); i++) s.m[i] = first[(size_t)ix[i]];
  }
  return s;
}
std::vector<M> refs(const std::vector<navigation_measurement_t> &v) {
  std::vector<M> o;
  for (size_t i = 0; i < v.size(); i++) o.push_back(to_ref(v[i], (int)i));
  return o;
}
struct Res {
  int ret;
  gnss_solution s;
  dops_t d;
  gnss_sid_set_t rm;
};
obs_mask_config_t no_mask() {
  obs_mask_config_t k;
  memset(&k, 0, sizeof k);
  return k;
}
__attribute__((noinline)) void dirty_stack(int fillv) {
  volatile char b[60000];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)fillv;
}
Res solve(const std::vector<navigation_measurement_t> &v, const gps_time_t &tor, bool noraim, bool novel, processing_strategy_t st, const obs_mask_config_t &mask, int fillv = 0x5A) {
  quiet();
  Res r;
  memset(&r, fillv, sizeof r);
  sid_set_init(&r.rm);
  Buf b(v.size() * sizeof v[0]);
  if (!v.empty()) memcpy(b.p, v.data(), v.size() * sizeof v[0]);
  gps_time_t t = tor;
  obs_mask_config_t mk = mask;
  // outputs in allocations of exactly their size, so that a write past one shows
  Buf bs(sizeof r.s), bd(sizeof r.d), br(sizeof r.rm);
  memcpy(bs.p, &r.s, sizeof r.s);
  memcpy(bd.p, &r.d, sizeof r.d);
  memcpy(br.p, &r.rm, sizeof r.rm);
  dirty_stack(fillv);
  r.ret = calc_PVT((u8)v.size(), (const navigation_measurement_t *)b.p, &t, noraim, novel, &mk, st, (gnss_solution *)bs.p, (dops_t *)bd.p, (gnss_sid_set_t *)br.p);
  memcpy(&r.s, bs.p, sizeof r.s);
  memcpy(&r.d, bd.p, sizeof r.d);
  memcpy(&r.rm, br.p, sizeof r.rm);
  if (!v.empty()) CHECK(memcmp(b.p, v.data(), v.size() * sizeof v[0]) == 0, "measurements modified");
  CHECK(t.wn == tor.wn && t.tow == tor.tow && memcmp(&mk, &mask, sizeof mk) == 0, "an input was modified");
  return r;
}
bool is_ok(int r) { return r >= 0 && r <= 2; }
bool finite_all(const double *p, int n) {
  for (int i = 0; i < n; i++) if (!std::isfinite(p[i])) return false;
  return true;
}
SidSet removed_of(const Res &r, const std::vector<navigation_measurement_t> &v) {
  SidSet o;
  for (auto &m : v) if (sid_set_contains(&r.rm, m.sid)) o.insert({m.sid.code, m.sid.sat});
  return o;
}
// what must hold of any return
void sane(const Res &r, const std::vector<navigation_measurement_t> &admitted, bool novel) {
  if (r.ret < 0) {
    CHECK(r.ret >= -7, "return code %d", r.ret);
    CHECK(r.s.valid == 0, "failure %d leaves the solution marked valid (%d)", r.ret, r.s.valid);
    return;
  }
  CHECK(r.ret <= 2, "return code %d", r.ret);
  CHECK(r.s.valid == 1, "success %d not marked valid", r.ret);
  CHECK(r.s.velocity_valid == 0 || r.s.velocity_valid == 1, "velocity_valid %d", r.s.velocity_valid);
  if (novel) CHECK(r.s.velocity_valid == 0, "velocity disabled but marked valid");
  CHECK(finite_all(r.s.pos_llh, 3) && finite_all(r.s.pos_ecef, 3) && finite_all(r.s.vel_ned, 3) && finite_all(r.s.vel_ecef, 3) && finite_all(r.s.err_cov, 7) &&
            finite_all(&r.s.clock_offset, 1) && finite_all(&r.s.clock_offset_var, 1) && finite_all(&r.s.clock_drift, 1) && finite_all(&r.s.clock_drift_var, 1),
        "non-finite value in a successful solution: pos %g %g %g vel %g %g %g cov %g clock %g %g drift %g %g", r.s.pos_ecef[0], r.s.pos_ecef[1], r.s.pos_ecef[2],
        r.s.vel_ecef[0], r.s.vel_ecef[1], r.s.vel_ecef[2], r.s.err_cov[0], r.s.clock_offset, r.s.clock_offset_var, r.s.clock_drift, r.s.clock_drift_var);
  if (r.s.velocity_valid) CHECK(finite_all(r.s.vel_cov, 7), "non-finite velocity covariance");
  CHECK(finite_all(&r.d.pdop, 1) && finite_all(&r.d.gdop, 1) && finite_all(&r.d.tdop, 1) && finite_all(&r.d.hdop, 1) && finite_all(&r.d.vdop, 1), "non-finite DOP %g %g %g %g %g",
        r.d.pdop, r.d.gdop, r.d.tdop, r.d.hdop, r.d.vdop);
  CHECK(r.d.gdop <= 20, "GDOP %g", r.d.gdop);
  CHECK(r.s.pos_llh[2] >= -1e3 && r.s.pos_llh[2] <= 1e6, "height %g", r.s.pos_llh[2]);
  double v = sqrt(r.s.vel_ecef[0] * r.s.vel_ecef[0] + r.s.vel_ecef[1] * r.s.vel_ecef[1] + r.s.vel_ecef[2] * r.s.vel_ecef[2]);
  CHECK(v < 514.4444441, "speed %g", v);
  SidSet rm = r.ret == 1 ? removed_of(r, admitted) : SidSet();
  SidSet sv;
  size_t n = 0;
  for (auto &m : admitted)
    if (!rm.count({m.sid.code, m.sid.sat})) { n++; sv.insert({(int)sid_to_constellation(m.sid), m.sid.sat}); }
  CHECK(r.s.n_sigs_used == n && r.s.n_sats_used == sv.size(), "%d signals of %d satellites reported, %zu of %zu used", r.s.n_sigs_used, r.s.n_sats_used, n, sv.size());
  if (r.ret == 1) CHECK(!rm.empty(), "repair reported with nothing excluded");
}
// every field of a successful result against a reference solution
void same_as(const Res &r, const Sol &o, const gps_time_t &tor, bool novel, LD scale) {
  int ns = o.ns;
  LD ptol = 1e-5L + 1e-12L * o.cond * (1 + scale);
  auto V = [&](const std::vector<LD> &m, int i, int j) { return m[(size_t)(i * ns + j)]; };
  for (int i = 0; i < 3; i++) CHECK(fabsl(r.s.pos_ecef[i] - o.x[i]) <= ptol, "position[%d] %.6f, reference %.6Lf", i, r.s.pos_ecef[i], o.x[i]);
  LD lat, lon, h, m[3][3];
  LD p[3] = {r.s.pos_ecef[0], r.s.pos_ecef[1], r.s.pos_ecef[2]};
  geodetic(p, lat, lon, h);
  CHECK(fabsl(r.s.pos_llh[0] - lat) < 1e-9L && fabsl(r.s.pos_llh[2] - h) < 1e-3L, "llh %.12f %.12f %.4f, not %.12Lf %.12Lf %.4Lf", r.s.pos_llh[0], r.s.pos_llh[1], r.s.pos_llh[2], lat, lon, h);
  LD dl = r.s.pos_llh[1] - lon;
  dl -= 2 * PIl * roundl(dl / (2 * PIl));
  CHECK(fabsl(dl) * cosl(lat) < 1e-9L, "longitude %.12f, not %.12Lf", r.s.pos_llh[1], lon);
  ned_rows(lat, lon, m);
  LD vtol = 3e-6L + 1e-10L * o.vcond;
  for (int i = 0; i < 3; i++) {
    LD want = novel ? 0 : o.x[ns + i];
    CHECK(fabsl(r.s.vel_ecef[i] - want) <= vtol, "velocity[%d] %.9f, reference %.9Lf (condition %.2Lg, %.2Lg)", i, r.s.vel_ecef[i], want, o.cond, o.vcond);
    LD w2 = 0;
    for (int a = 0; a < 3; a++) w2 += m[i][a] * (LD)r.s.vel_ecef[a];
    CHECK(fabsl(r.s.vel_ned[i] - w2) <= 1e-6L, "NED velocity[%d] %.9f, not %.9Lf", i, r.s.vel_ned[i], w2);
  }
  LD tr = V(o.V, 0, 0) + V(o.V, 1, 1) + V(o.V, 2, 2), ct = tr * (1e-7L + 1e-13L * o.cond);
  const int ia[6] = {0, 0, 0, 1, 1, 2}, ja[6] = {0, 1, 2, 1, 2, 2};
  for (int k = 0; k < 6; k++) CHECK(fabsl(r.s.err_cov[k] - V(o.V, ia[k], ja[k])) <= ct, "err_cov[%d] %.9g, reference %.9Lg", k, r.s.err_cov[k], V(o.V, ia[k], ja[k]));
  LD g2 = V(o.H, 0, 0) + V(o.H, 1, 1) + V(o.H, 2, 2), t2 = V(o.H, 3, 3), rel = 1e-7L + 1e-13L * o.cond;
  auto dop = [&](double got, LD want2, const char *nm) { CHECK(fabsl(got * (LD)got - want2) <= rel * (g2 + t2), "%s %.9f, reference %.9Lf", nm, got, sqrtl(want2)); };
  dop(r.d.pdop, g2, "PDOP"); dop(r.d.tdop, t2, "TDOP"); dop(r.d.gdop, g2 + t2, "GDOP");
  LD vd = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vd += m[2][i] * m[2][j] * V(o.H, i, j);
  dop(r.d.vdop, vd, "VDOP"); dop(r.d.hdop, g2 - vd, "HDOP");
  CHECK(r.s.err_cov[6] == r.d.gdop, "err_cov[6] %.9g is not GDOP %.9g", r.s.err_cov[6], r.d.gdop);
  CHECK(fabsl(r.s.clock_offset * Cl - o.x[3]) <= ptol, "clock offset %.15f s, reference %.15Lf s", r.s.clock_offset, o.x[3] / Cl);
  CHECK(fabsl(r.s.clock_offset_var * Cl * Cl - V(o.V, 3, 3)) <= rel * (tr + V(o.V, 3, 3)), "clock offset variance %.9g, reference %.9Lg", r.s.clock_offset_var, V(o.V, 3, 3) / Cl / Cl);
  CHECK(fabsl(r.s.clock_drift * Cl - (novel ? 0 : o.x[ns + 3])) <= vtol, "clock drift %.15g, reference %.15Lg", r.s.clock_drift, o.x[ns + 3] / Cl);
  if (!novel) {
    LD vt = V(o.VV, 0, 0) + V(o.VV, 1, 1) + V(o.VV, 2, 2) + V(o.VV, 3, 3);
    rel = 1e-7L + 1e-13L * o.vcond;
    for (int k = 0; k < 6; k++) CHECK(fabsl(r.s.vel_cov[k] - V(o.VV, ia[k], ja[k])) <= rel * vt, "vel_cov[%d] %.9g, reference %.9Lg", k, r.s.vel_cov[k], V(o.VV, ia[k], ja[k]));
    CHECK(r.s.vel_cov[6] == r.d.gdop, "vel_cov[6] %.9g is not GDOP %.9g", r.s.vel_cov[6], r.d.gdop);
    CHECK(fabsl(r.s.clock_drift_var * Cl * Cl - V(o.VV, 3, 3)) <= rel * vt, "clock drift variance %.9g, reference %.9Lg", r.s.clock_drift_var, V(o.VV, 3, 3) / Cl / Cl);
  } else CHECK(r.s.clock_drift_var == 0, "clock drift variance %.9g without a velocity solution", r.s.clock_drift_var);
  CHECK(r.s.velocity_valid == !novel, "velocity_valid %d", r.s.velocity_valid);
  // solution time: reception time less the receiver clock offset
  LD dt = ((LD)r.s.time.wn - tor.wn) * 604800 + ((LD)r.s.time.tow - tor.tow) + o.x[3] / Cl;
  CHECK(fabsl(dt) < 1e-9L + ptol / Cl && r.s.time.tow >= 0 && r.s.time.tow < 604800, "solution time %d %.12f is off by %.3Lg s", r.s.time.wn, r.s.time.tow, dt);
}
// code after the sanity limits; 1000 = too close to a limit to call
int limited(const Sol &s, int code, bool novel) {
  if (code < 0) return code;
  int ns = s.ns;
  LD g2 = 0;
  for (int i = 0; i < 4; i++) g2 += s.H[(size_t)(i * ns + i)];
  LD g = sqrtl(g2), lat, lon, h, v = novel ? 0 : norm3(s.x + ns);
  if (!(fabsl(g - 20) > 1e-3L)) return 1000;
  if (g > 20) return PVT_PDOP_TOO_HIGH;
  geodetic(s.x, lat, lon, h);
  if (fabsl(h + 1000) < 0.01L || fabsl(h - 1e6L) < 0.01L) return 1000;
  if (h < -1000 || h > 1e6L) return PVT_BAD_ALTITUDE;
  if (fabsl(v - 514.444444L) < 1e-3L) return 1000;
  if (v > 514.444444L) return PVT_VELOCITY_LOCKOUT;
  return code;
}
LD gdop_of(const Sol &s) {
  LD g2 = 0;
  for (int i = 0; i < 4; i++) g2 += s.H[(size_t)(i * s.ns + i)];
  return sqrtl(g2);
}
void describe(Case &c, const Scene &s, const std::vector<navigation_measurement_t> &v) {
  std::string t;
  for (auto &m : v) { char b[32]; snprintf(b, sizeof b, " %d/%d", m.sid.code, m.sid.sat); t += b; }
  c.note("lat %.4Lf lon %.4Lf h %.1Lf, %zu signals (code/sat):%s", s.lat * 180 / PIl, s.lon * 180 / PIl, s.h, v.size(), t.c_str());
}
}  // namespace

// ---------------------------------------------------------------- P44
SUB(P44, truth, 3, 3000, "receiver anywhere from 900 m below the surface to 9 km (poles, date line included), 0..500 m/s, 1..5 constellations with own clock biases up to a second, common drift, 0..12 satellites more than unknowns, one to three signals each, any carrier-to-noise, lock time and phase state, any order; pseudoranges and Dopplers synthesised by exact light-time geometry; with GDOP at most 10 (and not the other exact solution of a set without redundancy) the solver must return the truth within millimetres (first-order Earth rotation) times GDOP; non-trivial: two or more constellations or more than one signal for some satellite") {
  Opt q;
  Scene s = gen_scene(c, q);
  bool noraim = c.coin(), novel = c.chance(1, 4);
  describe(c, s, s.m);
  std::vector<M> ms = refs(s.m);
  Out o = reference(ms, true, novel);
  c.nontrivial(o.sol.ns > 4 || sat_count(ms) < ms.size());
  // geometry at the true position
  LD g = o.code >= 0 ? gdop_of(o.sol) : 1e9L;
  if (g > 10) { c.label("GDOP above 10"); return; }
  // without redundancy the equations have a second exact solution, and the iteration may find that one
  LD off = 0, worst = 0;
  for (int i = 0; i < 3; i++) off = fmaxl(off, fabsl(o.sol.x[i] - s.pos[i]));
  for (LD e : o.sol.res) worst = fmaxl(worst, fabsl(e));
  if (off > 1e4L && worst < 0.1L) { c.label("second solution"); return; }
  c.label(noraim ? "no RAIM" : "RAIM");
  Res r = solve(s.m, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  int want = noraim || (int)ms.size() <= o.sol.ns ? 2 : 0;
  CHECK(r.ret == want, "returned %d, expected %d (GDOP %.2Lf, %d steps, condition %.2Lg)", r.ret, want, g, o.sol.iters, o.sol.cond);
  sane(r, s.m, novel);
  // weights can favour poor geometry: bound by the weighted estimator's worst gain
  LD wmax = 0, wmin = 1e30L;
  for (const M &m : ms) { wmax = fmaxl(wmax, m.rvar); wmin = fminl(wmin, m.rvar); }
  LD gain = g * sqrtl((LD)ms.size()) * sqrtl(wmax / wmin);
  LD tol = 4e-3L * fminl(gain, 2000);
  for (int i = 0; i < 3; i++) CHECK(fabsl(r.s.pos_ecef[i] - s.pos[i]) <= tol, "position[%d] %.4f, truth %.4Lf", i, r.s.pos_ecef[i], s.pos[i]);
  int first = ms[0].cons;
  CHECK(fabsl(r.s.clock_offset * Cl - s.clk[first]) <= tol, "clock offset %.12f s, truth %.12Lf s", r.s.clock_offset, s.clk[first] / Cl);
  if (!novel) {
    LD dmax = 0, dmin = 1e30L;
    for (const M &m : ms) { LD v = m.dvar * m.lambda * m.lambda; dmax = fmaxl(dmax, v); dmin = fminl(dmin, v); }
    LD vt = 2e-6L * fminl(g * sqrtl((LD)ms.size()) * sqrtl(dmax / dmin), 2000);
    for (int i = 0; i < 3; i++) CHECK(fabsl(r.s.vel_ecef[i] - s.vel[i]) <= vt, "velocity[%d] %.4f, truth %.4Lf", i, r.s.vel_ecef[i], s.vel[i]);
    CHECK(fabsl(r.s.clock_drift * Cl - s.drift) <= vt, "clock drift %.4f m/s, truth %.4Lf m/s", (double)(r.s.clock_drift * Cl), s.drift);
  }
  same_as(r, o.sol, s.tor, novel, 1);
}
SUB(P44, noisy, 2, 3000, "the same scenes with zero-mean noise up to 30 m and 5 Hz and RAIM disabled: every output field against an independent weighted least-squares solution in extended precision (position, clock, velocity, drift, covariances, dilutions of precision, NED velocity, solution time); non-trivial: more measurements than unknowns") {
  Opt q;
  q.hmax = 900000;
  Scene s = gen_scene(c, q);
  bool novel = c.chance(1, 4);
  LD a = (LD)c.logreal(1e-2, 30), b = (LD)c.logreal(1e-3, 5);
  for (auto &m : s.m) { m.raw_pseudorange += (double)a * c.real(-1, 1); m.raw_measured_doppler += (double)b * c.real(-1, 1); }
  describe(c, s, s.m);
  std::vector<M> ms = refs(s.m);
  Out o = reference(ms, true, novel);
  c.nontrivial((int)ms.size() > o.sol.ns);
  if (o.amb) { c.label("ambiguous"); return; }
  int want = limited(o.sol, o.code, novel);
  if (want == 1000) { c.label("at a limit"); return; }
  Res r = solve(s.m, s.tor, true, novel, ALL_CONSTELLATIONS, no_mask());
  CHECK(r.ret == want, "returned %d, reference %d", r.ret, want);
  sane(r, s.m, novel);
  if (r.ret >= 0) same_as(r, o.sol, s.tor, novel, a);
}

// ---------------------------------------------------------------- P45
SUB(P45, single, 3, 2000, "scenes with two or more redundant signals and one faulty range (20 m to 1e6 m, either sign) or Doppler (up to 5 kHz), any victim and order: when the fault shows in the residuals and the rest still determines the solution, the victim and only the victim is excluded and the result equals the truth; when it does not show nothing is excluded; non-trivial: the fault shows") {
  Opt q;
  q.min_extra = 2;
  q.max_cons = 4;
  Scene s = gen_scene(c, q);
  bool novel = c.chance(1, 4), dopp = !novel && c.coin();
  size_t v = c.draw(s.m.size() - 1);
  std::vector<navigation_measurement_t> clean = s.m;
  double mag = dopp ? c.logreal(5, 5000) * c.sign() : c.logreal(20, 1e6) * c.sign();
  if (dopp) s.m[v].raw_measured_doppler += mag;
  else s.m[v].raw_pseudorange += mag;
  describe(c, s, s.m);
  c.note("victim %d/%d %s %+.1f", s.m[v].sid.code, s.m[v].sid.sat, dopp ? "Hz" : "m", mag);
  std::vector<M> ms = refs(s.m);
  Out all = reference(ms, true, novel), good;
  int cmap[NC], ns = clock_map(ms, cmap);
  LD gr;
  good.code = masked(ms, cmap, ns, novel, {ms[v].sid()}, good.sol, good.used, gr, good.amb);
  if (all.amb || good.amb) { c.label("ambiguous"); return; }
  Res r = solve(s.m, s.tor, false, novel, ALL_CONSTELLATIONS, no_mask());
  sane(r, s.m, novel);
  LD ratio = all.code >= 0 ? raim_ratio(ms, all.sol, novel) : 1e9L;
  if (fabsl(ratio - 1) < 1e-6L) return;
  bool shows = ratio > 1;
  c.nontrivial(shows);
  if (!shows) {
    c.label("not detectable");
    int want = limited(all.sol, 0, novel);
    if (want != 1000) CHECK(r.ret == want, "undetectable fault (residual ratio %.3Lf): returned %d, expected %d", ratio, r.ret, want);
    if (r.ret >= 0) same_as(r, all.sol, s.tor, novel, fabsl(mag));
    return;
  }
  // the rest must determine all the unknowns of the full set, with redundancy left
  bool rest_ok = good.code >= 0 && (int)good.used.size() > ns;
  int want = rest_ok ? limited(good.sol, 1, novel) : 0;
  // another exclusion can only compete if what it leaves has no redundancy to show the fault
  LD rival = 1e9L;
  if (rest_ok)
    for (size_t j = 0; j < ms.size(); j++) {
      if (j == v) continue;
      std::vector<M> u;
      Sol w;
      LD q;
      bool amb = false;
      masked(ms, cmap, ns, novel, {ms[j].sid()}, w, u, q, amb);
      rival = fminl(rival, q);
    }
  if (!rest_ok || want != 1 || rival < 0.02L) { c.label("cannot be isolated"); if (!rest_ok) CHECK(r.ret != 0 && r.ret != 2, "fault not isolable, yet returned %d", r.ret); return; }
  c.label(dopp ? "Doppler fault" : "range fault");
  CHECK(r.ret == 1, "returned %d (residual ratio %.2Lf, runner-up %.3Lf)", r.ret, ratio, rival);
  SidSet rm = removed_of(r, s.m);
  CHECK(rm.size() == 1 && rm.count(ms[v].sid()), "excluded %zu signals%s", rm.size(), rm.count(ms[v].sid()) ? " including the victim" : ", not the victim");
  CHECK(sid_set_get_sig_count(&r.rm) == 1, "%u signals reported excluded", sid_set_get_sig_count(&r.rm));
  same_as(r, good.sol, s.tor, novel, 1);
}
SUB(P45, clean, 1, 2000, "fault-free scenes with noise of at most 0.8 of each signal's modelled standard deviation: never a repair, whatever the redundancy; non-trivial: redundant") {
  Opt q;
  Scene s = gen_scene(c, q);
  bool novel = c.chance(1, 4);
  std::vector<M> m0 = refs(s.m);
  double a = c.ureal(0, 0.8);
  for (size_t i = 0; i < s.m.size(); i++) {
    s.m[i].raw_pseudorange += a * c.real(-1, 1) * (double)sqrtl(m0[i].rvar);
    s.m[i].raw_measured_doppler += a * c.real(-1, 1) * (double)sqrtl(m0[i].dvar);
  }
  describe(c, s, s.m);
  std::vector<M> ms = refs(s.m);
  Out o = reference(ms, true, novel);
  if (o.amb || o.code < 0) { c.label("ambiguous"); return; }
  int red = (int)ms.size() - o.sol.ns;
  c.nontrivial(red > 0);
  int want = limited(o.sol, red > 0 ? 0 : 2, novel);
  if (want == 1000) return;
  Res r = solve(s.m, s.tor, false, novel, ALL_CONSTELLATIONS, no_mask());
  sane(r, s.m, novel);
  CHECK(r.ret == want, "returned %d, expected %d", r.ret, want);
  CHECK(sid_set_get_sig_count(&r.rm) == 0, "signals excluded from a fault-free set");
  if (r.ret >= 0) same_as(r, o.sol, s.tor, novel, 30);
}
namespace {
// the solver with RAIM against the model of detection, exclusion and fallback
void faulty(Case &c, const Opt &q, bool fleet) {
  Scene s = gen_scene(c, q);
  bool novel = c.chance(1, 4), noraim = c.chance(1, 8);
  int nf = (int)c.draw(4);
  LD big = 1;
  for (int i = 0; i < nf; i++) {
    size_t v = c.draw(s.m.size() - 1);
    if (c.coin()) { double a = c.logreal(1, c.coin() ? 1e6 : 1e3) * c.sign(); s.m[v].raw_pseudorange += a; big = fmaxl(big, fabsl(a)); }
    else s.m[v].raw_measured_doppler += c.logreal(0.1, 2e3) * c.sign();
  }
  if (fleet ? c.chance(3, 4) : c.chance(1, 4)) {  // every signal of the other constellations is off
    for (auto &m : s.m) if (sid_to_constellation(m.sid) != CONSTELLATION_GPS) m.raw_pseudorange += c.logreal(50, 1e4) * c.sign();
    c.label("other constellations off");
  }
  double a = c.coin() ? c.real(0, 5) : 0;
  if (a > 0) for (auto &m : s.m) { m.raw_pseudorange += a * c.real(-1, 1); m.raw_measured_doppler += 0.2 * a * c.real(-1, 1); }
  describe(c, s, s.m);
  std::vector<M> ms = refs(s.m);
  Out o = reference(ms, noraim, novel);
  c.nontrivial(o.code == 1 || o.code == -4 || o.code == -5);
  Res r = solve(s.m, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  sane(r, s.m, novel);
  if (o.amb) { c.label("ambiguous"); return; }
  int want = limited(o.sol, o.code, novel);
  if (want == 1000) { c.label("at a limit"); return; }
  if (fleet && s.m.size() > 30) c.label("more than 30 signals");
  c.label(want == 0 ? "clean" : want == 1 ? o.removed.size() > 2 ? "GPS alone" : o.removed.size() == 2 ? "repaired by two" : "repaired" : want == 2 ? "no RAIM" : want == -4 ? "failed" : want == -5 ? "impossible" : "limit");
  CHECK(r.ret == want, "returned %d, reference %d (ratio %.4Lf)", r.ret, want, o.ratio);
  if (r.ret == 1) {
    SidSet rm = removed_of(r, s.m);
    CHECK(rm == o.removed, "excluded %zu signals, reference %zu or others", rm.size(), o.removed.size());
    CHECK(sid_set_get_sig_count(&r.rm) == rm.size(), "excluded set holds other signals");
  }
  if (r.ret >= 0) same_as(r, o.sol, s.tor, novel, big);
}
}  // namespace
SUB(P45, differential, 3, 2000, "scenes with 0..4 faulty signals (ranges and Dopplers, 1 m to 1e6 m, sometimes a common bias on one constellation), with and without redundancy, RAIM on or off: return code, excluded signals, counts and every field against an independent model of detection, at most two exclusions by best residual, and the GPS-only fallback; ties and threshold cases skipped; non-trivial: a repair was attempted") {
  Opt q;
  q.min_extra = (int)c.draw(3);
  q.extra = 6;
  q.max_cons = 3;
  faulty(c, q, false);
}
SUB(P45, fleet, 0.6, 250, "the same differential on large sets (20 to 63 signals of several constellations, GPS among them, most with every other constellation off): detection, exclusion and the GPS-only fallback as the model says; non-trivial: a repair was attempted") {
  Opt q;
  q.min_extra = 12;
  q.extra = 24;
  q.max_cons = 5;
  q.need_gps = true;
  faulty(c, q, true);
}

// ---------------------------------------------------------------- P46
namespace {
double odd_value(Case &c, double v) {
  switch (c.draw(9)) {
    case 0: return NAN;
    case 1: return c.sign() * INFINITY;
    case 2: return c.sign() * 1e300;
    case 3: return 0;
    case 4: return -v;
    case 5: return c.sign() * c.logreal(1e-300, 1e300);
    case 6: return c.sign() * c.logreal(1, 1e9);
    case 7: return v * (1 + 1e-9);
    case 8: return v + c.real(-1e3, 1e3);
    default: return v * 2;
  }
}
const int all_codes_n = 64;
gnss_signal_t any_sid(Case &c) {
  gnss_signal_t s;
  memset(&s, 0, sizeof s);
  for (;;) {
    s.code = (code_t)c.draw(all_codes_n - 1);
    int k = (int)code_to_constellation(s.code);
    const int lo[6] = {1, 120, 1, 1, 193, 1};
    (void)lo;
    s.sat = (u16)(sat_lo[k] + (int)c.u((uint64_t)sat_n[k] - 1));
    if (sid_valid(s)) return s;
    s.code = CODE_GPS_L1CA; s.sat = 1;
    return s;
  }
}
void corrupt(Case &c, navigation_measurement_t &m) {
  int n = (int)c.size(1, 4);
  for (int i = 0; i < n; i++) switch (c.draw(11)) {
      case 0: case 1: m.raw_pseudorange = odd_value(c, m.raw_pseudorange); break;
      case 2: m.raw_measured_doppler = odd_value(c, m.raw_measured_doppler); break;
      case 3: { double &x = m.sat_pos[c.draw(2)]; x = odd_value(c, x); break; }
      case 4: { double &x = m.sat_vel[c.draw(2)]; x = odd_value(c, x); break; }
      case 5: m.sat_clock_err = odd_value(c, m.sat_clock_err); break;
      case 6: m.sat_clock_err_rate = odd_value(c, m.sat_clock_err_rate); break;
      case 7: m.cn0 = c.coin() ? odd_value(c, m.cn0) : c.real(-100, 200); break;
      case 8: m.lock_time = c.coin() ? odd_value(c, m.lock_time) : c.real(-10, 10); break;
      case 9: m.elevation = c.coin() ? odd_value(c, m.elevation) : c.real(-90, 90); break;
      case 10: m.flags = (nav_meas_flags_t)(NAV_MEAS_FLAG_CODE_VALID | (c.u32() & 0x7E)); break;
      default: m.sid = any_sid(c); break;
    }
}
std::vector<navigation_measurement_t> wild_set(Case &c, Scene &s) {
  Opt q;
  q.hmax = c.coin() ? 9000 : 3e6;
  q.vmax = c.coin() ? 500 : 3000;
  q.wild_geom = c.coin();
  q.extra = 8;
  s = gen_scene(c, q);
  std::vector<navigation_measurement_t> v = s.m;
  int kind = (int)c.draw(8);
  if (kind == 8) {
    // a receiver clock off by up to years
    double b = c.sign() * c.logreal(1e5, 1e17);
    for (auto &m : v) m.raw_pseudorange += b;
  } else if (kind <= 3) {
    int n = (int)c.size(0, 5);
    for (int i = 0; i < n; i++) corrupt(c, v[c.draw(v.size() - 1)]);
  } else if (kind == 4) {
    // degenerate geometries
    int g = (int)c.draw(4);
    for (auto &m : v) {
      if (g == 0) for (int a = 0; a < 3; a++) m.sat_pos[a] = v[0].sat_pos[a];
      if (g == 1) m.sat_pos[2] = 0;
      if (g == 2) for (int a = 0; a < 3; a++) m.sat_pos[a] = 0;
      if (g == 3) for (int a = 0; a < 3; a++) m.sat_pos[a] = v[0].sat_pos[a] + (m.sat_pos[a] - v[0].sat_pos[a]) * 1e-9;
      if (g == 4) for (int a = 0; a < 3; a++) m.sat_pos[a] = v[0].sat_pos[a] * (double)(1 + (int)(m.sid.sat % 3)) / 2;
    }
  } else if (kind == 5) {
    // duplicates
    int n = (int)c.size(1, 6);
    for (int i = 0; i < n && v.size() < (size_t)CH_MAX; i++) { v.push_back(v[c.draw(v.size() - 1)]); if (c.coin()) v.back().raw_pseudorange += c.real(-100, 100); }
  } else if (kind == 6) {
    v.resize(c.draw(v.size()));
  } else {
    for (auto &m : v) {
      for (int a = 0; a < 3; a++) { m.sat_pos[a] = c.real(-5e7, 5e7); m.sat_vel[a] = c.real(-1e4, 1e4); }
      m.raw_pseudorange = c.real(-1e8, 1e8);
      m.raw_measured_doppler = c.real(-1e5, 1e5);
    }
  }
  return v;
}
std::vector<navigation_measurement_t> admitted_by(const std::vector<navigation_measurement_t> &v, int st, const obs_mask_config_t &k) {
  std::vector<navigation_measurement_t> o;
  std::set<std::pair<int, int>> sats;
  std::set<int> cons;
  for (auto &m : v) {
    int code = m.sid.code, cn = (int)sid_to_constellation(m.sid);
    bool use = true;
    if (st == GPS_ONLY) use = cn == CONSTELLATION_GPS;
    else if (st == L1_ONLY) use = code == CODE_GPS_L1CA || code == CODE_GAL_E1B;
    else if (st == GPS_L1CA_WHEN_POSSIBLE)
      // other signals only to bring in new satellites while there are not more than two beyond the unknowns
      use = code == CODE_GPS_L1CA || (sats.size() <= 3 + cons.size() + 2 && !sats.count({cn, m.sid.sat}));
    if (!use) continue;
    if (k.cn0_mask.enable && !(m.cn0 > k.cn0_mask.threshold_dbhz)) continue;
    o.push_back(m);
    sats.insert({cn, m.sid.sat});
    cons.insert(cn);
  }
  return o;
}
obs_mask_config_t gen_mask(Case &c) {
  obs_mask_config_t k = no_mask();
  k.cn0_mask.enable = c.chance(1, 3);
  k.cn0_mask.threshold_dbhz = (float)(c.coin() ? c.real(0, 60) : c.range(15, 50));
  return k;
}
void same_bits(const Res &a, const Res &b, const char *what) {
  CHECK(a.ret == b.ret, "%s: returned %d and %d", what, a.ret, b.ret);
  CHECK(a.s.valid == b.s.valid, "%s: valid %d and %d", what, a.s.valid, b.s.valid);
  if (a.ret < 0) return;
  auto eq = [&](const double *x, const double *y, int n, const char *nm) { for (int i = 0; i < n; i++) CHECK(x[i] == y[i], "%s: %s[%d] %.17g and %.17g", what, nm, i, x[i], y[i]); };
  eq(a.s.pos_llh, b.s.pos_llh, 3, "pos_llh"); eq(a.s.pos_ecef, b.s.pos_ecef, 3, "pos_ecef"); eq(a.s.vel_ned, b.s.vel_ned, 3, "vel_ned"); eq(a.s.vel_ecef, b.s.vel_ecef, 3, "vel_ecef");
  eq(a.s.err_cov, b.s.err_cov, 7, "err_cov");
  eq(&a.s.clock_offset, &b.s.clock_offset, 1, "clock_offset"); eq(&a.s.clock_offset_var, &b.s.clock_offset_var, 1, "clock_offset_var");
  eq(&a.s.clock_drift, &b.s.clock_drift, 1, "clock_drift"); eq(&a.s.clock_drift_var, &b.s.clock_drift_var, 1, "clock_drift_var");
  CHECK(a.s.time.wn == b.s.time.wn && a.s.time.tow == b.s.time.tow, "%s: solution time differs", what);
  CHECK(a.s.velocity_valid == b.s.velocity_valid && a.s.n_sats_used == b.s.n_sats_used && a.s.n_sigs_used == b.s.n_sigs_used, "%s: flags or counts differ", what);
  if (a.s.velocity_valid) eq(a.s.vel_cov, b.s.vel_cov, 7, "vel_cov");
  eq(&a.d.pdop, &b.d.pdop, 1, "pdop"); eq(&a.d.gdop, &b.d.gdop, 1, "gdop"); eq(&a.d.tdop, &b.d.tdop, 1, "tdop"); eq(&a.d.hdop, &b.d.hdop, 1, "hdop"); eq(&a.d.vdop, &b.d.vdop, 1, "vdop");
  if (a.ret == 1) CHECK(memcmp(&a.rm, &b.rm, sizeof a.rm) == 0, "%s: different signals excluded", what);
}
}  // namespace
SUB(P46, anything, 3, 3000, "measurement sets with NaN, infinite, huge, zero or contradictory ranges, Dopplers, orbits, clocks, quality fields and signal kinds, duplicated signals, coincident, collinear, coplanar and degenerate satellite positions, empty and short sets, receivers up to 3000 km and 3 km/s, every strategy, mask, RAIM and velocity setting, into a solution structure holding old data: success only with finite, in-limit, consistently counted values, failure only with a documented code and an invalid solution; the result is the same with other stack and structure contents; non-trivial: at least the minimum number of satellites") {
  Scene s;
  std::vector<navigation_measurement_t> v = wild_set(c, s);
  bool noraim = c.coin(), novel = c.chance(1, 4);
  obs_mask_config_t k = gen_mask(c);
  processing_strategy_t st = (processing_strategy_t)(c.coin() ? ALL_CONSTELLATIONS : (processing_strategy_t)c.draw(3));
  describe(c, s, v);
  std::vector<navigation_measurement_t> adm = admitted_by(v, st, k);
  SidSet sv;
  std::set<int> cs;
  for (auto &m : adm) { sv.insert({(int)sid_to_constellation(m.sid), m.sid.sat}); cs.insert((int)sid_to_constellation(m.sid)); }
  c.nontrivial(sv.size() >= 3 + cs.size());
  c.note("strategy %d%s%s mask %d %.1f", st, noraim ? " no RAIM" : "", novel ? " no velocity" : "", k.cn0_mask.enable, k.cn0_mask.threshold_dbhz);
  Res r = solve(v, s.tor, noraim, novel, st, k, 0x01);
  c.label(r.ret == 0 ? "ok" : r.ret == 1 ? "repaired" : r.ret == 2 ? "no RAIM" : r.ret == -1 ? "DOP" : r.ret == -2 ? "altitude" : r.ret == -3 ? "velocity" : r.ret == -4 ? "repair failed" : r.ret == -5 ? "repair impossible" : r.ret == -6 ? "unconverged" : "insufficient");
  sane(r, adm, novel);
  CHECK(get_max_channels() == CH_MAX, "reports room for %d channels of %d", get_max_channels(), CH_MAX);
  CHECK((r.ret == -7) == (sv.size() < 3 + cs.size()), "returned %d with %zu satellites of %zu constellations", r.ret, sv.size(), cs.size());
  if (noraim) CHECK(r.ret == 2 || r.ret == -1 || r.ret == -2 || r.ret == -3 || r.ret == -6 || r.ret == -7, "returned %d with RAIM disabled", r.ret);
  if (!novel && r.ret >= 0) {
    bool dop = true;
    SidSet rm = r.ret == 1 ? removed_of(r, v) : SidSet();
    for (auto &m : adm) if (!rm.count({m.sid.code, m.sid.sat}) && !(m.flags & NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) dop = false;
    if (!dop) CHECK(r.s.velocity_valid == 0, "velocity marked valid though a used signal has no Doppler");
  }
  Res r2 = solve(v, s.tor, noraim, novel, st, k, 0xFF);
  same_bits(r, r2, "other memory contents");
}
SUB(P46, limits, 2, 3000, "consistent scenes with receivers from 3 km below the surface to 2000 km, speeds to 1.5 km/s and poor geometry: success exactly within GDOP 20, -1 km..1000 km and 1000 knots, otherwise the documented code (checked in that order) and an invalid solution; non-trivial: a limit is exceeded") {
  Opt q;
  q.hmax = c.coin() ? 2e6 : 1.001e6;
  q.vmax = c.coin() ? 1500 : 520;
  q.wild_geom = c.coin();
  Scene s = gen_scene(c, q);
  // move the receiver up or down through its clock: no; shift below ground by shortening nothing, use a deep point
  bool noraim = c.coin(), novel = c.chance(1, 4);
  describe(c, s, s.m);
  std::vector<M> ms = refs(s.m);
  Out o = reference(ms, noraim, novel);
  if (o.amb) { c.label("ambiguous"); return; }
  int want = limited(o.sol, o.code, novel);
  if (want == 1000) { c.label("at a limit"); return; }
  c.nontrivial(want == -1 || want == -2 || want == -3);
  c.label(want == -1 ? "DOP" : want == -2 ? "altitude" : want == -3 ? "velocity" : "within");
  c.note("speed %.2Lf", norm3(s.vel));
  Res r = solve(s.m, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  CHECK(r.ret == want, "returned %d, expected %d", r.ret, want);
  sane(r, s.m, novel);
  if (r.ret == PVT_BAD_ALTITUDE || r.ret == PVT_VELOCITY_LOCKOUT) {
    // what the limits refuse is not handed out
    double dp = 0, dv = 0, sp = 0;
    for (int i = 0; i < 3; i++) {
      dp = fmax(dp, fabs(r.s.pos_ecef[i] - (double)s.pos[i]));
      dv = fmax(dv, fabs(r.s.vel_ecef[i] - (double)s.vel[i]));
      sp = fmax(sp, fabs((double)s.vel[i]));
    }
    CHECK(dp > 1000, "the refused position is in the solution structure");
    if (!novel && sp > 50) CHECK(dv > 10, "the refused velocity is in the solution structure");
  }
  if (r.ret >= 0) same_as(r, o.sol, s.tor, novel, 1);
}
SUB(P46, epochs, 1, 1000, "2..6 epochs (good, faulty, wild or short sets, changing settings) solved into one solution structure: each result equals that of a fresh structure, and a failed epoch leaves it invalid; non-trivial: a failure after a success") {
  gnss_solution keep;
  dops_t kd;
  memset(&keep, 0, sizeof keep);
  memset(&kd, 0, sizeof kd);
  int n = (int)c.size(2, 6);
  bool ok_before = false;
  for (int e = 0; e < n; e++) {
    Scene s;
    std::vector<navigation_measurement_t> v;
    int kind = (int)c.draw(3);
    if (kind <= 1) { Opt q; q.extra = 5; s = gen_scene(c, q); v = s.m; if (kind == 1) v.resize(c.draw(v.size())); }
    else v = wild_set(c, s);
    bool noraim = c.coin(), novel = c.chance(1, 3);
    Res r = solve(v, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask(), 0x33), k = r;
    Buf b(v.size() * sizeof(navigation_measurement_t));
    if (!v.empty()) memcpy(b.p, v.data(), v.size() * sizeof v[0]);
    obs_mask_config_t mk = no_mask();
    sid_set_init(&k.rm);
    k.ret = calc_PVT((u8)v.size(), (const navigation_measurement_t *)b.p, &s.tor, noraim, novel, &mk, ALL_CONSTELLATIONS, &keep, &kd, c.coin() ? &k.rm : nullptr);
    k.s = keep; k.d = kd;
    k.rm = r.rm;
    c.note("epoch %d: %zu signals -> %d", e, v.size(), r.ret);
    if (r.ret < 0) {
      CHECK(k.ret == r.ret, "epoch %d: returned %d, %d into a fresh structure", e, k.ret, r.ret);
      CHECK(keep.valid == 0 && keep.velocity_valid == 0, "epoch %d: failure %d leaves valid %d velocity_valid %d", e, r.ret, keep.valid, keep.velocity_valid);
      c.nontrivial(ok_before);
    } else {
      same_bits(r, k, "fresh and re-used structure");
      ok_before = true;
    }
  }
}
SUB(P46, order, 1, 1500, "noisy scenes with up to two faults, the same measurements in another order: same return code, exclusions, counts, position, velocity, covariances and position dilutions of precision within rounding, and the same clock where the first constellation is the same; non-trivial: several constellations or a repair") {
  Opt q;
  q.min_extra = (int)c.draw(2);
  Scene s = gen_scene(c, q);
  bool noraim = c.coin(), novel = c.chance(1, 4);
  for (auto &m : s.m) { m.raw_pseudorange += c.real(-1, 1); m.raw_measured_doppler += c.real(-0.1, 0.1); }
  int nf = (int)c.draw(2);
  for (int i = 0; i < nf; i++) s.m[c.draw(s.m.size() - 1)].raw_pseudorange += c.logreal(30, 1e5) * c.sign();
  std::vector<int> ix;
  for (size_t i = 0; i < s.m.size(); i++) ix.push_back((int)i);
  c.shuffle(ix);
  std::vector<navigation_measurement_t> v;
  for (int i : ix) v.push_back(s.m[(size_t)i]);
  describe(c, s, s.m);
  Out o1 = reference(refs(s.m), noraim, novel);
  if (o1.amb || (o1.code >= 0 && gdop_of(o1.sol) > 6)) { c.label("skipped"); return; }
  Res a = solve(s.m, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask()), b = solve(v, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  c.nontrivial(o1.sol.ns > 4 || a.ret == 1);
  if (a.ret == -1 || b.ret == -1) { c.label("DOP"); return; }
  CHECK(a.ret == b.ret, "returned %d and %d", a.ret, b.ret);
  if (a.ret < 0) return;
  double t = 1e-4 + 1e-11 * (double)o1.sol.cond, tv = 1e-5 + 1e-11 * (double)o1.sol.vcond;
  for (int i = 0; i < 3; i++) {
    CHECK(fabs(a.s.pos_ecef[i] - b.s.pos_ecef[i]) <= t, "position[%d] %.6f and %.6f", i, a.s.pos_ecef[i], b.s.pos_ecef[i]);
    CHECK(fabs(a.s.vel_ecef[i] - b.s.vel_ecef[i]) <= tv, "velocity[%d] %.6f and %.6f", i, a.s.vel_ecef[i], b.s.vel_ecef[i]);
  }
  double tr = a.s.err_cov[0] + a.s.err_cov[3] + a.s.err_cov[5];
  for (int i = 0; i < 6; i++) CHECK(fabs(a.s.err_cov[i] - b.s.err_cov[i]) <= 1e-6 * tr, "err_cov[%d] %.9g and %.9g", i, a.s.err_cov[i], b.s.err_cov[i]);
  CHECK(near(a.d.pdop, b.d.pdop, 0, 1e-6) && near(a.d.hdop, b.d.hdop, 0, 1e-6) && near(a.d.vdop, b.d.vdop, 0, 1e-6), "dilutions of precision differ");
  CHECK(a.s.n_sats_used == b.s.n_sats_used && a.s.n_sigs_used == b.s.n_sigs_used && removed_of(a, s.m) == removed_of(b, s.m), "counts or exclusions differ");
  if (sid_to_constellation(s.m[0].sid) == sid_to_constellation(v[0].sid) && (a.ret != 1 || o1.removed.size() <= 2))
    CHECK(fabs(a.s.clock_offset - b.s.clock_offset) * 3e8 <= t && fabs(a.s.clock_drift - b.s.clock_drift) * 3e8 <= tv, "clock differs");
}

// ---------------------------------------------------------------- P47
SUB(P47, strategies, 3, 3000, "mixed measurement sets in any order, every strategy, with and without a carrier-to-noise mask (thresholds on and next to measured values): the result is bit for bit that of the admitted measurements alone, taken unmasked; rewriting every field of the others (NaN included) changes nothing; counts are those of the admitted less the excluded; non-trivial: some but not all measurements admitted and a solution") {
  Opt q;
  q.need_gps = true;
  q.min_extra = (int)c.draw(4);
  q.extra = 14;
  Scene s = gen_scene(c, q);
  std::vector<navigation_measurement_t> v = s.m;
  if (c.chance(1, 3)) v[c.draw(v.size() - 1)].raw_pseudorange += c.logreal(30, 1e5);
  obs_mask_config_t k = gen_mask(c);
  if (c.coin()) {
    const navigation_measurement_t &m = v[c.draw(v.size() - 1)];
    k.cn0_mask.threshold_dbhz = (float)m.cn0;
    if (c.coin()) for (auto &x : v) x.cn0 = (double)(float)x.cn0;
  }
  // an inconsistent mean so that a wrongly admitted signal shows
  for (auto &m : v) m.raw_pseudorange += c.real(-2, 2);
  processing_strategy_t st = (processing_strategy_t)c.draw(3);
  bool noraim = c.coin(), novel = c.chance(1, 4);
  describe(c, s, v);
  c.note("strategy %d mask %d %.3f", st, k.cn0_mask.enable, k.cn0_mask.threshold_dbhz);
  std::vector<navigation_measurement_t> adm = admitted_by(v, st, k);
  Res a = solve(v, s.tor, noraim, novel, st, k), b = solve(adm, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  c.label(st == GPS_ONLY ? "GPS only" : st == L1_ONLY ? "L1 only" : st == ALL_CONSTELLATIONS ? "all" : "L1CA when possible");
  sane(a, adm, novel);
  same_bits(a, b, "admitted measurements alone");
  c.nontrivial(a.ret >= 0 && adm.size() < v.size());
  SidSet in;
  for (auto &m : adm) in.insert({m.sid.code, m.sid.sat});
  for (auto &m : v)
    if (!in.count({m.sid.code, m.sid.sat})) {
      m.raw_pseudorange = odd_value(c, m.raw_pseudorange);
      m.raw_measured_doppler = odd_value(c, m.raw_measured_doppler);
      m.sat_pos[0] = odd_value(c, m.sat_pos[0]);
      m.sat_clock_err = odd_value(c, 1);
      m.flags = (nav_meas_flags_t)(c.u32() & 0x7F);
      m.elevation = odd_value(c, 1);
      m.lock_time = odd_value(c, 1);
    }
  Res d = solve(v, s.tor, noraim, novel, st, k);
  same_bits(a, d, "others rewritten");
}
namespace {
struct Call { int code, sat; unsigned sigs, sats; int ns; };
std::vector<Call> g_calls;
std::vector<bool> g_answers;
bool recorder(gnss_signal_t sid, gnss_sid_set_t used, u8 ns) {
  g_calls.push_back({sid.code, sid.sat, sid_set_get_sig_count(&used), sid_set_get_sat_count(&used), ns});
  size_t i = g_calls.size() - 1;
  return i < g_answers.size() ? g_answers[i] : false;
}
}  // namespace
SUB(P47, predicate, 1, 2000, "a caller's own selection predicate with arbitrary answers: it is asked once per measurement in order, with the signals used so far and the number of unknowns so far, and exactly the measurements it accepts (and the mask passes) are used; non-trivial: mixed answers and a solution") {
  Opt q;
  q.min_extra = 3;
  Scene s = gen_scene(c, q);
  for (auto &m : s.m) m.raw_pseudorange += c.real(-2, 2);
  obs_mask_config_t k = gen_mask(c);
  k.cn0_mask.enable = c.chance(1, 4);
  g_calls.clear();
  g_answers.clear();
  for (size_t i = 0; i < s.m.size(); i++) g_answers.push_back(!c.chance(1, 4));
  std::vector<Call> want;
  std::vector<navigation_measurement_t> adm;
  SidSet sg, sv;
  std::set<int> cs;
  for (size_t i = 0; i < s.m.size(); i++) {
    auto &m = s.m[i];
    want.push_back({m.sid.code, m.sid.sat, (unsigned)sg.size(), (unsigned)sv.size(), 3 + (int)cs.size()});
    if (!g_answers[i] || (k.cn0_mask.enable && !(m.cn0 > k.cn0_mask.threshold_dbhz))) continue;
    adm.push_back(m);
    int cn = (int)sid_to_constellation(m.sid);
    sg.insert({m.sid.code, m.sid.sat}); sv.insert({cn, m.sid.sat}); cs.insert(cn);
  }
  bool noraim = c.coin(), novel = c.chance(1, 4);
  describe(c, s, s.m);
  quiet();
  Res r;
  memset(&r, 0x5A, sizeof r);
  sid_set_init(&r.rm);
  Buf b(s.m.size() * sizeof s.m[0]);
  memcpy(b.p, s.m.data(), s.m.size() * sizeof s.m[0]);
  r.ret = calc_PVT_pred((u8)s.m.size(), (const navigation_measurement_t *)b.p, &s.tor, noraim, novel, &k, recorder, &r.s, &r.d, &r.rm);
  std::vector<Call> calls = g_calls;
  CHECK(calls.size() == want.size(), "predicate called %zu times for %zu measurements", calls.size(), want.size());
  for (size_t i = 0; i < want.size(); i++)
    CHECK(calls[i].code == want[i].code && calls[i].sat == want[i].sat && calls[i].sigs == want[i].sigs && calls[i].sats == want[i].sats && calls[i].ns == want[i].ns,
          "call %zu: signal %d/%d with %u signals, %u satellites, %d unknowns; expected %d/%d, %u, %u, %d", i, calls[i].code, calls[i].sat, calls[i].sigs, calls[i].sats, calls[i].ns,
          want[i].code, want[i].sat, want[i].sigs, want[i].sats, want[i].ns);
  sane(r, adm, novel);
  Res o = solve(adm, s.tor, noraim, novel, ALL_CONSTELLATIONS, no_mask());
  same_bits(r, o, "accepted measurements alone");
  c.nontrivial(r.ret >= 0 && adm.size() < s.m.size());
}
