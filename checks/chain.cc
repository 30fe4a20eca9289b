// P54: from the broadcast bits of several constellations to the receiver's state.
#include "pbt.h"
#include "atmo_model.h"
#include "nav_encode.h"
#include "pvt_model.h"
#include <algorithm>
#include <set>
#include <string.h>
extern "C" {
#include <swiftnav/coord_system.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/logging.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/single_epoch_solver.h>
}
#include <swiftnav/decode_glo.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/signal.h>
#include <swiftnav/troposphere.h>
using namespace pbt;
using namespace nav_encode;
using atmo_model::Cl;
using atmo_model::LD;
using atmo_model::PIl;

namespace {
const LD PI_B = 3.1415926535898L;  // the value the interface documents prescribe
const LD WE = 7.2921151467e-5L;
const LD AE = 6378137.0L, FE = 1 / 298.257223563L, E2 = FE * (2 - FE);
enum { GPS, QZS, GAL, BDS, GLO, NCON };
const LD L1 = 1575.42e6L;

void mute(int, const char *, ...) {}
void mute2(int, const char *, const int, const char *, ...) {}
int g_chan[29];  // GLONASS channel -7..6 by slot
void setup(Case &c) {
  static bool once = false;
  if (!once) { once = true; logging_set_implementation(mute, mute2); }
  glo_map_init(nullptr, nullptr);
  int base = (int)c.draw(13);
  for (int s = 1; s <= 28; s++) {
    int f = 1 + (base + s * 5) % 14;
    g_chan[s] = f - 8;
    pvt_model::g_fcn[s] = f;
    glo_map_set_slot_id((u16)f, (u16)s);
  }
}

struct Sig { code_t code; LD hz, tgd; };
// what a satellite broadcasts (times relative to the true reception instant)
struct Sat {
  int con, sat;
  satellite_orbit_type_t orbit = MEO;
  LD sqrta, ecc, m0, dn, om0, inc, w, omd, idot, cuc, cus, crc, crs, cic, cis, toe_tow, toe, toc, af0, af1, af2, gm, we;
  LD gp[3], gv[3], ga[3], tau, gamma;  // GLONASS
  LD gy[6], gt;                         // its state integrated to the epoch
  std::vector<Sig> sig;
  ephemeris_t e;
  bool bad = false;
};
LD norm3(const LD *a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
void glo_rhs(const LD *y, const LD *acc, LD *d) {
  const LD mu = 3.986004418e14L, ae = 6378136.0L, J = 1.08262575e-3L, w = 7.292115e-5L;
  LD r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], r = sqrtl(r2), r3 = r2 * r, r5 = r3 * r2;
  LD z2 = y[2] * y[2] / r2, g = 1.5L * J * mu * ae * ae / r5;
  for (int i = 0; i < 3; i++) d[i] = y[3 + i];
  d[3] = -mu / r3 * y[0] - g * y[0] * (1 - 5 * z2) + w * w * y[0] + 2 * w * y[4] + acc[0];
  d[4] = -mu / r3 * y[1] - g * y[1] * (1 - 5 * z2) + w * w * y[1] - 2 * w * y[3] + acc[1];
  d[5] = -mu / r3 * y[2] - g * y[2] * (3 - 5 * z2) + acc[2];
}
void glo_step(LD *y, const LD *acc, LD h) {
  LD k1[6], k2[6], k3[6], k4[6], t[6];
  glo_rhs(y, acc, k1);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k1[i];
  glo_rhs(t, acc, k2);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k2[i];
  glo_rhs(t, acc, k3);
  for (int i = 0; i < 6; i++) t[i] = y[i] + h * k3[i];
  glo_rhs(t, acc, k4);
  for (int i = 0; i < 6; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
}
void glo_prepare(Sat &s) {
  for (int i = 0; i < 3; i++) { s.gy[i] = s.gp[i]; s.gy[3 + i] = s.gv[i]; }
  LD dt = -0.08L - s.toe;
  int n = (int)ceill(fabsl(dt) / 10) + 1;
  for (int i = 0; i < n; i++) glo_step(s.gy, s.ga, dt / n);
  s.gt = -0.08L;
}
// Earth-fixed position at system time t, and the relativistic part of the clock
void position(const Sat &s, LD t, LD *p, LD *rel) {
  *rel = 0;
  if (s.con == GLO) {
    LD y[6];
    memcpy(y, s.gy, sizeof y);
    glo_step(y, s.ga, t - s.gt);
    for (int i = 0; i < 3; i++) p[i] = y[i];
    return;
  }
  LD tk = t - s.toe, A = s.sqrta * s.sqrta, M = s.m0 + (sqrtl(s.gm / (A * A * A)) + s.dn) * tk, E = M;
  for (int i = 0; i < 12; i++) E -= (E - s.ecc * sinl(E) - M) / (1 - s.ecc * cosl(E));
  LD nu = atan2l(sqrtl(1 - s.ecc * s.ecc) * sinl(E), cosl(E) - s.ecc), phi = nu + s.w, s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  LD u = phi + s.cus * s2 + s.cuc * c2, r = A * (1 - s.ecc * cosl(E)) + s.crs * s2 + s.crc * c2, i = s.inc + s.idot * tk + s.cis * s2 + s.cic * c2;
  LD x = r * cosl(u), y = r * sinl(u);
  LD om = s.om0 + (s.orbit == GEO ? s.omd : s.omd - s.we) * tk - s.we * s.toe_tow;
  LD g[3] = {x * cosl(om) - y * cosl(i) * sinl(om), x * sinl(om) + y * cosl(i) * cosl(om), y * sinl(i)};
  LD ed = (sqrtl(s.gm / (A * A * A)) + s.dn) / (1 - s.ecc * cosl(E)), pd = sqrtl(1 - s.ecc * s.ecc) * ed / (1 - s.ecc * cosl(E));
  *rel = -2 * r * (A * s.ecc * sinl(E) * ed + 2 * pd * (s.crs * c2 - s.crc * s2)) / (Cl * Cl);
  if (s.orbit != GEO) { memcpy(p, g, sizeof g); return; }
  LD f = -5 * PIl / 180, a = s.we * tk;
  LD h[3] = {g[0], cosl(f) * g[1] + sinl(f) * g[2], -sinl(f) * g[1] + cosl(f) * g[2]};
  p[0] = cosl(a) * h[0] + sinl(a) * h[1];
  p[1] = -sinl(a) * h[0] + cosl(a) * h[1];
  p[2] = h[2];
}
// what the satellite's clock shows at system time t, for one of its signals
LD sat_clock(const Sat &s, const Sig &g, LD t, LD rel) {
  LD sv = t;
  for (int i = 0; i < 3; i++) {
    LD d = s.con == GLO ? sv - s.toe : sv - s.toc;
    LD clk = s.con == GLO ? -s.tau + s.gamma * d - g.tgd : s.af0 + d * (s.af1 + d * s.af2) - g.tgd + rel;
    sv = t + clk;
  }
  return sv;
}
struct Truth { LD pos[3], vel[3], b, drift, lat, lon, h, isb[NCON]; };
// pseudorange in seconds of a signal received at system time t
LD flight(const Sat &s, const Sig &g, const Truth &u, LD t, LD *p, LD *range) {
  LD rel, at[3], tau = 0.08L;
  for (int i = 0; i < 3; i++) at[i] = u.pos[i] + u.vel[i] * t;
  for (int k = 0; k < 5; k++) {
    position(s, t - tau, p, &rel);
    LD a = WE * tau, q[3] = {cosl(a) * p[0] + sinl(a) * p[1] - at[0], -sinl(a) * p[0] + cosl(a) * p[1] - at[1], p[2] - at[2]};
    tau = norm3(q) / Cl;
  }
  *range = tau * Cl;
  return t + u.b + u.drift * t + u.isb[s.con] - sat_clock(s, g, t - tau, rel);
}
LD flight(const Sat &s, const Sig &g, const Truth &u, LD t) { LD p[3], r; return flight(s, g, u, t, p, &r); }
void azel(const Truth &u, const LD *p, LD &az, LD &el) {
  LD d[3] = {p[0] - u.pos[0], p[1] - u.pos[1], p[2] - u.pos[2]};
  LD n = -sinl(u.lat) * cosl(u.lon) * d[0] - sinl(u.lat) * sinl(u.lon) * d[1] + cosl(u.lat) * d[2];
  LD e = -sinl(u.lon) * d[0] + cosl(u.lon) * d[1];
  LD up = cosl(u.lat) * cosl(u.lon) * d[0] + cosl(u.lat) * sinl(u.lon) * d[1] + sinl(u.lat) * d[2];
  az = atan2l(e, n);
  if (az < 0) az += 2 * PIl;
  el = atan2l(up, hypotl(n, e));
}
bool solve_sym(int n, LD a[8][8], LD x[8][8]) {  // inverse by Gauss-Jordan
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) x[i][j] = i == j;
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k; i < n; i++) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
    if (fabsl(a[p][k]) < 1e-12L) return false;
    for (int j = 0; j < n; j++) { std::swap(a[k][j], a[p][j]); std::swap(x[k][j], x[p][j]); }
    LD v = a[k][k];
    for (int j = 0; j < n; j++) { a[k][j] /= v; x[k][j] /= v; }
    for (int i = 0; i < n; i++) if (i != k) { LD q = a[i][k]; for (int j = 0; j < n; j++) { a[i][j] -= q * a[k][j]; x[i][j] -= q * x[k][j]; } }
  }
  return true;
}
struct Epoch { int wn; LD tow; };  // true reception instant
gps_time_t at(const Epoch &t, LD rel, LD *frac = nullptr) {
  LD x = t.tow + rel;
  int w = t.wn + (int)floorl(x / 604800);
  x -= 604800 * floorl(x / 604800);
  gps_time_t g;
  g.wn = (s16)w; g.tow = (double)x;
  if (frac) *frac = x;
  return g;
}
uint64_t tc(int64_t v, int n) { return (uint64_t)v & ((1ull << n) - 1); }

// -------------------------------------------------- one broadcast per system
// random orbit in broadcast units; shift != 0 moves the satellite elsewhere in its orbit
struct KepRaw {
  int64_t sqrta, ecc, m0, dn, om0, i0, w, omd, idot, cuc, cus, crc, crs, cic, cis, af0, af1, af2;
};
int64_t sym(Case &c, int64_t lim) { return c.range(-lim, lim); }
KepRaw gen_raw(Case &c, int con, satellite_orbit_type_t orbit) {
  KepRaw k;
  bool b = con == BDS;  // BeiDou harmonics have finer units
  double sa = con == GPS ? 5153.6 : con == GAL ? 5440.6 : con == BDS && orbit == MEO ? 5282.6 : 6493.4;
  k.sqrta = (int64_t)((sa + c.real(-1, 1)) * 524288);
  k.ecc = (int64_t)c.draw(con == QZS ? 0x26666666 : c.coin() ? 0xa3d70a3 : 0x100000);  // .075, .02 or nearly circular
  k.m0 = (int64_t)(int32_t)c.u32(); k.om0 = (int64_t)(int32_t)c.u32(); k.w = (int64_t)(int32_t)c.u32();
  double inc = orbit == GEO ? c.real(0, 0.1) : con == QZS ? c.real(0.68, 0.76) : c.real(0.9, 1.0);
  k.i0 = (int64_t)(inc / 3.1415926535898 * 2147483648.0);
  k.dn = sym(c, 15000); k.omd = sym(c, 30000); k.idot = sym(c, 1500);
  int64_t q = b ? 4 : 1;
  k.cuc = sym(c, 5000 * q); k.cus = sym(c, 8000 * q); k.cic = sym(c, 200 * q); k.cis = sym(c, 200 * q);
  k.crc = sym(c, 13000 * (b ? 2 : 1)); k.crs = sym(c, 5000 * (b ? 2 : 1));
  LD u0 = con == GAL ? ldexpl(1, -34) : b ? ldexpl(1, -33) : ldexpl(1, -31), u1 = con == GAL ? ldexpl(1, -46) : b ? ldexpl(1, -50) : ldexpl(1, -43);
  LD rate = c.coin() ? 1e-11L : 1e-9L;
  k.af0 = (int64_t)((LD)c.real(-9.7e-4, 9.7e-4) / u0);
  k.af1 = (int64_t)((LD)c.real(-1, 1) * rate / u1);
  k.af2 = con == GAL ? sym(c, 3) : c.coin() ? 0 : sym(c, b ? 8 : 2);
  return k;
}
void to_sat(const KepRaw &k, Sat &s) {
  bool b = s.con == BDS;
  LD h = ldexpl(1, b ? -31 : -29), r = ldexpl(1, b ? -6 : -5);
  s.sqrta = ldexpl((LD)k.sqrta, -19); s.ecc = ldexpl((LD)k.ecc, -33);
  s.m0 = ldexpl((LD)k.m0, -31) * PI_B; s.om0 = ldexpl((LD)k.om0, -31) * PI_B; s.w = ldexpl((LD)k.w, -31) * PI_B; s.inc = ldexpl((LD)k.i0, -31) * PI_B;
  s.dn = ldexpl((LD)k.dn, -43) * PI_B; s.omd = ldexpl((LD)k.omd, -43) * PI_B; s.idot = ldexpl((LD)k.idot, -43) * PI_B;
  s.cuc = k.cuc * h; s.cus = k.cus * h; s.cic = k.cic * h; s.cis = k.cis * h; s.crc = k.crc * r; s.crs = k.crs * r;
  s.af0 = ldexpl((LD)k.af0, s.con == GAL ? -34 : b ? -33 : -31);
  s.af1 = ldexpl((LD)k.af1, s.con == GAL ? -46 : b ? -50 : -43);
  s.af2 = ldexpl((LD)k.af2, s.con == GAL ? -59 : b ? -66 : -55);
  s.gm = s.con == GPS || s.con == QZS ? 3.986005e14L : 3.986004418e14L;
  s.we = b ? 7.2921150e-5L : 7.2921151467e-5L;
}
// places the satellite where the receiver sees it well
bool make_visible(KepRaw &k, Sat &s, const Truth &u, LD want) {
  for (int i = 0; i < 60; i++) {
    to_sat(k, s);
    LD p[3], rel, az, el;
    position(s, -0.08L, p, &rel);
    azel(u, p, az, el);
    if (el > want) return true;
    k.m0 = (int64_t)(int32_t)(uint32_t)(k.m0 + 2654435769LL);
    k.om0 = (int64_t)(int32_t)(uint32_t)(k.om0 + 1779033703LL);
  }
  return false;
}
// broadcast reference time: the multiple of step of the system's week nearest to (reception + rel), as seconds of the week
struct Ref { int wn; int64_t n; LD rel; };
Ref ref_time(const Epoch &t, LD rel, int step, LD sys) {  // sys: GPS minus system time
  LD a = t.tow - sys + rel;
  int64_t q = (int64_t)floorl((LD)t.wn * (604800 / step) + floorl(a / step));
  Ref r;
  int64_t per = 604800 / step;
  r.wn = (int)(q / per);
  r.n = q % per;
  r.rel = (LD)(r.wn - t.wn) * 604800 + (LD)r.n * step + sys - t.tow;
  return r;
}

bool gen_gps(Case &c, const Epoch &t, const Truth &u, Sat &s) {
  KepRaw k = gen_raw(c, s.con, IGSO);
  int flag = c.chance(1, 4), iodc = (int)c.bits(10);
  LD half = flag ? 10800 : 7200;
  Ref toe = ref_time(t, (LD)c.real(-1, 1) * (half - 200), 16, 0), toc = toe;
  if (c.coin()) toc = ref_time(t, toe.rel + 16 * (LD)c.range(-220, 220), 16, 0);
  s.toe = toe.rel; s.toe_tow = (LD)toe.n * 16; s.toc = toc.rel;
  if (!make_visible(k, s, u, c.real(0.15, 1.2))) return false;
  int64_t tgd = sym(c, 127);
  s.sig = {{s.con == GPS ? CODE_GPS_L1CA : CODE_QZS_L1CA, L1, ldexpl((LD)tgd, -31)}};
  if (c.chance(1, 3)) s.sig.push_back({s.con == GPS ? CODE_GPS_L2CM : CODE_QZS_L2CM, 1227.60e6L, ldexpl((LD)tgd, -31) * (77.0L / 60) * (77.0L / 60)});
  Words W(c);
  gps_time_t sent = at(t, -(LD)c.real(1, 3000));
  double tot = floor(sent.tow / 6) * 6;
  W.put(1, 3, 1, 10, (uint64_t)(sent.wn % 1024)); W.put(1, 3, 13, 4, c.draw(3)); W.put(1, 3, 17, 6, s.bad ? 0x3f : 0); W.put(1, 3, 23, 2, (uint64_t)iodc >> 8);
  W.put(1, 7, 17, 8, tc(tgd, 8)); W.put(1, 8, 1, 8, (uint64_t)iodc & 255); W.put(1, 8, 9, 16, (uint64_t)toc.n);
  W.put(1, 9, 1, 8, tc(k.af2, 8)); W.put(1, 9, 9, 16, tc(k.af1, 16)); W.put(1, 10, 1, 22, tc(k.af0, 22));
  W.put(2, 3, 1, 8, (uint64_t)iodc & 255); W.put(2, 3, 9, 16, tc(k.crs, 16)); W.put(2, 4, 1, 16, tc(k.dn, 16)); W.put32(2, 4, tc(k.m0, 32));
  W.put(2, 6, 1, 16, tc(k.cuc, 16)); W.put32(2, 6, tc(k.ecc, 32)); W.put(2, 8, 1, 16, tc(k.cus, 16)); W.put32(2, 8, tc(k.sqrta, 32));
  W.put(2, 10, 1, 16, (uint64_t)toe.n); W.put(2, 10, 17, 1, (uint64_t)flag);
  W.put(3, 3, 1, 16, tc(k.cic, 16)); W.put32(3, 3, tc(k.om0, 32)); W.put(3, 5, 1, 16, tc(k.cis, 16)); W.put32(3, 5, tc(k.i0, 32)); W.put(3, 7, 1, 16, tc(k.crc, 16));
  W.put32(3, 7, tc(k.w, 32)); W.put(3, 9, 1, 24, tc(k.omd, 24)); W.put(3, 10, 1, 8, (uint64_t)iodc & 255); W.put(3, 10, 9, 14, tc(k.idot, 14));
  s.e.sid.code = s.sig[0].code; s.e.sid.sat = (u16)s.sat;
  decode_ephemeris_with_wn_ref(W.w, &s.e, tot, (u16)(sent.wn - (int)c.draw(1000)));
  return true;
}
bool gen_gal(Case &c, const Epoch &t, const Truth &u, Sat &s) {
  KepRaw k = gen_raw(c, GAL, MEO);
  Ref toe = ref_time(t, -(LD)c.real(70, 14200), 60, 0), toc = toe;
  if (c.coin()) toc = ref_time(t, toe.rel + 60 * (LD)c.range(1, 20), 60, 0);
  s.toe = toe.rel; s.toe_tow = (LD)toe.n * 60; s.toc = toc.rel;
  if (!make_visible(k, s, u, c.real(0.15, 1.2))) return false;
  int64_t bga = sym(c, 511), bgb = sym(c, 511);
  s.sig = {{CODE_GAL_E1B, L1, ldexpl((LD)bgb, -32)}};
  if (c.chance(1, 3)) {
    if (c.coin()) s.sig.push_back({CODE_GAL_E7I, 1207.14e6L, ldexpl((LD)bgb, -32) * (77.0L / 59) * (77.0L / 59)});
    else s.sig.push_back({CODE_GAL_E5I, 1176.45e6L, ldexpl((LD)bga, -32) * (154.0L / 115) * (154.0L / 115)});
  }
  Page P;
  c.fill(P.b, sizeof P.b);
  uint64_t iod = c.bits(10);
  gps_time_t sent = at(t, -(LD)c.real(1, 600));
  for (int i = 1; i <= 4; i++) P.put(i, 6, 10, iod);
  P.put(1, 16, 14, (uint64_t)toe.n); P.put(1, 30, 32, tc(k.m0, 32)); P.put(1, 62, 32, tc(k.ecc, 32)); P.put(1, 94, 32, tc(k.sqrta, 32));
  P.put(2, 16, 32, tc(k.om0, 32)); P.put(2, 48, 32, tc(k.i0, 32)); P.put(2, 80, 32, tc(k.w, 32)); P.put(2, 112, 14, tc(k.idot, 14));
  P.put(3, 16, 24, tc(k.omd, 24)); P.put(3, 40, 16, tc(k.dn, 16)); P.put(3, 56, 16, tc(k.cuc, 16)); P.put(3, 72, 16, tc(k.cus, 16)); P.put(3, 88, 16, tc(k.crc, 16));
  P.put(3, 104, 16, tc(k.crs, 16)); P.put(3, 120, 8, 100 + c.draw(20));
  P.put(4, 16, 6, (uint64_t)s.sat); P.put(4, 22, 16, tc(k.cic, 16)); P.put(4, 38, 16, tc(k.cis, 16)); P.put(4, 54, 14, (uint64_t)toc.n); P.put(4, 68, 31, tc(k.af0, 31));
  P.put(4, 99, 21, tc(k.af1, 21)); P.put(4, 120, 6, tc(k.af2, 6));
  P.put(5, 47, 10, tc(bga, 10)); P.put(5, 57, 10, tc(bgb, 10)); P.put(5, 67, 2, s.bad ? 1 : 0); P.put(5, 69, 2, s.bad ? 1 : 0);
  P.put(5, 73, 12, (uint64_t)(sent.wn - 1024)); P.put(5, 85, 20, (uint64_t)sent.tow);
  s.e.sid.code = CODE_GAL_E1B; s.e.sid.sat = (u16)s.sat;
  CHECK(decode_gal_ephemeris_safe(P.b, &s.e), "Galileo pages rejected");
  return true;
}
bool gen_bds(Case &c, const Epoch &t, const Truth &u, Sat &s) {
  s.orbit = c.pick({MEO, MEO, IGSO, GEO});
  KepRaw k = gen_raw(c, BDS, s.orbit);
  Ref toe = ref_time(t, -(LD)c.real(30, 10700), 8, 14), toc = toe;
  if (c.coin()) toc = ref_time(t, toe.rel + 8 * (LD)c.range(1, 200), 8, 14);
  if (toc.wn != toe.wn) toc = toe;  // one week number for both
  s.toe = toe.rel; s.toe_tow = (LD)toe.n * 8; s.toc = toc.rel;
  if (!make_visible(k, s, u, c.real(0.15, s.orbit == GEO ? 0.2 : 1.2))) return false;
  int64_t t1 = sym(c, 511), t2 = sym(c, 511);
  s.sig = {{CODE_BDS2_B1, 1561.098e6L, t1 * 1e-10L}};
  if (c.chance(1, 3)) s.sig.push_back({CODE_BDS2_B2, 1207.14e6L, t2 * 1e-10L});
  D1 d[3];
  for (auto &x : d) x.start(c);
  d[0].add(c.bits(12), 12); d[0].add(s.bad, 1); d[0].add(c.bits(5), 5); d[0].add(c.draw(3), 4); d[0].add((uint64_t)(toe.wn - 1356), 13); d[0].add((uint64_t)toc.n, 17);
  d[0].add(tc(t1, 10), 10); d[0].add(tc(t2, 10), 10); d[0].add(c.bits(64), 64); d[0].add(tc(k.af2, 11), 11); d[0].add(tc(k.af0, 24), 24); d[0].add(tc(k.af1, 22), 22); d[0].add(c.bits(5), 5);
  d[1].add(c.bits(12), 12); d[1].add(tc(k.dn, 16), 16); d[1].add(tc(k.cuc, 18), 18); d[1].add(tc(k.m0, 32), 32); d[1].add(tc(k.ecc, 32), 32); d[1].add(tc(k.cus, 18), 18);
  d[1].add(tc(k.crc, 18), 18); d[1].add(tc(k.crs, 18), 18); d[1].add(tc(k.sqrta, 32), 32); d[1].add((uint64_t)toe.n >> 15, 2);
  d[2].add(c.bits(12), 12); d[2].add((uint64_t)toe.n & 32767, 15); d[2].add(tc(k.i0, 32), 32); d[2].add(tc(k.cic, 18), 18); d[2].add(tc(k.omd, 24), 24); d[2].add(tc(k.cis, 18), 18);
  d[2].add(tc(k.idot, 14), 14); d[2].add(tc(k.om0, 32), 32); d[2].add(tc(k.w, 32), 32);
  u32 w[3][10];
  for (int i = 0; i < 3; i++) memcpy(w[i], d[i].w, sizeof w[i]);
  gnss_signal_t sid;
  sid.code = CODE_BDS2_B1; sid.sat = (u16)s.sat;
  decode_bds_d1_ephemeris(w, sid, &s.e);
  // the decoder leaves BeiDou seconds of the week, and validity to the caller
  for (gps_time_t *x : {&s.e.toe, &s.e.data.kepler.toc}) { x->tow += BDS_SECOND_TO_GPS_SECOND; normalize_gps_time(x); }
  s.e.fit_interval = 10800;
  s.e.valid = 1;
  return true;
}
bool gen_glo(Case &c, const Epoch &t, const Truth &u, Sat &s) {
  const int P1MIN[4] = {0, 30, 45, 60};
  int p1 = (int)c.draw(3);
  LD half = p1 ? P1MIN[p1] * 30 + 300 : 2100, abs0 = (LD)t.wn * 604800 + t.tow;
  // Moscow day and interval
  int64_t msk = (int64_t)(abs0 + (LD)c.real(-1, 1) * (half - 500)) - 18 + 10800;
  int64_t day = msk / 86400;
  int tb = (int)std::min<int64_t>(95, std::max<int64_t>(1, msk % 86400 / 900));
  int n4 = 1, nt = 0;
  while (civil_days(1996 + 4 * n4, 1, 1) <= day) n4++;
  nt = (int)(day - civil_days(1996 + 4 * (n4 - 1), 1, 1)) + 1;
  if (n4 > 26) return false;
  s.toe = (LD)glo_gps(n4, nt, tb * 900) - abs0;
  if (fabsl(s.toe) > half - 2) return false;
  LD r = 25508e3L + (LD)c.real(-3e4, 3e4), a = (LD)c.real(0, 6.28), om = (LD)c.real(0, 6.28), inc = 1.13L + (LD)c.real(-0.02, 0.02), v = sqrtl(3.986004418e14L / r), want = (LD)c.real(0.15, 1.2);
  LD rad = (LD)c.real(-1e-3, 1e-3);
  int64_t P[3], V[3], A[3];
  for (int i = 0; i < 3; i++) A[i] = sym(c, 6);
  bool seen = false;
  for (int k = 0; k < 60 && !seen; k++, a += 2.4L, om += 1.3L) {
    LD X[3] = {cosl(om) * cosl(a) - sinl(om) * sinl(a) * cosl(inc), sinl(om) * cosl(a) + cosl(om) * sinl(a) * cosl(inc), sinl(a) * sinl(inc)};
    LD Y[3] = {-cosl(om) * sinl(a) - sinl(om) * cosl(a) * cosl(inc), -sinl(om) * sinl(a) + cosl(om) * cosl(a) * cosl(inc), cosl(a) * sinl(inc)};
    LD W = 7.292115e-5L, p[3], q[3];
    for (int i = 0; i < 3; i++) { p[i] = r * X[i]; q[i] = v * Y[i] + v * rad * X[i]; }
    q[0] += W * p[1]; q[1] -= W * p[0];
    for (int i = 0; i < 3; i++) {
      P[i] = llroundl(p[i] / 1000 * 2048); V[i] = llroundl(q[i] / 1000 * 1048576);
      s.gp[i] = P[i] * 1000 / 2048.0L; s.gv[i] = V[i] * 1000 / 1048576.0L; s.ga[i] = ldexpl((LD)A[i], -30) * 1000;
    }
    glo_prepare(s);
    LD az, el;
    azel(u, s.gy, az, el);
    seen = el > want;
  }
  if (!seen) return false;
  int64_t tau = (int64_t)((LD)c.real(-1, 1) * 9e-4L * 1073741824.0L), gam = sym(c, c.coin() ? 10 : 1000), dtau = sym(c, 15);
  s.tau = ldexpl((LD)tau, -30); s.gamma = ldexpl((LD)gam, -40);
  s.sig = {{CODE_GLO_L1OF, 1602e6L + g_chan[s.sat] * 562500.0L, 0}};
  if (c.chance(1, 3)) s.sig.push_back({CODE_GLO_L2OF, 1246e6L + g_chan[s.sat] * 437500.0L, ldexpl((LD)dtau, -30)});
  Str g[5];
  for (int i = 0; i < 5; i++) {
    for (int b = 9; b <= 84; b += 11) g[i].put(b, std::min(11, 85 - b), c.bits((unsigned)std::min(11, 85 - b)));
    g[i].set(85, false);
    g[i].put(81, 4, (uint64_t)i + 1);
  }
  for (int i = 0; i < 3; i++) { g[i].put_sm(9, 27, P[i]); g[i].put_sm(41, 24, V[i]); g[i].put_sm(36, 5, A[i]); }
  g[0].put(72, 5, c.draw(23)); g[0].put(66, 6, c.draw(59)); g[0].put(77, 2, (uint64_t)p1);
  g[1].put(78, 3, s.bad ? 4 : 0); g[1].put(70, 7, (uint64_t)tb);
  g[2].put_sm(69, 11, gam); g[2].put(65, 1, s.bad);
  g[3].put_sm(59, 22, tau); g[3].put_sm(54, 5, dtau); g[3].put(49, 5, c.draw(31)); g[3].put(30, 4, c.draw(6)); g[3].put(16, 11, (uint64_t)nt); g[3].put(11, 5, (uint64_t)s.sat); g[3].put(9, 2, c.draw(3));
  g[4].put(32, 5, (uint64_t)n4); g[4].put_sm(10, 22, sym(c, 1000));
  glo_string_t in[5];
  for (int i = 0; i < 5; i++) { g[i].seal(); in[i] = g[i].s; }
  gnss_signal_t sid;
  sid.code = CODE_GLO_L1OF; sid.sat = (u16)s.sat;
  decode_glo_ephemeris(in, sid, nullptr, &s.e);
  return true;
}
const char *CN[NCON] = {"GPS", "QZSS", "Galileo", "BeiDou", "GLONASS"};
}  // namespace

SUB(P54, chain, 1, 300, "receiver anywhere (poles, date line) and moving, any reception time from 2006 to 2056 (week ends and day ends preferred), one to five constellations with orbits and clocks random over their realistic broadcast range, one or two frequencies, reference times anywhere in the validity window, Klobuchar page random, sometimes one satellite broadcast as unhealthy with a ruined range: bits encoded from the interface documents, measurements synthesised by exact light-time geometry, then decoder, state, group delay, atmosphere and solver used as a receiver would; position, velocity, time and the set of used signals against the truth; skipped when GDOP exceeds 6; non-trivial: two or more constellations or frequencies") {
  setup(c);
  Truth u;
  u.lat = (LD)(c.coin() ? c.real(-90, 90) : c.pick({0.0, 89.999, -89.999, 45.0, -33.0})) * PIl / 180;
  u.lon = (LD)(c.coin() ? c.real(-180, 180) : c.pick({0.0, 180.0, -179.9999, 90.0})) * PIl / 180;
  u.h = (LD)c.real(-300, 9000);
  LD N = AE / sqrtl(1 - E2 * sinl(u.lat) * sinl(u.lat));
  u.pos[0] = (N + u.h) * cosl(u.lat) * cosl(u.lon); u.pos[1] = (N + u.h) * cosl(u.lat) * sinl(u.lon); u.pos[2] = (N * (1 - E2) + u.h) * sinl(u.lat);
  LD sp = c.coin() ? (LD)c.real(0, 280) : 0;
  for (LD &x : u.vel) x = sp * (LD)c.real(-1, 1);
  u.b = c.coin() ? (LD)c.real(-1e-6, 1e-6) : (LD)c.real(-2e-3, 2e-3);
  u.drift = (LD)c.real(-1e-6, 1e-6);
  for (LD &x : u.isb) x = (LD)c.real(-5e-8, 5e-8);
  gps_time_t tm;
  tm.wn = (s16)c.range(1400, 4000);
  switch (c.draw(3)) {
    case 0: tm.tow = c.real(1, 604799); break;
    case 1: tm.tow = c.coin() ? c.real(0.01, 9000) : 604800 - c.real(0.01, 9000); break;
    case 2: tm.tow = (double)c.range(1, 6) * 86400 + c.real(-2000, 2000); break;
    default: tm.tow = (double)c.range(1, 40319) * 15; break;
  }
  Epoch ep{tm.wn, (LD)tm.tow - u.b};  // true instant of reception
  // constellations and satellites
  std::vector<int> cons = {GPS, GAL, BDS, GLO, QZS};
  c.shuffle(cons);
  int k = 1 + (int)c.draw(4);
  cons.resize((size_t)k);
  if (k == 1 && cons[0] == QZS) cons[0] = GPS;
  int n = 3 + k + (int)c.range(2, 9);
  std::vector<Sat> sv;
  std::set<std::pair<int, int>> taken;
  int victim = c.chance(1, 3) ? (int)c.draw((uint64_t)n - 1) : -1;
  for (int i = 0; i < n; i++) {
    Sat s;
    s.con = i < k ? cons[(size_t)i] : cons[c.draw((uint64_t)k - 1)];
    const int lo[NCON] = {1, 193, 1, 1, 1}, cnt[NCON] = {32, 10, 36, 63, 24};
    s.sat = lo[s.con] + (int)c.draw((uint64_t)cnt[s.con] - 1);
    if (std::count_if(taken.begin(), taken.end(), [&](const std::pair<int, int> &x) { return x.first == s.con; }) == cnt[s.con]) continue;
    while (taken.count({s.con, s.sat})) s.sat = lo[s.con] + (s.sat - lo[s.con] + 1) % cnt[s.con];
    s.bad = i == victim;
    memset(&s.e, 0, sizeof s.e);
    bool ok = s.con == GAL ? gen_gal(c, ep, u, s) : s.con == BDS ? gen_bds(c, ep, u, s) : s.con == GLO ? gen_glo(c, ep, u, s) : gen_gps(c, ep, u, s);
    if (!ok) continue;
    taken.insert({s.con, s.sat});
    sv.push_back(s);
  }
  // ionosphere page
  int al[8];
  al[0] = (int)c.range(0, 60); al[1] = (int)c.range(-8, 8); al[2] = (int)c.range(-2, 2); al[3] = (int)c.range(-2, 2);
  al[4] = (int)c.range(35, 80); al[5] = (int)c.range(-8, 8); al[6] = (int)c.range(-4, 4); al[7] = (int)c.range(-4, 4);
  u32 page[8];
  for (u32 &x : page) x = c.u32();
  auto put = [&](int word, int first, int len, u32 v) {
    u32 m = ((1u << len) - 1) << (30 - (first + len - 1));
    page[word - 3] = (page[word - 3] & ~m) | ((v << (30 - (first + len - 1))) & m);
  };
  put(3, 1, 2, 1); put(3, 3, 6, 56);
  const int pw[8] = {3, 3, 4, 4, 4, 5, 5, 5}, pb[8] = {9, 17, 1, 9, 17, 1, 9, 17};
  for (int i = 0; i < 8; i++) put(pw[i], pb[i], 8, (u32)al[i] & 255);
  ionosphere_t it, io;
  memset(&it, 0, sizeof it);
  it.a0 = al[0] * 0x1p-30; it.a1 = al[1] * 0x1p-27; it.a2 = al[2] * 0x1p-24; it.a3 = al[3] * 0x1p-24;
  it.b0 = al[4] * 0x1p11; it.b1 = al[5] * 0x1p14; it.b2 = al[6] * 0x1p16; it.b3 = al[7] * 0x1p16;
  memset(&io, 0x5a, sizeof io);
  CHECK(decode_iono_parameters(page, &io), "ionosphere page rejected");
  // day of the year; the air models change a little at midnight
  LD dsec = fmodl(ep.tow, 86400);
  int64_t day = (int64_t)ep.wn * 7 + (int64_t)floorl(ep.tow / 86400);
  int year = 1980;
  while (civil_days(year + 1, 1, 1) <= day) year++;
  int doy = (int)(day - civil_days(year, 1, 1)) + 1;
  bool air = dsec > 40 && dsec < 86360 && cosl(u.lat) > 1e-3L && c.chance(3, 4);

  // measurements
  struct Meas { size_t s; int g; LD az, el; };
  std::vector<navigation_measurement_t> raw;
  std::vector<Meas> who;
  std::string text;
  for (size_t i = 0; i < sv.size(); i++) {
    const Sat &s = sv[i];
    LD p[3], rel, az, el;
    position(s, -0.075L, p, &rel);
    azel(u, p, az, el);
    LD delay = 0;
    for (size_t g = 0; g < s.sig.size(); g++) {
      const Sig &q = s.sig[g];
      if (air) {
        LD x, F, loc;
        delay = atmo_model::klobuchar(ep.tow, u.lat / PIl, u.lon / PIl, az / PIl, el / PIl, it, x, F, loc);
        if (fabsl(fabsl(x) - 1.57L) < 1e-4L) air = false;  // the published formula steps here
        delay = delay * (L1 / q.hz) * (L1 / q.hz) + atmo_model::unb3m(doy, u.lat * 180 / PIl, u.h, el * 180 / PIl);
      }
      navigation_measurement_t m;
      memset(&m, 0, sizeof m);
      m.sid.code = q.code; m.sid.sat = (u16)s.sat;
      m.raw_pseudorange = (double)(flight(s, q, u, 0) * Cl + delay);
      LD d1 = (flight(s, q, u, 0.1L) - flight(s, q, u, -0.1L)) / 0.2L;  // pseudorange rate / c
      m.raw_measured_doppler = (double)(-d1 * q.hz);
      m.cn0 = c.real(38, 52);
      m.lock_time = 60;
      m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID | NAV_MEAS_FLAG_PHASE_VALID;
      if (s.bad) m.raw_pseudorange += 20000;
      raw.push_back(m);
      who.push_back({i, (int)g, az, el});
      char b[80];
      snprintf(b, sizeof b, " %s %d%s code %d el %.1Lf;", CN[s.con], s.sat, s.bad ? " (unhealthy)" : "", q.code, el * 180 / PIl);
      text += b;
    }
  }
  c.note("week %d tow %.3f lat %.4Lf lon %.4Lf h %.0Lf offset %.3Lg s%s:%s", tm.wn, tm.tow, u.lat * 180 / PIl, u.lon * 180 / PIl, u.h, u.b, air ? " with atmosphere" : "", text.c_str());
  if (!air)  // a step was met halfway through
    for (size_t i = 0; i < raw.size(); i++) raw[i].raw_pseudorange = (double)(flight(sv[who[i].s], sv[who[i].s].sig[(size_t)who[i].g], u, 0) * Cl) + (sv[who[i].s].bad ? 20000 : 0);

  // ---- the receiver's side: nothing but decoded ephemerides, raw measurements and its clock
  std::vector<navigation_measurement_t> use;
  std::vector<Meas> uw;
  for (size_t i = 0; i < raw.size(); i++) {
    navigation_measurement_t m = raw[i];
    const Sat &s = sv[who[i].s];
    m.tot = tm;
    m.tot.tow -= m.raw_pseudorange / GPS_C;
    normalize_gps_time(&m.tot);
    bool usable = ephemeris_valid(&s.e, &m.tot) && ephemeris_healthy(&s.e, m.sid.code);
    CHECK(usable == !s.bad, "%s %d broadcast %s is judged %s (reference %d/%.0f, clock %d/%.0f, broadcast %.3Lf %.3Lf s from reception, status %d)", CN[s.con], s.sat, s.bad ? "unhealthy" : "healthy", usable ? "usable" : "unusable", s.e.toe.wn, s.e.toe.tow, s.con == GLO ? 0 : s.e.data.kepler.toc.wn, s.con == GLO ? 0.0 : s.e.data.kepler.toc.tow, s.toe, s.toc, ephemeris_valid_detailed(&s.e, &m.tot)); 
    if (!usable) continue;
    s8 r = calc_sat_state_orbit_type(&s.e, &m.tot, s.orbit, m.sat_pos, m.sat_vel, m.sat_acc, &m.sat_clock_err, &m.sat_clock_err_rate);
    CHECK(r == 0, "%s %d: no state", CN[s.con], s.sat);
    if (m.sid.code != s.e.sid.code) {
      float g1, g2;
      CHECK(get_tgd_correction(&s.e, &s.e.sid, &g1) == 0 && get_tgd_correction(&s.e, &m.sid, &g2) == 0, "%s code %d: no group delay", CN[s.con], m.sid.code);
      m.sat_clock_err += (double)g1 - (double)g2;
    }
    use.push_back(m);
    uw.push_back(who[i]);
  }
  // geometry at the truth
  int cmap[NCON], ns = 3;
  std::fill(cmap, cmap + NCON, -1);
  std::set<std::pair<int, int>> sats;
  for (auto &w : uw) { const Sat &s = sv[w.s]; if (cmap[s.con] < 0) cmap[s.con] = ns++; sats.insert({s.con, s.sat}); }
  if (uw.size() < 4 || (int)sats.size() < ns) { c.label("too few satellites"); return; }
  LD H[8][8] = {}, X[8][8], g2 = 0;
  for (size_t i = 0; i < uw.size(); i++) {
    LD p[3], r[8] = {};
    for (int a = 0; a < 3; a++) p[a] = use[i].sat_pos[a] - u.pos[a];
    LD d = norm3(p);
    for (int a = 0; a < 3; a++) r[a] = -p[a] / d;
    r[cmap[sv[uw[i].s].con]] = 1;
    for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) H[a][b] += r[a] * r[b];
  }
  if (!solve_sym(ns, H, X)) { c.label("singular geometry"); return; }
  for (int i = 0; i < ns; i++) g2 += X[i][i];
  LD gdop = sqrtl(g2);
  if (gdop > 6) { c.label("GDOP above 6"); return; }
  c.nontrivial(ns > 4 || sats.size() < uw.size());
  c.label(ns == 4 ? "one constellation" : ns == 5 ? "two constellations" : "more constellations");
  gnss_solution sol;
  dops_t dops;
  gnss_sid_set_t rm;
  obs_mask_config_t mask;
  memset(&mask, 0, sizeof mask);
  double rx[3] = {0, 0, 0};
  s8 ret = 0;
  gps_time_t trx = tm;
  for (int pass = 0; pass < (air ? 5 : 2); pass++) {
    std::vector<navigation_measurement_t> v = use;
    for (size_t i = 0; i < v.size(); i++) {
      const Sat &s = sv[uw[i].s];
      v[i].elevation = 45;
      if (!pass) continue;
      double az, el, llh[3];
      CHECK(calc_sat_az_el(&s.e, &v[i].tot, rx, s.orbit, &az, &el, true) == 0, "%s %d: no look angle", CN[s.con], s.sat);
      v[i].elevation = el * 180 / M_PI;
      if (air) {
        wgsecef2llh(rx, llh);
        double f1 = (double)L1 / sid_to_carr_freq(v[i].sid);
        v[i].raw_pseudorange -= calc_ionosphere(&trx, llh[0], llh[1], az, el, &io) * f1 * f1 + calc_troposphere(gps2doy(&trx), llh[0], llh[2], el);
      }
      if (pass == 4 || !air) {
        LD de = fabsl(el - uw[i].el), da = fabsl(remainderl(az - uw[i].az, 2 * PIl)) * cosl(uw[i].el);
        LD pole = AE * cosl(u.lat);  // the direction of north is undetermined at the poles
        CHECK(de < 1e-4L && (da < 1e-4L + 1 / pole || pole < 10), "%s %d seen at %.6f %.6f rad, expected %.6Lf %.6Lf", CN[s.con], s.sat, az, el, uw[i].az, uw[i].el);
      }
    }
    sid_set_init(&rm);
    memset(&sol, 0x5a, sizeof sol);
    if (!pass) {  // from the Earth's centre the iteration can end in another minimum of the residuals
      std::vector<pvt_model::M> ms;
      for (size_t i = 0; i < v.size(); i++) {
        const Sat &s = sv[uw[i].s];
        pvt_model::M m = pvt_model::to_ref(v[i], (int)i);
        flight(s, s.sig[(size_t)uw[i].g], u, 0, m.pos, &m.pr);  // true geometry
        m.pr += (u.b + u.isb[s.con]) * Cl;
        ms.push_back(m);
      }
      int cm[pvt_model::NC], nn = 3;
      std::fill(cm, cm + pvt_model::NC, -1);
      for (auto &m : ms) if (cm[m.cons] < 0) cm[m.cons] = nn++;
      pvt_model::Sol o;
      bool amb = false;
      int r = pvt_model::ref_iter(ms, cm, nn, true, o, amb);
      LD off[3];
      for (int i = 0; i < 3; i++) off[i] = o.x[i] - u.pos[i];
      if (r || amb || o.iters > 8 || norm3(off) > 10000) { c.label("converges elsewhere"); return; }
    }
    ret = calc_PVT((u8)v.size(), v.data(), &tm, pass < (air ? 4 : 1), false, &mask, ALL_CONSTELLATIONS, &sol, &dops, &rm);
    CHECK(ret >= 0, "pass %d: no position (%d), GDOP %.2Lf", pass, ret, gdop);
    memcpy(rx, sol.pos_ecef, sizeof rx);
    trx = sol.time;
  }
  int want = (int)uw.size() > ns ? 0 : 2;
  CHECK(ret == want, "returned %d, expected %d (GDOP %.2Lf)", ret, want, gdop);
  CHECK(sol.valid && sol.velocity_valid && sol.n_sigs_used == uw.size() && sol.n_sats_used == sats.size(), "used %d signals of %d satellites, not %zu of %zu", sol.n_sigs_used, sol.n_sats_used, uw.size(), sats.size());
  // variances of the noise model differ by at most 8 / 0.4 between systems and a little with carrier-to-noise ratio and elevation
  LD gain = gdop * 5, tol = (air ? 3e-3L : 1.5e-3L) * gain, vt = 3e-3L * gain;
  LD e = 0, ev = 0;
  for (int i = 0; i < 3; i++) { e = fmaxl(e, fabsl(sol.pos_ecef[i] - u.pos[i])); ev = fmaxl(ev, fabsl(sol.vel_ecef[i] - u.vel[i])); }
  LD b0 = u.b + u.isb[sv[uw[0].s].con], dt = (LD)(sol.time.wn - ep.wn) * 604800 + (sol.time.tow - ep.tow) + u.isb[sv[uw[0].s].con];
  CHECK(e <= tol, "position off by %.4Lf m (%.4f %.4f %.4f, truth %.4Lf %.4Lf %.4Lf), GDOP %.2Lf", e, sol.pos_ecef[0], sol.pos_ecef[1], sol.pos_ecef[2], u.pos[0], u.pos[1], u.pos[2], gdop);
  CHECK(fabsl(sol.clock_offset - b0) * Cl <= tol, "clock offset %.12f s, truth %.12Lf s", sol.clock_offset, b0);
  CHECK(fabsl(dt) <= 1e-9L + tol / Cl, "solution time off by %.3Lg s", dt);
  CHECK(ev <= vt, "velocity off by %.4Lf m/s (%.4f %.4f %.4f, truth %.4Lf %.4Lf %.4Lf), GDOP %.2Lf", ev, sol.vel_ecef[0], sol.vel_ecef[1], sol.vel_ecef[2], u.vel[0], u.vel[1], u.vel[2], gdop);
  CHECK(fabsl(sol.clock_drift - u.drift) * Cl <= vt, "clock drift %.6g, truth %.6Lg", sol.clock_drift, u.drift);
}
