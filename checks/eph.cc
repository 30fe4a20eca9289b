// P26-P34: satellite states, validity windows, health, group delays, equality, BeiDou checksum.
#include "pbt.h"
#include <algorithm>
#include <vector>
#include <swiftnav/almanac.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/shm.h>
using namespace pbt;

namespace {
typedef long double LD;
const LD PIl = 3.14159265358979323846264338327950288L;
const double PI_B = 3.1415926535898;
const LD Cl = 299792458.0L;

enum Con { GPS, SBAS, GLO, BDS, QZS, GAL };
struct CodeInfo { code_t code; Con con; LD hz; };  // hz: nominal carrier (GLO: channel 0)
const LD F0 = 10.23e6L;
const CodeInfo CODES[] = {
    {CODE_GPS_L1CA, GPS, 154 * F0}, {CODE_GPS_L2CM, GPS, 120 * F0}, {CODE_GPS_L1P, GPS, 154 * F0}, {CODE_GPS_L2P, GPS, 120 * F0},
    {CODE_GPS_L2CL, GPS, 120 * F0}, {CODE_GPS_L2CX, GPS, 120 * F0}, {CODE_GPS_L5I, GPS, 115 * F0}, {CODE_GPS_L5Q, GPS, 115 * F0},
    {CODE_GPS_L5X, GPS, 115 * F0}, {CODE_GPS_L1CI, GPS, 154 * F0}, {CODE_GPS_L1CQ, GPS, 154 * F0}, {CODE_GPS_L1CX, GPS, 154 * F0},
    {CODE_AUX_GPS, GPS, 154 * F0},
    {CODE_SBAS_L1CA, SBAS, 154 * F0}, {CODE_SBAS_L5I, SBAS, 115 * F0}, {CODE_SBAS_L5Q, SBAS, 115 * F0}, {CODE_SBAS_L5X, SBAS, 115 * F0},
    {CODE_AUX_SBAS, SBAS, 154 * F0},
    {CODE_GLO_L1OF, GLO, 1602e6L}, {CODE_GLO_L2OF, GLO, 1246e6L}, {CODE_GLO_L1P, GLO, 1602e6L}, {CODE_GLO_L2P, GLO, 1246e6L},
    {CODE_BDS2_B1, BDS, 1561.098e6L}, {CODE_BDS2_B2, BDS, 1207.14e6L}, {CODE_BDS3_B1CI, BDS, 154 * F0}, {CODE_BDS3_B1CQ, BDS, 154 * F0},
    {CODE_BDS3_B1CX, BDS, 154 * F0}, {CODE_BDS3_B5I, BDS, 115 * F0}, {CODE_BDS3_B5Q, BDS, 115 * F0}, {CODE_BDS3_B5X, BDS, 115 * F0},
    {CODE_BDS3_B7I, BDS, 118 * F0}, {CODE_BDS3_B7Q, BDS, 118 * F0}, {CODE_BDS3_B7X, BDS, 118 * F0}, {CODE_BDS3_B3I, BDS, 124 * F0},
    {CODE_BDS3_B3Q, BDS, 124 * F0}, {CODE_BDS3_B3X, BDS, 124 * F0}, {CODE_AUX_BDS, BDS, 1561.098e6L},
    {CODE_QZS_L1CA, QZS, 154 * F0}, {CODE_QZS_L1CI, QZS, 154 * F0}, {CODE_QZS_L1CQ, QZS, 154 * F0}, {CODE_QZS_L1CX, QZS, 154 * F0},
    {CODE_QZS_L2CM, QZS, 120 * F0}, {CODE_QZS_L2CL, QZS, 120 * F0}, {CODE_QZS_L2CX, QZS, 120 * F0}, {CODE_QZS_L5I, QZS, 115 * F0},
    {CODE_QZS_L5Q, QZS, 115 * F0}, {CODE_QZS_L5X, QZS, 115 * F0}, {CODE_AUX_QZS, QZS, 154 * F0},
    {CODE_GAL_E1B, GAL, 154 * F0}, {CODE_GAL_E1C, GAL, 154 * F0}, {CODE_GAL_E1X, GAL, 154 * F0}, {CODE_GAL_E6B, GAL, 125 * F0},
    {CODE_GAL_E6C, GAL, 125 * F0}, {CODE_GAL_E6X, GAL, 125 * F0}, {CODE_GAL_E7I, GAL, 118 * F0}, {CODE_GAL_E7Q, GAL, 118 * F0},
    {CODE_GAL_E7X, GAL, 118 * F0}, {CODE_GAL_E8I, GAL, 116.5L * F0}, {CODE_GAL_E8Q, GAL, 116.5L * F0}, {CODE_GAL_E8X, GAL, 116.5L * F0},
    {CODE_GAL_E5I, GAL, 115 * F0}, {CODE_GAL_E5Q, GAL, 115 * F0}, {CODE_GAL_E5X, GAL, 115 * F0}, {CODE_AUX_GAL, GAL, 154 * F0}};
const int NCODES = sizeof(CODES) / sizeof(CODES[0]);
const CodeInfo &pick_code(Case &c, std::initializer_list<Con> cons) {
  std::vector<int> ix;
  for (Con k : cons) for (int i = 0; i < NCODES; i++) if (CODES[i].con == k) { ix.push_back(i); }
  return CODES[c.pick(ix)];
}
const CodeInfo &pick_code_of(Case &c, Con con) { return pick_code(c, {con}); }
bool is_L(const CodeInfo &ci, LD mult) { return fabsl(ci.hz - mult * F0) < 1; }
int first_sat(Con c) { return c == SBAS ? 120 : c == QZS ? 193 : 1; }
int num_sat(Con c) { return c == GPS ? 32 : c == SBAS ? 39 : c == GLO ? 28 : c == BDS ? 63 : c == QZS ? 10 : 36; }

void setup_glo_map() {
  static bool done = false;
  if (done) return;
  done = true;
  for (int s = 1; s <= 28; s++) glo_map_set_slot_id((u16)(1 + (s * 5) % 14), (u16)s);
}
int glo_channel(int sat) { return 1 + (sat * 5) % 14 - 8; }
LD carrier(const CodeInfo &ci, int sat) {
  if (ci.con != GLO) return ci.hz;
  if (ci.code == CODE_GLO_L1P || ci.code == CODE_GLO_L2P) return ci.hz;  // see P10 known finding
  return ci.hz + glo_channel(sat) * (ci.hz > 1.5e9L ? 562500.0L : 437500.0L);
}

// signed n-bit raw value, small or full range
double sraw(Case &c, int n) {
  int64_t lim = ((int64_t)1 << (n - 1)) - 1;
  return (double)c.range(-lim - 1, lim);
}
double sraw_small(Case &c, int n, double lim) {
  int64_t full = ((int64_t)1 << (n - 1)) - 1;
  if (c.chance(1, 8)) return (double)c.range(-full - 1, full);
  int64_t l = (int64_t)fmin((double)full, lim);
  return (double)c.range(-l, l);
}
double p2(int e) { return ldexp(1.0, e); }

struct EphGen {
  const CodeInfo *ci;
  satellite_orbit_type_t orbit = MEO;
};

// a broadcast-like Keplerian ephemeris; all fields random; valid and healthy
ephemeris_t gen_kepler(Case &c, const CodeInfo &ci, satellite_orbit_type_t orbit) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = ci.code;
  e.sid.sat = (u16)(first_sat(ci.con) + c.draw((uint64_t)num_sat(ci.con) - 1));
  ephemeris_kepler_t &k = e.data.kepler;
  e.valid = 1;
  e.ura = 2.0f;
  e.health_bits = 0;
  if (ci.con == BDS) e.source = EPH_SOURCE_BDS_BCNAV1;
  u16 iod = (u16)c.draw(ci.con == GAL ? 1023 : 255);
  k.iode = k.iodc = iod;
  e.fit_interval = (u32)c.pick({14400, 7200, 21600, 93600, 10800, 28800, 352800});
  e.toe.wn = (s16)c.range(100, 4000);
  double step = ci.con == GAL ? 60 : ci.con == BDS ? 8 : 16;
  e.toe.tow = c.chance(1, 3) ? c.pick({0.0, 604800 - step, step}) : step * (double)c.draw((uint64_t)(604800 / step) - 1);
  if (ci.con == BDS) e.toe.tow = e.toe.tow + 14 >= 604800 ? e.toe.tow + 14 - 604800 : e.toe.tow + 14;
  k.toc = e.toe;
  if (c.coin()) {
    double off = step * (double)c.draw((uint64_t)(e.fit_interval / 2 / step));
    if (c.coin() && (ci.con == GPS || ci.con == QZS)) off = -off;
    k.toc.tow += off;
    normalize_gps_time(&k.toc);
  }
  double sa = ci.con == GPS ? 5153.6 : ci.con == GAL ? 5440.6 : orbit == MEO && ci.con == BDS ? 5282.6 : 6493.4;
  k.sqrta = floor((sa + c.real(-3, 3)) * p2(19)) * p2(-19);
  if (orbit != GEO && c.chance(1, 6)) k.sqrta = (double)c.range(5000ll << 19, 7000ll << 19) * p2(-19);
  switch (c.draw(4)) {
    case 0: k.ecc = (double)c.draw(1u << 20) * p2(-33); break;          // near circular (< 1.2e-4)
    case 1: k.ecc = (double)c.draw(0x0fffffff) * p2(-33); break;       // < 0.031
    case 2: k.ecc = (double)c.draw(0x33333333) * p2(-33); break;       // < 0.1
    case 3: k.ecc = (double)c.draw(0x66666666) * p2(-33); break;       // < 0.2
    default: k.ecc = (double)c.draw(0xffffffff) * p2(-33); break;      // < 0.5, all that can be broadcast
  }
  k.crc = sraw_small(c, 16, 13000) * p2(-5);
  k.crs = sraw_small(c, 16, 13000) * p2(-5);
  k.cuc = sraw_small(c, 16, 8000) * p2(-29);
  k.cus = sraw_small(c, 16, 8000) * p2(-29);
  k.cic = sraw_small(c, 16, 800) * p2(-29);
  k.cis = sraw_small(c, 16, 800) * p2(-29);
  k.dn = sraw_small(c, 16, 15000) * p2(-43) * PI_B;
  k.m0 = sraw(c, 32) * p2(-31) * PI_B;
  k.omega0 = sraw(c, 32) * p2(-31) * PI_B;
  k.w = sraw(c, 32) * p2(-31) * PI_B;
  k.inc = orbit == GEO ? c.real(0, 0.13) : c.chance(1, 4) ? c.real(0, 1.57) : c.real(0.9, 1.0);
  k.inc_dot = sraw_small(c, 14, 2000) * p2(-43) * PI_B;
  k.omegadot = sraw_small(c, 24, 30000) * p2(-43) * PI_B;
  k.af0 = ci.con == GAL && c.chance(1, 6) ? sraw(c, 31) * p2(-34) : sraw_small(c, 22, 1 << 20) * p2(-31);
  k.af1 = sraw_small(c, 16, 800) * p2(-43);
  k.af2 = sraw_small(c, 8, 2) * p2(-55);
  k.tgd.gps_s[0] = (float)(sraw(c, 8) * p2(-31));
  k.tgd.gps_s[1] = (float)(sraw(c, 8) * p2(-31));
  return e;
}
ephemeris_t gen_glo(Case &c, const CodeInfo &ci) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = ci.code;
  e.sid.sat = (u16)(1 + c.draw(27));
  e.valid = 1;
  e.ura = 2.5f;
  e.fit_interval = (u32)c.pick({2400, 1800, 3600});
  e.toe.wn = (s16)c.range(900, 4000);
  e.toe.tow = c.chance(1, 3) ? c.pick({18.0, 604800.0 - 882, 17.0, 604799.0}) : 18 + 900.0 * (double)c.draw(671);
  if (e.toe.tow >= 604800) e.toe.tow -= 604800;
  ephemeris_glo_t &g = e.data.glo;
  g.gamma = sraw(c, 11) * p2(-40);
  g.tau = sraw(c, 22) * p2(-30);
  g.d_tau = sraw(c, 5) * p2(-30);
  g.fcn = (u16)(1 + c.draw(13));
  g.iod = (u8)c.draw(127);
  // a near-circular orbit state in the rotating frame
  double r = 25508e3 + c.real(-30e3, 30e3), u = c.real(0, 6.2831), om = c.real(0, 6.2831), inc = 64.8 / 57.29577951 + c.real(-0.02, 0.02);
  double v = sqrt(3.986004418e14 / r);
  double P[3] = {cos(om) * cos(u) - sin(om) * sin(u) * cos(inc), sin(om) * cos(u) + cos(om) * sin(u) * cos(inc), sin(u) * sin(inc)};
  double Q[3] = {-cos(om) * sin(u) - sin(om) * cos(u) * cos(inc), -sin(om) * sin(u) + cos(om) * cos(u) * cos(inc), cos(u) * sin(inc)};
  double W = 7.292115e-5;
  for (int i = 0; i < 3; i++) { g.pos[i] = r * P[i]; g.vel[i] = v * Q[i] + v * c.real(-1e-3, 1e-3) * P[i]; }
  g.vel[0] += W * g.pos[1];
  g.vel[1] -= W * g.pos[0];
  for (int i = 0; i < 3; i++) {
    g.pos[i] = round(g.pos[i] / 1e3 * p2(11)) * p2(-11) * 1e3;
    g.vel[i] = round(g.vel[i] / 1e3 * p2(20)) * p2(-20) * 1e3;
    g.acc[i] = (double)c.range(-6, 6) * p2(-30) * 1e3;
  }
  return e;
}
ephemeris_t gen_sbas(Case &c, const CodeInfo &ci) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = ci.code;
  e.sid.sat = (u16)(120 + c.draw(38));
  e.valid = 1;
  e.ura = 2.5f;
  e.fit_interval = (u32)c.pick({240, 600, 86400});
  e.toe.wn = (s16)c.range(900, 4000);
  e.toe.tow = 16.0 * (double)c.draw(37799);
  ephemeris_xyz_t &x = e.data.xyz;
  double lon = c.real(-3.14, 3.14);
  x.pos[0] = 42164e3 * cos(lon) + c.real(-5e4, 5e4);
  x.pos[1] = 42164e3 * sin(lon) + c.real(-5e4, 5e4);
  x.pos[2] = c.real(-5e4, 5e4);
  for (int i = 0; i < 3; i++) { x.vel[i] = sraw(c, 17) * 0.000625; x.acc[i] = sraw(c, 10) * 0.0000125; }
  x.a_gf0 = sraw(c, 12) * p2(-31);
  x.a_gf1 = sraw(c, 8) * p2(-40);
  return e;
}
ephemeris_t gen_any(Case &c, satellite_orbit_type_t &orbit, const CodeInfo *&ci, bool all_signals) {
  orbit = MEO;
  Con con = c.pick({GPS, GAL, BDS, QZS, GLO, SBAS});
  const code_t base[] = {CODE_GPS_L1CA, CODE_SBAS_L1CA, CODE_GLO_L1OF, CODE_BDS2_B1, CODE_QZS_L1CA, CODE_GAL_E1B};
  if (all_signals) ci = &pick_code_of(c, con);
  else for (auto &x : CODES) if (x.code == base[con]) ci = &x;
  if (con == GLO) return gen_glo(c, *ci);
  if (con == SBAS) return gen_sbas(c, *ci);
  if (con == BDS) orbit = c.pick({MEO, IGSO, GEO});
  return gen_kepler(c, *ci, orbit);
}
// a query time within the validity window, away from the edge by margin
gps_time_t gen_time(Case &c, const ephemeris_t &e, Con con, double margin) {
  double lo = -(double)(e.fit_interval / 2), hi = (double)(e.fit_interval / 2);
  if (con == GAL || con == BDS) { lo = 0; hi = e.fit_interval; }
  double d = c.real(lo + margin, hi - margin);
  gps_time_t t = e.toe;
  t.tow += d;
  normalize_gps_time(&t);
  return t;
}
LD diff(const gps_time_t &a, const gps_time_t &b) { return (LD)(a.wn - b.wn) * 604800.0L + ((LD)a.tow - (LD)b.tow); }

LD model_tgd(const ephemeris_t &e, const CodeInfo &ci) {
  const ephemeris_kepler_t &k = e.data.kepler;
  switch (ci.con) {
    case GPS: case QZS: {
      LD g = (154 * F0 / ci.hz) * (154 * F0 / ci.hz);
      return is_L(ci, 115) ? g * k.tgd.gps_s[1] : g * k.tgd.gps_s[0];
    }
    case GAL: {
      LD g = (154 * F0 / ci.hz) * (154 * F0 / ci.hz);
      return is_L(ci, 115) ? g * k.tgd.gal_s[0] : g * k.tgd.gal_s[1];
    }
    case BDS:
      if (ci.hz > 1.5e9L) return k.tgd.bds_s[0];      // B1I, and B1C in its place
      if (is_L(ci, 124)) return 0;                      // B3I is the reference
      return k.tgd.bds_s[1];
    case GLO: return ci.hz > 1.5e9L ? 0 : (LD)e.data.glo.d_tau;
    default: return 0;
  }
}

struct State { LD p[3], v[3], clk, rel, rate; };
// published user algorithm (IS-GPS-200 20.3.3.4.3, BDS ICD 5.2.4.12, Galileo ICD 5.1.1) in long double
State kepler_model(const ephemeris_t &e, const gps_time_t &t, const CodeInfo &ci, satellite_orbit_type_t orbit) {
  const ephemeris_kepler_t &k = e.data.kepler;
  State s;
  LD dc = diff(t, k.toc);
  s.clk = k.af0 + dc * ((LD)k.af1 + dc * (LD)k.af2) - model_tgd(e, ci);
  s.rate = k.af1 + 2 * dc * (LD)k.af2;
  LD tk = diff(t, e.toe) - s.clk;
  LD gm = ci.con == GPS || ci.con == QZS ? 3.986005e14L : 3.986004418e14L;
  LD we = ci.con == BDS ? 7.2921150e-5L : 7.2921151467e-5L;
  LD A = (LD)k.sqrta * k.sqrta, n = sqrtl(gm / (A * A * A)) + k.dn, M = k.m0 + n * tk, ec = k.ecc;
  LD m = remainderl(M, 2 * PIl), lo = m - 1, hi = m + 1;
  for (int i = 0; i < 20; i++) { LD mid = (lo + hi) / 2; if (mid - ec * sinl(mid) < m) lo = mid; else hi = mid; }
  LD E = (lo + hi) / 2;
  for (int i = 0; i < 6; i++) E -= (E - ec * sinl(E) - m) / (1 - ec * cosl(E));
  LD den = 1 - ec * cosl(E), Ed = n / den;
  LD nu = atan2l(sqrtl(1 - ec * ec) * sinl(E), cosl(E) - ec), phi = nu + k.w;
  LD nud = sqrtl(1 - ec * ec) * Ed / den;
  LD s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  LD u = phi + k.cus * s2 + k.cuc * c2, r = A * den + k.crs * s2 + k.crc * c2, i = k.inc + k.inc_dot * tk + k.cis * s2 + k.cic * c2;
  LD rd = A * ec * sinl(E) * Ed + 2 * nud * (k.crs * c2 - k.crc * s2);
  LD x = r * cosl(u), y = r * sinl(u);
  LD tow = (LD)e.toe.tow - (ci.con == BDS ? 14 : 0);
  if (tow < 0) tow += 604800;
  if (orbit != GEO) {
    LD om = k.omega0 + (k.omegadot - we) * tk - we * tow;
    s.p[0] = x * cosl(om) - y * cosl(i) * sinl(om);
    s.p[1] = x * sinl(om) + y * cosl(i) * cosl(om);
    s.p[2] = y * sinl(i);
  } else {
    LD om = k.omega0 + k.omegadot * tk - we * tow;
    LD g[3] = {x * cosl(om) - y * cosl(i) * sinl(om), x * sinl(om) + y * cosl(i) * cosl(om), y * sinl(i)};
    LD f = -5 * PIl / 180, a = we * tk;
    LD h[3] = {g[0], cosl(f) * g[1] + sinl(f) * g[2], -sinl(f) * g[1] + cosl(f) * g[2]};
    s.p[0] = cosl(a) * h[0] + sinl(a) * h[1];
    s.p[1] = -sinl(a) * h[0] + cosl(a) * h[1];
    s.p[2] = h[2];
  }
  s.rel = -2 * r * rd / (Cl * Cl);
  // rate of the relativistic term (for tolerances): -2 (rd^2 + r rdd)/c^2, bounded through e n^2 A
  s.clk += s.rel;
  return s;
}
struct Out { double p[3], v[3], a[3], clk, rate; };
s8 state(const ephemeris_t &e, const gps_time_t &t, satellite_orbit_type_t o, Out &r) {
  return calc_sat_state_orbit_type(&e, &t, o, r.p, r.v, r.a, &r.clk, &r.rate);
}
LD norm3(const LD *v) { return sqrtl(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
std::string eph_text(const ephemeris_t &e, satellite_orbit_type_t o) {
  char b[600];
  const ephemeris_kepler_t &k = e.data.kepler;
  snprintf(b, sizeof b, "code %d sat %d orbit %d toe %d/%.3f toc %.3f fit %u sqrta %.6f ecc %.9g inc %.6f m0 %.6f af0 %.4g af1 %.4g", e.sid.code,
           e.sid.sat, o, e.toe.wn, e.toe.tow, k.toc.tow, e.fit_interval, k.sqrta, k.ecc, k.inc, k.m0, k.af0, k.af1);
  return b;
}
}  // namespace

// ---- P26 ------------------------------------------------------------------
namespace {
// absolute seconds of t, with an unknown week resolved to the one closest to ref
double resolve(double tow, double ref_abs) {
  double w = floor((ref_abs - tow) / 604800 + 0.5);
  return tow + 604800 * w;
}
bool iod_ok(const ephemeris_t &e, Con con) {
  const ephemeris_kepler_t &k = e.data.kepler;
  switch (con) {
    case GPS: case QZS: return k.iodc <= 1023 && k.iode <= 255 && (k.iodc & 255) == k.iode;
    case BDS: if (e.source == EPH_SOURCE_BDS_D1_D2_NAV) return k.iodc <= 240 && k.iode <= 240;
      return k.iodc <= 1023 && k.iode <= 255 && (k.iodc & 255) == k.iode;
    case GAL: return k.iodc <= 1023 && k.iode == k.iodc;
    case GLO: return e.data.glo.iod <= 127;
    default: return true;
  }
}
}  // namespace
SUB(P26, ephemeris, 3, 20000, "random ephemerides of every constellation, with one or more of: invalid flag, week 0 or unknown, no fit interval, unhealthy, inconsistent issue numbers, clock reference outside the window; query times uniform, at and just beside the window edges, of unknown week; non-trivial: time within 100 s of an edge or an unknown week or a broken field") {
  setup_glo_map();
  const CodeInfo *ci = nullptr;
  satellite_orbit_type_t orbit;
  ephemeris_t e = gen_any(c, orbit, ci, true);
  Con con = ci->con;
  bool kep = con != GLO && con != SBAS;
  e.toe.wn = (s16)c.range(3, 4000);
  e.toe.tow = c.chance(1, 4) ? c.pick({0.0, 604799.0, 604784.0, 302400.0}) : (double)c.draw(604799 * 8) / 8;
  e.fit_interval = c.coin() ? (u32)c.pick({14400, 7200, 2400, 352800, 1, 2, 3, 86400}) : (u32)(1 + c.u(400000));
  double lo = -(double)(e.fit_interval / 2), hi = (double)(e.fit_interval / 2);
  if (con == GAL || con == BDS) { lo = 0; hi = e.fit_interval; }
  // query time
  double d;
  switch (c.draw(4)) {
    case 0: d = c.real(lo, hi); break;
    case 1: d = lo + (double)c.range(-16, 16) / 8; break;
    case 2: d = hi + (double)c.range(-16, 16) / 8; break;
    case 3: d = (double)c.range(-8 * 604800, 8 * 604800) / 8; break;
    default: d = c.pick({0.0, lo, hi, lo - 0.125, hi + 0.125}); break;
  }
  d = floor(d * 8) / 8;
  gps_time_t t = e.toe;
  t.tow += d;
  normalize_gps_time(&t);
  bool edge = fabs(d - lo) < 100 || fabs(d - hi) < 100;
  double toc_d = 0;
  if (kep) {
    toc_d = c.coin() ? 0 : c.coin() ? floor(c.real(lo, hi)) : c.pick({lo, hi, lo - 0.125, hi + 0.125, hi + 3600});
    e.data.kepler.toc = e.toe;
    e.data.kepler.toc.tow += toc_d;
    normalize_gps_time(&e.data.kepler.toc);
  }
  bool toe_unknown = false, t_unknown = false;
  if (c.chance(1, 4)) {
    t_unknown = c.coin();
    toe_unknown = !t_unknown || c.chance(1, 4);
  }
  double Ttoe = e.toe.wn * 604800.0 + e.toe.tow, T = Ttoe + d;
  if (toe_unknown || t_unknown) {
    // the closest choice of weeks: fold the difference; stay off the half-week ambiguity
    double f = d - 604800 * floor(d / 604800 + 0.5);
    if (fabs(fabs(f) - 302400) < 1) { d = f = 0; t.tow = e.toe.tow; }
    if (toe_unknown && t_unknown) {
      if (kep) e.data.kepler.toc.wn = WN_UNKNOWN;
    }
    if (toe_unknown) { e.toe.wn = WN_UNKNOWN; Ttoe = T - f; if (!t_unknown) { Ttoe = t.wn * 604800.0 + t.tow - f; T = Ttoe + f; } }
    if (t_unknown) { t.wn = WN_UNKNOWN; T = Ttoe + f; }
    if (toe_unknown && t_unknown) T = Ttoe + f;
  }
  bool want_time = T - Ttoe >= lo && T - Ttoe <= hi;
  if (con == SBAS) want_time = true;
  if (kep) {
    gps_time_t &toc = e.data.kepler.toc;
    double tc;
    if (toc.wn == WN_UNKNOWN) {
      // compared with the window start at its closest week
      double bgn = Ttoe + lo;
      tc = resolve(toc.tow, bgn);
      if (fabs(fabs(tc - bgn) - 302400) < 1 || hi - lo > 302400) { toc = t; toc.wn = e.toe.wn; toc.tow = e.toe.tow; tc = Ttoe; if (lo < -302400) want_time = false; }
    } else {
      tc = toc.wn * 604800.0 + toc.tow;
    }
    if (tc - Ttoe < lo || tc - Ttoe > hi) want_time = false;
    if (c.chance(1, 30)) { toc.wn = 0; want_time = false; }
  }
  // status
  ephemeris_status_t want = EPH_VALID;
  bool broken = false;
  if (c.coin()) {
    broken = true;
    if (c.chance(1, 3)) {
      if (con == GLO) e.data.glo.iod = (u8)c.draw(255);
      else if (kep) {
        e.data.kepler.iodc = c.coin() ? (u16)c.draw(1100) : (u16)(e.data.kepler.iode + 256 * c.draw(4));
        if (c.coin()) e.data.kepler.iode = c.coin() ? (u16)c.draw(300) : (u16)(e.data.kepler.iodc & 255);
        if (c.chance(1, 4)) e.data.kepler.iode = e.data.kepler.iodc;
        if (con == BDS) e.source = (u8)c.draw(2);
      }
    }
    if (c.chance(1, 4)) e.health_bits = (u8)c.pick({0x3f, 0x1f, 1, 0x1c, 0x20});
    if (c.chance(1, 8)) e.ura = c.pick({-1.0f, 6144.0f, 100.0f});
    if (c.chance(1, 8)) e.fit_interval = 0;
    if (c.chance(1, 8)) e.toe.wn = 0;
    if (c.chance(1, 4)) e.valid = (u8)c.draw(1);
  }
  if (!e.valid) want = EPH_INVALID;
  else if (e.toe.wn == 0) want = EPH_WN_EQ_0;
  else if (e.fit_interval == 0) want = EPH_FIT_INTERVAL_EQ_0;
  else if (!ephemeris_healthy(&e, e.sid.code)) want = EPH_UNHEALTHY;
  else if (!iod_ok(e, con)) want = EPH_INVALID_IOD;
  c.nontrivial(edge || toe_unknown || t_unknown || broken);
  if (edge) c.label("edge");
  if (toe_unknown || t_unknown) c.label("unknown week");
  if (want != EPH_VALID) c.label("unusable status");
  else c.label(want_time ? "usable" : "out of window");
  c.note("code %d toe %d/%.3f t %d/%.3f offset %.3f fit %u window [%.1f,%.1f] toc offset %.3f want status %d, in time %d", e.sid.code, e.toe.wn, e.toe.tow,
         t.wn, t.tow, d, e.fit_interval, lo, hi, toc_d, want, want_time);
  const ephemeris_t e0 = e;
  const gps_time_t t0 = t;
  CHECK(get_ephemeris_status_t(&e) == want, "status %d, want %d", get_ephemeris_status_t(&e), want);
  CHECK(ephemeris_valid(&e, NULL) == 0, "valid at no time");
  bool usable = want == EPH_VALID && want_time;
  ephemeris_status_t det = ephemeris_valid_detailed(&e, &t);
  CHECK(det == (want != EPH_VALID ? want : want_time ? EPH_VALID : EPH_TOO_OLD), "detailed status %d (want status %d, in window %d)", det, want, want_time);
  CHECK(ephemeris_valid(&e, &t) == (usable ? 1 : 0), "ephemeris_valid %d, want %d", ephemeris_valid(&e, &t), usable);
  Out r;
  memset(&r, 0x5a, sizeof r);
  Out keep = r;
  s8 rc = state(e, t, orbit, r);
  CHECK((rc == 0) == usable, "state query returned %d, usable %d", rc, usable);
  if (rc) CHECK(memcmp(&r, &keep, sizeof r) == 0, "failed state query changed its outputs");
  Out r2 = keep;
  s8 rc2 = calc_sat_state(&e, &t, r2.p, r2.v, r2.a, &r2.clk, &r2.rate);
  CHECK(rc2 == rc, "calc_sat_state returned %d, with orbit type %d", rc2, rc);
  if (rc2) CHECK(memcmp(&r2, &keep, sizeof r2) == 0, "failed calc_sat_state changed its outputs");
  double ref[3] = {6378137, 0, 0}, rv[3] = {0, 0, 0}, az = 77, el = 78, dop = 79;
  s8 ra = calc_sat_az_el(&e, &t, ref, orbit, &az, &el, true);
  CHECK((ra == 0) == usable && (ra == 0 || (az == 77 && el == 78)), "az/el query returned %d (usable %d), outputs %.17g %.17g", ra, usable, az, el);
  s8 rd = calc_sat_doppler(&e, &t, ref, rv, orbit, &dop);
  CHECK((rd == 0) == usable && (rd == 0 || dop == 79), "Doppler query returned %d (usable %d), output %.17g", rd, usable, dop);
  CHECK(memcmp(&e, &e0, sizeof e) == 0 && memcmp(&t, &t0, sizeof t) == 0, "a validity query changed its inputs");
}
SUB(P26, null, 0.1, 20, "null ephemeris; non-trivial: always") {
  c.nontrivial();
  gps_time_t t = {c.real(0, 604799), (s16)c.range(1, 4000)};
  CHECK(get_ephemeris_status_t(NULL) == EPH_NULL && ephemeris_valid(NULL, &t) == 0, "null ephemeris accepted");
}
namespace {
almanac_t gen_almanac(Case &c, Con con) {
  almanac_t a;
  memset(&a, 0, sizeof a);
  a.valid = 1;
  a.ura = 900;
  a.toa.wn = (s16)c.range(3, 4000);
  if (con == GPS) {
    a.sid.code = c.chance(1, 4) ? CODE_GPS_L2CM : CODE_GPS_L1CA;
    a.sid.sat = (u16)(1 + c.draw(31));
    a.fit_interval = c.coin() ? 504000 : (u32)(1 + c.u(c.chance(1, 20) ? 3 : 600000));
    a.toa.tow = 4096.0 * (double)c.draw(147);
    almanac_kepler_t &k = a.data.kepler;
    k.ecc = (double)c.draw(0xffff) * p2(-21);
    k.inc = sraw_small(c, 16, 5000) * p2(-19) * PI_B + 0.3 * PI_B;
    k.omegadot = sraw_small(c, 16, 1000) * p2(-38) * PI_B;
    k.sqrta = floor((5153.6 + c.real(-3, 3)) * 2048) / 2048;
    k.omega0 = sraw(c, 24) * p2(-23) * PI_B;
    k.w = sraw(c, 24) * p2(-23) * PI_B;
    k.m0 = sraw(c, 24) * p2(-23) * PI_B;
    k.af0 = sraw(c, 11) * p2(-20);
    k.af1 = sraw(c, 11) * p2(-38);
  } else {
    a.sid.code = CODE_SBAS_L1CA;
    a.sid.sat = (u16)(120 + c.draw(38));
    a.fit_interval = c.coin() ? 86400 : (u32)(1 + c.u(c.chance(1, 20) ? 3 : 600000));
    a.toa.tow = 64.0 * (double)c.draw(9449);
    double lon = c.real(-3.14, 3.14);
    a.data.xyz.pos[0] = 42164e3 * cos(lon);
    a.data.xyz.pos[1] = 42164e3 * sin(lon);
    a.data.xyz.pos[2] = sraw(c, 9) * 26000;
    for (int i = 0; i < 3; i++) a.data.xyz.vel[i] = sraw(c, 3) * 10;
    if (c.coin()) for (int i = 0; i < 3; i++) a.data.xyz.acc[i] = sraw(c, 10) * 0.0000125;
  }
  return a;
}
}  // namespace
SUB(P26, almanac, 1.5, 20000, "GPS and SBAS almanacs with flags, week 0 or unknown, fit interval and health words varied; query times at, just beside and far from the window edges; non-trivial: time within 100 s of an edge, unknown week or a broken field") {
  setup_glo_map();
  Con con = c.pick({GPS, SBAS});
  almanac_t a = gen_almanac(c, con);
  double h = (double)(a.fit_interval / 2), d;
  switch (c.draw(3)) {
    case 0: d = c.real(-h, h); break;
    case 1: d = h + (double)c.range(-16, 16) / 8; break;
    case 2: d = -h + (double)c.range(-16, 16) / 8; break;
    default: d = (double)c.range(-8 * 604800, 8 * 604800) / 8; break;
  }
  d = floor(d * 8) / 8;
  gps_time_t t = a.toa;
  t.tow += d;
  normalize_gps_time(&t);
  bool unknown = c.chance(1, 5);
  if (unknown) {
    double f = d - 604800 * floor(d / 604800 + 0.5);
    if (fabs(fabs(f) - 302400) < 1) { f = 0; t.tow = a.toa.tow; }
    d = f;
    if (c.coin()) a.toa.wn = WN_UNKNOWN; else t.wn = WN_UNKNOWN;
  }
  bool healthy = true, ok = true, broken = false;
  if (c.coin()) {
    broken = true;
    if (c.chance(1, 2)) a.health_bits = c.coin() ? (u8)(c.draw(7) << 5) : c.byte();
    if (c.chance(1, 6)) a.fit_interval = 0;
    if (c.chance(1, 6)) a.toa.wn = 0;
    if (c.chance(1, 6)) a.valid = 0;
  }
  int dhi = a.health_bits >> 5, sig = a.health_bits & 31;
  healthy = dhi == 0 || dhi == 2 || dhi == 3 || dhi == 4;
  if (sig) {
    almanac_t z = a;
    z.health_bits = (u8)sig;
    healthy = healthy && almanac_healthy(&z);
  }
  ok = a.valid && healthy && a.fit_interval > 0 && a.toa.wn != 0;
  bool usable = ok && fabs(d) <= h;
  c.nontrivial(unknown || broken || fabs(fabs(d) - h) < 100);
  c.label(usable ? "usable" : ok ? "out of window" : "unusable");
  c.note("%s almanac toa %d/%.1f t %d/%.3f offset %.3f fit %u health 0x%02x valid %d want %d", con == GPS ? "GPS" : "SBAS", a.toa.wn, a.toa.tow, t.wn, t.tow, d, a.fit_interval,
         a.health_bits, a.valid, usable);
  CHECK((almanac_healthy(&a) != 0) == healthy, "health word 0x%02x judged %d", a.health_bits, almanac_healthy(&a));
  CHECK((almanac_valid(&a, &t) != 0) == usable, "almanac_valid %d, want %d", almanac_valid(&a, &t), usable);
  Out r;
  memset(&r, 0x5a, sizeof r);
  Out keep = r;
  s8 rc = calc_sat_state_almanac(&a, &t, r.p, r.v, r.a, &r.clk, &r.rate);
  CHECK((rc == 0) == usable, "almanac state query returned %d, usable %d", rc, usable);
  if (rc) CHECK(memcmp(&r, &keep, sizeof r) == 0, "failed almanac state query changed its outputs");
  double ref[3] = {6378137, 0, 0}, az = 77, el = 78, dop = 79;
  s8 ra = calc_sat_az_el_almanac(&a, &t, ref, &az, &el);
  CHECK((ra == 0) == usable && (ra == 0 || (az == 77 && el == 78)), "az/el query returned %d (usable %d)", ra, usable);
  s8 rd = calc_sat_doppler_almanac(&a, &t, ref, &dop);
  CHECK((rd == 0) == usable && (rd == 0 || dop == 79), "Doppler query returned %d (usable %d)", rd, usable);
}
SUB(P26, decoded, 1, 5000, "random subframes and strings decoded to ephemerides, then queried at any time (the decoder's output never makes a query abort); non-trivial: decoded as valid") {
  setup_glo_map();
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  double tow = (double)c.draw(604799);
  int what = (int)c.draw(3);
  if (what == 0) {
    u32 w[3][8];
    for (auto &s : w) for (auto &x : s) x = (u32)c.bits(30);
    if (c.coin()) {  // make the issue numbers agree
      u32 iode = (u32)c.draw(255);
      w[0][5] = (w[0][5] & 0x003fffff) | iode << 22;
      w[1][0] = (w[1][0] & 0x003fffff) | iode << 22;
      w[2][7] = (w[2][7] & 0x003fffff) | iode << 22;
      w[0][0] &= ~(0x3fu << 8);
      w[1][7] = (w[1][7] & 0x3fff) | (u32)c.draw(37799) << 14;
      w[0][5] = (w[0][5] & ~(0xffffu << 6)) | (w[1][7] >> 14) << 6;
    }
    e.sid.code = c.coin() ? CODE_GPS_L1CA : CODE_QZS_L1CA;
    e.sid.sat = e.sid.code == CODE_GPS_L1CA ? 5 : 195;
    decode_ephemeris_with_wn_ref(w, &e, tow, (u16)c.range(1, 5000));
  } else if (what == 1) {
    u32 w[3][10];
    for (auto &s : w) for (auto &x : s) x = (u32)c.bits(30);
    gnss_signal_t sid;
    sid.code = CODE_BDS2_B1;
    sid.sat = (u16)(1 + c.draw(62));
    e.sid = sid;
    if (c.coin()) { w[0][1] &= ~(1u << 17); }
    decode_bds_d1_ephemeris(w, sid, &e);
  } else if (what == 2) {
    u8 page[5][GAL_INAV_CONTENT_BYTE];
    c.fill(page, sizeof page);
    for (int i = 0; i < 4; i++) {
      page[i][0] = (u8)((i + 1) << 2 | (page[i][0] & 3));
      if (i) { page[i][0] = page[0][0] & 3 ? (u8)(((i + 1) << 2) | (page[0][0] & 3)) : page[i][0] & 0xfc; page[i][1] = page[0][1]; }
    }
    page[4][0] = (u8)(5 << 2 | (page[4][0] & 3));
    e.sid.code = CODE_GAL_E1B;
    if (!decode_gal_ephemeris_safe(page, &e)) return;
  } else {
    glo_string_t s[5];
    c.fill(s, sizeof s);
    gnss_signal_t sid;
    sid.code = CODE_GLO_L1OF;
    sid.sat = (u16)(1 + c.draw(27));
    for (int i = 0; i < 5; i++) s[i].word[2] = (s[i].word[2] & ~(0x1fu << 16)) | (u32)(i + 1) << 16;
    decode_glo_ephemeris(s, sid, NULL, &e);
    e.sid = sid;
    if (!e.valid) return;
  }
  gps_time_t t = {(double)c.draw(604799 * 8) / 8, (s16)(c.chance(1, 5) ? WN_UNKNOWN : e.toe.wn + (s16)c.range(-2, 2))};
  if (t.wn < 2 && t.wn != WN_UNKNOWN) t.wn = 2;
  c.nontrivial(e.valid);
  if (e.valid) c.label(what == 0 ? "LNAV valid" : what == 1 ? "BDS valid" : what == 2 ? "GAL valid" : "GLO valid");
  u8 v = ephemeris_valid(&e, &t);
  ephemeris_status_t s = ephemeris_valid_detailed(&e, &t);
  CHECK((v != 0) == (s == EPH_VALID), "ephemeris_valid %d but detailed status %d", v, s);
}
SUB(P26, params, 0.7, 10000, "windows and times for the lean window query, including exact edges, windows across week boundaries (also from week 0 into week 1), clock references absent, of week 0, in and out; non-trivial: within 2 s of an edge") {
  gps_time_t bgn = {(double)c.draw(604799), (s16)c.range(1, 4000)}, end = bgn, t = bgn, toc = bgn;
  double len = (double)c.u(700000);
  end.tow += len;
  double d = c.chance(1, 2) ? c.pick({0.0, len}) + (double)c.range(-16, 16) / 8 : (double)c.range(-700000 * 4, 1400000 * 4) / 4;
  double k = c.chance(1, 2) ? c.pick({0.0, len}) + (double)c.range(-16, 16) / 8 : c.real(0, len);
  t.tow += d;
  toc.tow += floor(k * 8) / 8;
  k = floor(k * 8) / 8;
  if (c.chance(1, 10) && bgn.tow + d >= 0 && bgn.tow + k >= 0) {
    bgn.wn = end.wn = t.wn = toc.wn = 0;  // a window opening in week 0, where a clock reference of week 0 still counts as missing
    c.label("week 0");
  } else if (bgn.wn < 3) { bgn.wn += 3; end.wn += 3; t.wn += 3; toc.wn += 3; }
  normalize_gps_time(&end);
  normalize_gps_time(&t);
  normalize_gps_time(&toc);
  int mode = (int)c.draw(2);
  bool want = d >= 0 && d <= len;
  if (mode == 1) want = want && k >= 0 && k <= len && toc.wn != 0;
  if (mode == 2) { toc.wn = 0; want = false; }
  c.nontrivial(fabs(d) < 2 || fabs(d - len) < 2);
  c.label(want ? "in" : "out");
  c.note("bgn %d/%.3f len %.3f t offset %.3f toc mode %d offset %.3f", bgn.wn, bgn.tow, len, d, mode, k);
  CHECK((ephemeris_params_valid(&bgn, &end, mode ? &toc : NULL, &t) != 0) == want, "window query says %d", !want);
}

// ---- P27 ------------------------------------------------------------------
namespace {
// IS-GPS-200 table 20-VIII, expanded: which of P1 P2 C1 C2 have a problem for each 5-bit code
const char *HEALTH5[32] = {
    "", "P1P2C1C2*", "P1P2C1C2*", "P1P2C1C2*",
    "P1", "P1", "P1", "P2", "P2", "P2", "C1", "C1", "C1", "C2", "C2", "C2",
    "P1P2", "P1P2", "P1P2", "C1C2", "C1C2", "C1C2",
    "P1C1", "P1C1", "P1C1", "P2C2", "P2C2", "P2C2",
    "*", "*", "*", "*"};
const char *channel(code_t code) {
  switch ((int)code) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_QZS_L1CA: case CODE_AUX_QZS: return "C1";
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: return "C2";
    case CODE_GPS_L1P: return "P1";
    case CODE_GPS_L2P: return "P2";
    default: return "-";
  }
}
bool model6(u8 h, code_t code) {
  if ((h & 0x20) && (code == CODE_GPS_L1CA || code == CODE_AUX_GPS || code == CODE_GPS_L1P)) return false;
  const char *s = HEALTH5[h & 31];
  return !strchr(s, '*') && !strstr(s, channel(code));
}
}  // namespace
EXH(P27, words, 256 * 65, "every 8-bit health word against every signal code (and the unknown one): ephemeris, almanac, page-25 words and the NAV data indications with random masks; non-trivial: word has a set bit") {
  uint64_t ix = c.draw(256 * 65 - 1);
  u8 h = (u8)(ix & 255);
  code_t code = (code_t)((int)(ix >> 8) - 1);
  c.nontrivial(h != 0);
  bool w6 = model6(h, code), dhi = (h >> 5) == 0, w8 = dhi && w6, w25 = (h & 0x3f) == 0x1f ? false : w6;
  c.note("word 0x%02x code %d", h, code);
  CHECK(check_6bit_health_word(h, code) == w6, "6-bit word judged %d, want %d", !w6, w6);
  CHECK(check_8bit_health_word(h, code) == w8, "8-bit word judged %d, want %d", !w8, w8);
  CHECK(check_alma_page25_health_word(h, code) == w25, "page 25 word judged %d, want %d", !w25, w25);
  u8 mask = c.byte();
  bool nav = dhi || (mask >> (h >> 5) & 1);
  CHECK(check_nav_dhi(h, mask) == nav, "NAV data indication %d with mask 0x%02x judged %d", h >> 5, mask, !nav);
  if (code >= 0) {
    almanac_t a;
    memset(&a, 0, sizeof a);
    a.valid = 1;
    a.health_bits = h;
    a.sid.code = code;
    int d = h >> 5;
    bool alm = (d == 0 || d == 2 || d == 3 || d == 4) && model6(h & 31, code);
    CHECK((almanac_healthy(&a) != 0) == alm, "almanac word judged %d, want %d", almanac_healthy(&a), alm);
  }
}
SUB(P27, ephemeris, 1, 20000, "ephemerides of every constellation with every health byte and accuracy values at, between and beyond the table entries (negative included), judged for every signal of the constellation; non-trivial: health bits or accuracy not nominal") {
  const CodeInfo &ci = CODES[c.draw((uint64_t)NCODES - 1)], &cj = pick_code_of(c, ci.con);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = ci.code;
  e.sid.sat = (u16)first_sat(ci.con);
  e.valid = (u8)!c.chance(1, 10);
  e.health_bits = c.coin() ? 0 : c.byte();
  if (ci.con == GPS) e.health_bits &= 0x3f;
  e.ura = c.coin() ? 2.0f : c.pick({-1.0f, -1e-6f, 0.0f, 2.4f, 6144.0f, 6144.001f, 1e6f, 4096.0f, 5000.0f});
  bool want = true;
  if (e.valid) switch (ci.con) {
      case GPS: want = e.ura >= 0 && e.ura <= 6144.0f && model6(e.health_bits, cj.code); break;
      case GLO: case BDS: case GAL: want = e.ura >= 0 && e.health_bits == 0; break;
      default: want = e.health_bits == 0;
    }
  c.nontrivial(e.health_bits || e.ura != 2.0f);
  c.label(want ? "healthy" : "unhealthy");
  c.note("constellation %d code %d health 0x%02x ura %g valid %d", ci.con, cj.code, e.health_bits, (double)e.ura, e.valid);
  CHECK(ephemeris_healthy(&e, cj.code) == want, "judged %d, want %d", !want, want);
}
SUB(P27, shi, 0.3, 5000, "subframe 1 word 3 health field extraction: random words; non-trivial: field not zero") {
  u32 w = (u32)c.bits(30);
  u8 got = 0xAA;
  shm_gps_decode_shi_ephemeris(w, &got);
  u8 want = 0;  // bits 17..22 of the 30-bit word, most significant first
  for (int b = 17; b <= 22; b++) want = (u8)(want << 1 | (w >> (30 - b) & 1));
  c.nontrivial(want != 0);
  CHECK(got == want, "word 0x%08x: health field 0x%02x, want 0x%02x", w, got, want);
}

// ---- P28 ------------------------------------------------------------------
SUB(P28, kepler, 3, 5000, "ephemerides of all Keplerian systems and signals, MEO/IGSO/GEO, eccentricity from 0 to the largest that can be broadcast, 0.5 (and near zero), semi-major axes from 25 to 49 thousand km, full-range harmonic terms, reference times at week ends, times over the whole window; non-trivial: all but defaults (ecc > 0 or week crossing)") {
  satellite_orbit_type_t orbit = MEO;
  const CodeInfo &ci = pick_code(c, {GPS, GAL, BDS, QZS});
  if (ci.con == BDS) orbit = c.pick({MEO, IGSO, GEO});
  else if (ci.con == QZS) orbit = c.pick({MEO, IGSO});
  ephemeris_t e = gen_kepler(c, ci, orbit);
  gps_time_t t = gen_time(c, e, ci.con, 0);
  c.nontrivial(e.data.kepler.ecc > 0 || t.wn != e.toe.wn);
  if (t.wn != e.toe.wn) c.label("week crossing");
  if (orbit == GEO) c.label("GEO");
  if (e.data.kepler.ecc < 1e-4) c.label("near circular");
  else if (e.data.kepler.ecc > 0.05) c.label("eccentric");
  c.note("%s t %d/%.6f", eph_text(e, orbit).c_str(), t.wn, t.tow);
  Out r;
  CHECK(state(e, t, orbit, r) == 0, "state query failed inside the window");
  State m = kepler_model(e, t, ci, orbit);
  LD dp[3];
  for (int i = 0; i < 3; i++) dp[i] = m.p[i] - r.p[i];
  LD tol = 1e-4L + 5000 * fabsl(m.rel);
  CHECK(norm3(dp) < tol, "position off by %.3Lg m (%.4f %.4f %.4f, published algorithm %.4Lf %.4Lf %.4Lf)", norm3(dp), r.p[0], r.p[1], r.p[2], m.p[0], m.p[1], m.p[2]);
  CHECK(fabsl(m.clk - r.clk) < 1e-13L, "clock offset %.15g s, published algorithm %.15Lg", r.clk, m.clk);
  CHECK(fabsl(m.rate - r.rate) < 1e-17L + 1e-12L * fabsl(m.rate) || fabsl(m.rate - r.rate) < 1e-8L * e.data.kepler.ecc, "clock drift %.15g, published algorithm %.15Lg", r.rate, m.rate);
}
SUB(P28, unchecked, 0.5, 1000, "the state query without validity check agrees bit for bit with the checked one and obeys the model at any time of the ephemeris week, in or out of the window; non-trivial: outside the window") {
  satellite_orbit_type_t orbit = MEO;
  const CodeInfo &ci = pick_code(c, {GPS, GAL, BDS, QZS});
  if (ci.con == BDS) orbit = c.pick({MEO, IGSO, GEO});
  ephemeris_t e = gen_kepler(c, ci, orbit);
  gps_time_t t = e.toe;
  t.tow += c.real(-300000, 300000);
  normalize_gps_time(&t);
  Out r, q;
  CHECK(calc_sat_state_n(&e, &t, orbit, r.p, r.v, r.a, &r.clk, &r.rate) == 0, "unchecked query failed");
  if (state(e, t, orbit, q) == 0) {
    for (int i = 0; i < 3; i++) CHECK(q.p[i] == r.p[i] && q.v[i] == r.v[i] && q.a[i] == r.a[i], "checked and unchecked queries differ");
    CHECK(q.clk == r.clk && q.rate == r.rate, "checked and unchecked clocks differ");
  } else {
    c.nontrivial();
  }
  State m = kepler_model(e, t, ci, orbit);
  LD dp[3];
  for (int i = 0; i < 3; i++) dp[i] = m.p[i] - r.p[i];
  c.note("%s t %d/%.6f", eph_text(e, orbit).c_str(), t.wn, t.tow);
  CHECK(norm3(dp) < 1e-4L + 5000 * fabsl(m.rel), "position off by %.3Lg m", norm3(dp));
}
SUB(P28, almanac, 0.7, 2000, "GPS almanacs with every field random at broadcast resolution, times over the whole window; non-trivial: always") {
  almanac_t a = gen_almanac(c, GPS);
  if (a.toa.wn < 10) a.toa.wn = 10;
  gps_time_t t = a.toa;
  t.tow += c.real(-(double)(a.fit_interval / 2), (double)(a.fit_interval / 2));
  normalize_gps_time(&t);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  const CodeInfo *ci = nullptr;
  for (auto &x : CODES) if (x.code == a.sid.code) ci = &x;
  ephemeris_kepler_t &k = e.data.kepler;
  const almanac_kepler_t &q = a.data.kepler;
  e.toe = k.toc = a.toa;
  k.m0 = q.m0; k.ecc = q.ecc; k.sqrta = q.sqrta; k.omega0 = q.omega0; k.omegadot = q.omegadot; k.w = q.w; k.inc = q.inc; k.af0 = q.af0; k.af1 = q.af1;
  c.nontrivial();
  c.note("almanac sat %d toa %d/%.0f t %d/%.4f sqrta %.6f ecc %.8g inc %.6f", a.sid.sat, a.toa.wn, a.toa.tow, t.wn, t.tow, q.sqrta, q.ecc, q.inc);
  Out r;
  CHECK(calc_sat_state_almanac(&a, &t, r.p, r.v, r.a, &r.clk, &r.rate) == 0, "almanac state failed inside its window");
  State m = kepler_model(e, t, *ci, MEO);
  LD dp[3];
  for (int i = 0; i < 3; i++) dp[i] = m.p[i] - r.p[i];
  CHECK(norm3(dp) < 1e-4L + 5000 * fabsl(m.rel), "almanac position off by %.3Lg m", norm3(dp));
  // the almanac clock model of the interface document has no relativistic term; the library adds it
  CHECK(fabsl(m.clk - r.clk) < 1e-13L || fabsl(m.clk - m.rel - r.clk) < 1e-13L, "almanac clock %.15g, model %.15Lg (relativistic part %.3Lg)", r.clk, m.clk, m.rel);
  CHECK(r.rate == q.af1, "almanac clock drift %.15g, broadcast %.15g", r.rate, q.af1);
}

// ---- P29 ------------------------------------------------------------------
namespace {
// fourth-order numerical derivative of a state component
template <class F> void derivative(const gps_time_t &t, double h, F f, double *out, int n) {
  double s[4][3];
  double k[4] = {-2, -1, 1, 2};
  double dt[4];
  for (int i = 0; i < 4; i++) {
    gps_time_t q = t;
    q.tow += k[i] * h;
    normalize_gps_time(&q);
    dt[i] = (double)diff(q, t);
    f(q, s[i]);
  }
  (void)dt;
  for (int j = 0; j < n; j++) out[j] = (s[0][j] - 8 * s[1][j] + 8 * s[2][j] - s[3][j]) / (12 * h);
}
// relativistic part of the clock: -2 r.v/c^2, its rate -2 (v.v + r.a)/c^2 in the inertial frame; the broadcast drift leaves it out
double rel_slack(double sqrta, double ecc, double crs, double crc) {
  double A = sqrta * sqrta, n = sqrt(3.986005e14 / (A * A * A));
  return 2.0 * (A * A * ecc * n * n * 1.5 / (1 - ecc) + A * 4 * n * n * (fabs(crs) + fabs(crc)) * 1.5 / pow(1 - ecc, 4)) / (299792458.0 * 299792458.0);
}
template <class Q> void check_derivatives(Case &c, Q query, const gps_time_t &t, double rel, const std::string &txt) {
  c.note("%s t %d/%.6f", txt.c_str(), t.wn, t.tow);
  Out r;
  CHECK(query(&t, r) == 0, "state query failed");
  const double h = 8;
  double v[3], a[3], ck[3];
  derivative(t, h, [&](const gps_time_t &q, double *o) { Out s; CHECK(query(&q, s) == 0, "state query failed"); memcpy(o, s.p, 24); }, v, 3);
  derivative(t, h, [&](const gps_time_t &q, double *o) { Out s; CHECK(query(&q, s) == 0, "state query failed"); memcpy(o, s.v, 24); }, a, 3);
  derivative(t, h, [&](const gps_time_t &q, double *o) { Out s; CHECK(query(&q, s) == 0, "state query failed"); o[0] = s.clk; o[1] = o[2] = 0; }, ck, 1);
  // the states are functions of satellite time minus clock offset: relative slack of the clock drift
  double slack = fabs(r.rate) * 1.5 + 1e-10;
  for (int i = 0; i < 3; i++) {
    CHECK(fabs(v[i] - r.v[i]) < 3e-6 + 5000 * slack, "velocity[%d] %.9f m/s, derivative of the position %.9f", i, r.v[i], v[i]);
    CHECK(fabs(a[i] - r.a[i]) < 2e-8 + 3 * slack, "acceleration[%d] %.12f m/s^2, derivative of the velocity %.12f", i, r.a[i], a[i]);
  }
  CHECK(fabs(ck[0] - r.rate) < rel + 1e-15, "clock drift %.12g, derivative of the clock offset %.12g (slack for the relativistic term %.3g)", r.rate, ck[0], rel);
}
void check_eph_derivatives(Case &c, const ephemeris_t &e, const gps_time_t &t, satellite_orbit_type_t orbit, Con con, const std::string &txt) {
  const ephemeris_kepler_t &k = e.data.kepler;
  double rel = con != GLO && con != SBAS ? rel_slack(k.sqrta, k.ecc, k.crs, k.crc) : 0;
  check_derivatives(c, [&](const gps_time_t *q, Out &s) { return calc_sat_state_n(&e, q, orbit, s.p, s.v, s.a, &s.clk, &s.rate); }, t, rel, txt);
}
}  // namespace
SUB(P29, kepler, 3, 2000, "Keplerian ephemerides of all systems and orbit types with full-range fields, times inside the window; velocity, acceleration and drift against fourth-order differences; non-trivial: eccentricity > 0.001 or GEO") {
  satellite_orbit_type_t orbit = MEO;
  const CodeInfo &ci = pick_code(c, {GPS, GAL, BDS, QZS});
  if (ci.con == BDS) orbit = c.pick({MEO, IGSO, GEO});
  ephemeris_t e = gen_kepler(c, ci, orbit);
  gps_time_t t = gen_time(c, e, ci.con, 0);
  c.nontrivial(e.data.kepler.ecc > 0.001 || orbit == GEO);
  c.label(orbit == GEO ? "GEO" : orbit == IGSO ? "IGSO" : "MEO");
  check_eph_derivatives(c, e, t, orbit, ci.con, eph_text(e, orbit));
}
SUB(P29, glonass_sbas, 1, 2000, "GLONASS and SBAS ephemerides, times inside the window; velocity, acceleration and drift against fourth-order differences; non-trivial: always") {
  Con con = c.pick({GLO, SBAS});
  const CodeInfo &ci = pick_code_of(c, con);
  ephemeris_t e = con == GLO ? gen_glo(c, ci) : gen_sbas(c, ci);
  gps_time_t t = gen_time(c, e, con, 40);
  c.nontrivial();
  c.label(con == GLO ? "GLONASS" : "SBAS");
  check_eph_derivatives(c, e, t, MEO, con, eph_text(e, MEO));
}
SUB(P29, almanac, 1, 2000, "GPS and SBAS almanacs with every field random, times inside the window; velocity, acceleration and drift against fourth-order differences; non-trivial: always") {
  Con con = c.pick({GPS, SBAS});
  almanac_t a = gen_almanac(c, con);
  if (a.toa.wn < 10) a.toa.wn = 10;
  if (a.fit_interval < 3600) a.fit_interval = 3600;
  gps_time_t t = a.toa;
  double h = a.fit_interval / 2 - 20.0;
  t.tow += c.real(-h, h);
  normalize_gps_time(&t);
  c.nontrivial();
  c.label(con == GPS ? "GPS" : "SBAS");
  char txt[200];
  snprintf(txt, sizeof txt, "almanac code %d sat %d toa %d/%.0f fit %u", a.sid.code, a.sid.sat, a.toa.wn, a.toa.tow, a.fit_interval);
  check_derivatives(c, [&](const gps_time_t *q, Out &s) { return calc_sat_state_almanac(&a, q, s.p, s.v, s.a, &s.clk, &s.rate); }, t,
                    con == GPS ? rel_slack(a.data.kepler.sqrta, a.data.kepler.ecc, 0, 0) : 0, txt);
}

// ---- P30 ------------------------------------------------------------------
namespace {
void glo_rhs(const LD *y, const double *acc, LD *d) {
  const LD mu = 3.986004418e14L, ae = 6378136.0L, J = 1.08262575e-3L, w = 7.292115e-5L;
  LD r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], r = sqrtl(r2), r3 = r2 * r, r5 = r3 * r2;
  LD z2 = y[2] * y[2] / r2, g = 1.5L * J * mu * ae * ae / r5;
  d[0] = y[3]; d[1] = y[4]; d[2] = y[5];
  d[3] = -mu / r3 * y[0] - g * y[0] * (1 - 5 * z2) + w * w * y[0] + 2 * w * y[4] + acc[0];
  d[4] = -mu / r3 * y[1] - g * y[1] * (1 - 5 * z2) + w * w * y[1] - 2 * w * y[3] + acc[1];
  d[5] = -mu / r3 * y[2] - g * y[2] * (3 - 5 * z2) + acc[2];
}
void glo_integrate(const ephemeris_glo_t &g, LD dt, LD *y) {
  for (int i = 0; i < 3; i++) { y[i] = g.pos[i]; y[3 + i] = g.vel[i]; }
  int n = (int)ceill(fabsl(dt) / 4) + 1;
  LD h = dt / n;
  for (int s = 0; s < n; s++) {
    LD k1[6], k2[6], k3[6], k4[6], t[6];
    glo_rhs(y, g.acc, k1);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k1[i];
    glo_rhs(t, g.acc, k2);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k2[i];
    glo_rhs(t, g.acc, k3);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h * k3[i];
    glo_rhs(t, g.acc, k4);
    for (int i = 0; i < 6; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
}
}  // namespace
SUB(P30, glonass, 2, 2000, "GLONASS broadcast states on near-circular orbits with random phase, node, luni-solar terms and clocks, queried at any time of the window (and exactly at the reference time) against a fine long double integration of the published equations; non-trivial: more than one 30 s step away") {
  const CodeInfo &ci = pick_code_of(c, GLO);
  ephemeris_t e = gen_glo(c, ci);
  gps_time_t t = c.chance(1, 20) ? e.toe : gen_time(c, e, GLO, 0);
  const ephemeris_glo_t &g = e.data.glo;
  LD dt = diff(t, e.toe), clk = -(LD)g.tau + (LD)g.gamma * dt - model_tgd(e, ci), tk = dt - clk;
  c.nontrivial(fabsl(dt) > 30);
  c.label(dt < 0 ? "backwards" : "forwards");
  c.note("code %d toe %d/%.0f dt %.6Lf pos %.3f %.3f %.3f vel %.6f %.6f %.6f tau %.4g gamma %.4g", e.sid.code, e.toe.wn, e.toe.tow, dt, g.pos[0], g.pos[1], g.pos[2], g.vel[0], g.vel[1], g.vel[2], g.tau, g.gamma);
  LD y[6], d[6];
  glo_integrate(g, tk, y);
  glo_rhs(y, g.acc, d);
  Out r;
  CHECK(state(e, t, MEO, r) == 0, "state query failed inside the window");
  for (int i = 0; i < 3; i++) {
    CHECK(fabsl(r.p[i] - y[i]) < 2e-3L, "position[%d] %.6f m, integration %.6Lf", i, r.p[i], y[i]);
    CHECK(fabsl(r.v[i] - y[3 + i]) < 5e-6L, "velocity[%d] %.9f m/s, integration %.9Lf", i, r.v[i], y[3 + i]);
    CHECK(fabsl(r.a[i] - d[3 + i]) < 1e-8L, "acceleration[%d] %.12f, equations of motion %.12Lf", i, r.a[i], d[3 + i]);
  }
  CHECK(fabsl(r.clk - clk) < 1e-15L, "clock %.15g, model %.15Lg", r.clk, clk);
  CHECK(r.rate == g.gamma, "drift %.15g, broadcast %.15g", r.rate, g.gamma);
}
SUB(P30, glonass_continuity, 1, 2000, "GLONASS states a tiny time apart, placed around the integration step boundaries and the reference time: differ by velocity x time only; non-trivial: straddles a step boundary") {
  const CodeInfo &ci = pick_code_of(c, GLO);
  ephemeris_t e = gen_glo(c, ci);
  const ephemeris_glo_t &g = e.data.glo;
  double clk0 = (double)(-(LD)g.tau - model_tgd(e, ci));
  double lim = (double)(e.fit_interval / 2) - 2;
  double at = 30.0 * (double)c.range(-(int64_t)(lim / 30), (int64_t)(lim / 30)) + clk0;
  double eps = c.pick({1e-3, 1e-2, 1e-1});
  gps_time_t t1 = e.toe, t2 = e.toe;
  t1.tow += at - eps;
  t2.tow += at + eps;
  normalize_gps_time(&t1);
  normalize_gps_time(&t2);
  c.nontrivial();
  Out a, b;
  CHECK(state(e, t1, MEO, a) == 0 && state(e, t2, MEO, b) == 0, "state query failed inside the window");
  double dt = (double)diff(t2, t1);
  c.note("boundary %.4f s eps %g", at, eps);
  for (int i = 0; i < 3; i++) {
    double mid = (a.v[i] + b.v[i]) / 2 * dt;
    CHECK(fabs(b.p[i] - a.p[i] - mid) < 2e-5, "jump of %.6g m across %.4f s", b.p[i] - a.p[i] - mid, at);
    double midv = (a.a[i] + b.a[i]) / 2 * dt;
    CHECK(fabs(b.v[i] - a.v[i] - midv) < 1e-7, "velocity jump of %.6g m/s across %.4f s", b.v[i] - a.v[i] - midv, at);
  }
}
SUB(P30, sbas, 1, 2000, "SBAS broadcast states, any time within a day of the reference; non-trivial: always") {
  const CodeInfo &ci = pick_code_of(c, SBAS);
  ephemeris_t e = gen_sbas(c, ci);
  gps_time_t t = e.toe;
  t.tow += c.chance(1, 10) ? 0 : c.real(-86400, 86400);
  normalize_gps_time(&t);
  const ephemeris_xyz_t &x = e.data.xyz;
  LD dt = diff(t, e.toe), clk = x.a_gf0 + dt * (LD)x.a_gf1, tk = dt - clk;
  c.nontrivial();
  c.note("dt %.4Lf", dt);
  Out r;
  CHECK(state(e, t, MEO, r) == 0, "state query failed");
  for (int i = 0; i < 3; i++) {
    LD p = x.pos[i] + x.vel[i] * tk + 0.5L * x.acc[i] * tk * tk, v = x.vel[i] + x.acc[i] * tk;
    CHECK(fabsl(r.p[i] - p) < 1e-6L, "position[%d] %.6f, polynomial %.6Lf", i, r.p[i], p);
    CHECK(fabsl(r.v[i] - v) < 1e-10L && r.a[i] == x.acc[i], "velocity[%d] %.9f, polynomial %.9Lf", i, r.v[i], v);
  }
  CHECK(fabsl(r.clk - clk) < 1e-15L && r.rate == x.a_gf1, "clock %.12g drift %.12g, broadcast %.12Lg %.12g", r.clk, r.rate, clk, x.a_gf1);
  // almanac variant
  almanac_t a;
  memset(&a, 0, sizeof a);
  a.sid = e.sid; a.toa = e.toe; a.valid = 1; a.ura = 900; a.fit_interval = 2 * 86400;
  memcpy(a.data.xyz.pos, x.pos, 24); memcpy(a.data.xyz.vel, x.vel, 24); memcpy(a.data.xyz.acc, x.acc, 24);
  Out q;
  CHECK(calc_sat_state_almanac(&a, &t, q.p, q.v, q.a, &q.clk, &q.rate) == 0, "almanac state query failed");
  for (int i = 0; i < 3; i++) {
    LD p = x.pos[i] + x.vel[i] * dt + 0.5L * x.acc[i] * dt * dt;
    CHECK(fabsl(q.p[i] - p) < 1e-6L, "almanac position[%d] %.6f, polynomial %.6Lf", i, q.p[i], p);
    LD v = x.vel[i] + x.acc[i] * dt;
    CHECK(fabsl(q.v[i] - v) < 1e-10L && q.a[i] == x.acc[i], "almanac velocity[%d] %.9f, polynomial %.9Lf; acceleration %.9g, broadcast %.9g", i, q.v[i], v, q.a[i], x.acc[i]);
  }
  CHECK(q.clk == 0 && q.rate == 0, "almanac clock %.12g drift %.12g", q.clk, q.rate);
}

// ---- P31 ------------------------------------------------------------------
namespace {
void gen_rx(Case &c, double *p) {
  double lat = c.real(-1.5707963, 1.5707963), lon = c.real(-3.14159265, 3.14159265), h = c.chance(1, 6) ? c.real(1e4, 1.5e6) : c.real(-400, 9000);
  double N = 6378137.0 / sqrt(1 - 0.00669437999014 * sin(lat) * sin(lat));
  p[0] = (N + h) * cos(lat) * cos(lon);
  p[1] = (N + h) * cos(lat) * sin(lon);
  p[2] = (N * (1 - 0.00669437999014) + h) * sin(lat);
}
void model_azel(const double *sat, const double *rx, double &az, double &el) {
  // geodetic direction at the receiver by iterating the latitude
  LD x = rx[0], y = rx[1], z = rx[2], p = hypotl(x, y), e2 = 0.00669437999014131699614L;
  LD lat = atan2l(z, p * (1 - e2)), lon = atan2l(y, x);
  for (int i = 0; i < 60; i++) { LD N = 6378137.0L / sqrtl(1 - e2 * sinl(lat) * sinl(lat)); lat = atan2l(z + e2 * N * sinl(lat), p); }
  LD d[3] = {sat[0] - x, sat[1] - y, sat[2] - z};
  LD n = -sinl(lat) * cosl(lon) * d[0] - sinl(lat) * sinl(lon) * d[1] + cosl(lat) * d[2];
  LD ea = -sinl(lon) * d[0] + cosl(lon) * d[1];
  LD u = cosl(lat) * cosl(lon) * d[0] + cosl(lat) * sinl(lon) * d[1] + sinl(lat) * d[2];
  az = (double)atan2l(ea, n);
  if (az < 0) az += 2 * M_PI;
  el = (double)atan2l(u, hypotl(n, ea));
}
bool azel_close(double a1, double e1, double a2, double e2, double tol) {
  double da = fabs(remainder(a1 - a2, 2 * M_PI)) * cos(e1);
  return da < tol && fabs(e1 - e2) < tol;
}
int doppler_sign() {
  // calibrated once: satellite straight up moving away from a static receiver
  static int s = 0;
  if (s) return s;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = CODE_SBAS_L1CA; e.sid.sat = 120; e.valid = 1; e.ura = 1; e.fit_interval = 100; e.toe.wn = 2000;
  e.data.xyz.pos[0] = 42164e3; e.data.xyz.vel[0] = 10;
  double ref[3] = {6378137, 0, 0}, v[3] = {0, 0, 0}, d = 0;
  gps_time_t t = e.toe;
  if (calc_sat_doppler(&e, &t, ref, v, MEO, &d) || d == 0) return 1;
  return s = d > 0 ? 1 : -1;
}
}  // namespace
SUB(P31, ephemeris, 2, 5000, "ephemerides of every constellation and signal seen from receivers anywhere on, near or above the Earth, static, moving at any velocity or moving with the satellite; non-trivial: moving receiver") {
  setup_glo_map();
  satellite_orbit_type_t orbit;
  const CodeInfo *ci = nullptr;
  ephemeris_t e = gen_any(c, orbit, ci, true);
  gps_time_t t = gen_time(c, e, ci->con, 1);
  double rx[3], rv[3] = {0, 0, 0};
  gen_rx(c, rx);
  Out r;
  CHECK(state(e, t, orbit, r) == 0, "state query failed");
  int motion = (int)c.draw(2);
  if (motion == 1) for (int i = 0; i < 3; i++) rv[i] = c.real(-1000, 1000);
  if (motion == 2) memcpy(rv, r.v, sizeof rv);
  c.nontrivial(motion > 0);
  c.label(motion == 0 ? "static" : motion == 1 ? "moving" : "with the satellite");
  c.note("%s t %d/%.4f rx %.1f %.1f %.1f vel %.3f %.3f %.3f", eph_text(e, orbit).c_str(), t.wn, t.tow, rx[0], rx[1], rx[2], rv[0], rv[1], rv[2]);
  double az, el, az2, el2, maz, mel;
  CHECK(calc_sat_az_el(&e, &t, rx, orbit, &az, &el, true) == 0 && calc_sat_az_el(&e, &t, rx, orbit, &az2, &el2, false) == 0, "look angle query failed");
  CHECK(az == az2 && el == el2, "look angles differ with and without validity check");
  {  // without the check the validity fields play no part
    ephemeris_t x = e;
    int how = (int)c.draw(2);
    if (how == 0) x.valid = 0; else if (how == 1) x.fit_interval = 0; else x.health_bits = 0x3f;
    az2 = el2 = 7;
    Out rx2;
    CHECK(calc_sat_az_el(&x, &t, rx, orbit, &az2, &el2, false) == 0 && az == az2 && el == el2, "look angles without validity check of an ephemeris spoilt in way %d are %.17g %.17g", how, az2, el2);
    CHECK(calc_sat_state_n(&x, &t, orbit, rx2.p, rx2.v, rx2.a, &rx2.clk, &rx2.rate) == 0 && !memcmp(rx2.p, r.p, sizeof r.p) && rx2.clk == r.clk, "state without validity check of an ephemeris spoilt in way %d differs", how);
    if (how != 2) CHECK(calc_sat_az_el(&x, &t, rx, orbit, &az2, &el2, true) != 0, "look angles of an unusable ephemeris (%d)", how);
  }
  CHECK(az >= 0 && az <= 2 * M_PI && el >= -M_PI / 2 && el <= M_PI / 2, "look angles out of range: %.17g %.17g", az, el);
  model_azel(r.p, rx, maz, mel);
  CHECK(azel_close(az, el, maz, mel, 1e-7), "look angles %.10f %.10f, from the state %.10f %.10f", az, el, maz, mel);
  double dop;
  CHECK(calc_sat_doppler(&e, &t, rx, rv, orbit, &dop) == 0, "Doppler query failed");
  LD los[3], n;
  for (int i = 0; i < 3; i++) los[i] = (LD)r.p[i] - rx[i];
  n = norm3(los);
  LD rr = 0;
  for (int i = 0; i < 3; i++) rr += los[i] / n * ((LD)r.v[i] - rv[i]);
  LD want = doppler_sign() * carrier(*ci, e.sid.sat) * rr / Cl;
  CHECK(fabsl(want - dop) < 1e-6L + 1e-12L * fabsl(want), "Doppler %.6f Hz, relative radial velocity %.6Lf m/s gives %.6Lf Hz", dop, rr, want);
  if (motion == 0 && ci->con != SBAS) {
    gps_time_t q[2] = {t, t};
    double h = 0.5, rg[2];
    q[0].tow -= h;
    q[1].tow += h;
    for (int j = 0; j < 2; j++) {
      normalize_gps_time(&q[j]);
      Out s;
      calc_sat_state_n(&e, &q[j], orbit, s.p, s.v, s.a, &s.clk, &s.rate);
      rg[j] = sqrt((s.p[0] - rx[0]) * (s.p[0] - rx[0]) + (s.p[1] - rx[1]) * (s.p[1] - rx[1]) + (s.p[2] - rx[2]) * (s.p[2] - rx[2]));
    }
    double num = doppler_sign() * (double)carrier(*ci, e.sid.sat) * (rg[1] - rg[0]) / (2 * h) / 299792458.0;
    CHECK(fabs(num - dop) < 2e-3 + 3e-3 * fabs(r.rate) * 1e9, "Doppler %.6f Hz, differentiated range gives %.6f Hz", dop, num);
  }
}
SUB(P31, almanac, 1, 3000, "GPS and SBAS almanacs seen from receivers anywhere; same sign convention as for ephemerides; non-trivial: always") {
  Con con = c.pick({GPS, SBAS});
  almanac_t a = gen_almanac(c, con);
  if (a.toa.wn < 10) a.toa.wn = 10;
  gps_time_t t = a.toa;
  t.tow += c.real(-(double)(a.fit_interval / 2), (double)(a.fit_interval / 2));
  normalize_gps_time(&t);
  double rx[3];
  gen_rx(c, rx);
  Out r;
  CHECK(calc_sat_state_almanac(&a, &t, r.p, r.v, r.a, &r.clk, &r.rate) == 0, "almanac state query failed");
  c.nontrivial();
  double az, el, maz, mel, dop;
  CHECK(calc_sat_az_el_almanac(&a, &t, rx, &az, &el) == 0 && calc_sat_doppler_almanac(&a, &t, rx, &dop) == 0, "almanac queries failed");
  model_azel(r.p, rx, maz, mel);
  CHECK(azel_close(az, el, maz, mel, 1e-7), "look angles %.10f %.10f, from the state %.10f %.10f", az, el, maz, mel);
  LD los[3], n, rr = 0;
  for (int i = 0; i < 3; i++) los[i] = (LD)r.p[i] - rx[i];
  n = norm3(los);
  for (int i = 0; i < 3; i++) rr += los[i] / n * (LD)r.v[i];
  LD hz = a.sid.code == CODE_GPS_L2CM ? 120 * F0 : 154 * F0;
  LD want = doppler_sign() * hz * rr / Cl;
  CHECK(fabsl(want - dop) < 1e-6L + 1e-12L * fabsl(want), "Doppler %.6f Hz, want %.6Lf Hz", dop, want);
}

// ---- P32 ------------------------------------------------------------------
SUB(P32, tgd, 1, 20000, "every signal of every constellation with a group delay, broadcast delays random over their range; the signal differs from the ephemeris' own; non-trivial: delay not zero") {
  setup_glo_map();
  const CodeInfo &ci = pick_code(c, {GPS, GLO, BDS, QZS, GAL});
  const CodeInfo &own = pick_code_of(c, ci.con);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.valid = 1;
  e.sid.code = own.code;
  e.sid.sat = (u16)(first_sat(ci.con) + c.draw((uint64_t)num_sat(ci.con) - 1));
  gnss_signal_t sid = e.sid;
  sid.code = ci.code;
  if (ci.con == GLO) e.data.glo.d_tau = sraw(c, 5) * p2(-30);
  else {
    double lsb = ci.con == GAL ? p2(-32) : ci.con == BDS ? 1e-10 : p2(-31);
    e.data.kepler.tgd.gps_s[0] = (float)(sraw(c, 10) * lsb);
    e.data.kepler.tgd.gps_s[1] = (float)(sraw(c, 10) * lsb);
  }
  LD want = model_tgd(e, ci);
  float got = 12345;
  c.nontrivial(want != 0);
  c.note("ephemeris of code %d, signal code %d, delays %g %g / %g", own.code, ci.code, (double)e.data.kepler.tgd.gps_s[0], (double)e.data.kepler.tgd.gps_s[1], e.data.glo.d_tau);
  const ephemeris_t e0 = e;
  CHECK(get_tgd_correction(&e, &sid, &got) == 0, "no correction returned");
  CHECK(fabsl(got - want) <= 2e-7L * fabsl(want) + 1e-20L, "correction %.9g s, defined as %.9Lg s", (double)got, want);
  CHECK(memcmp(&e, &e0, sizeof e) == 0, "ephemeris changed");
}

// ---- P33 ------------------------------------------------------------------
namespace {
struct Fld { const char *name; double ephemeris_kepler_t::*k; double lsb; };
const Fld KF[] = {{"crc", &ephemeris_kepler_t::crc, 0.03125}, {"crs", &ephemeris_kepler_t::crs, 0.03125}, {"cuc", &ephemeris_kepler_t::cuc, 0x1p-31},
                  {"cus", &ephemeris_kepler_t::cus, 0x1p-31}, {"cic", &ephemeris_kepler_t::cic, 0x1p-31}, {"cis", &ephemeris_kepler_t::cis, 0x1p-31},
                  {"dn", &ephemeris_kepler_t::dn, 0x1p-43 * 3.1415926535898}, {"m0", &ephemeris_kepler_t::m0, 0x1p-31 * 3.1415926535898},
                  {"ecc", &ephemeris_kepler_t::ecc, 0x1p-33}, {"sqrta", &ephemeris_kepler_t::sqrta, 0x1p-19},
                  {"omega0", &ephemeris_kepler_t::omega0, 0x1p-31 * 3.1415926535898}, {"omegadot", &ephemeris_kepler_t::omegadot, 0x1p-43 * 3.1415926535898},
                  {"w", &ephemeris_kepler_t::w, 0x1p-31 * 3.1415926535898}, {"inc", &ephemeris_kepler_t::inc, 0x1p-31 * 3.1415926535898},
                  {"inc_dot", &ephemeris_kepler_t::inc_dot, 0x1p-43 * 3.1415926535898}, {"af0", &ephemeris_kepler_t::af0, 0x1p-34},
                  {"af1", &ephemeris_kepler_t::af1, 0x1p-46}, {"af2", &ephemeris_kepler_t::af2, 0x1p-59}};
const int NKF = sizeof(KF) / sizeof(KF[0]);
const double RES = 1e-12;
}  // namespace
SUB(P33, ephemeris, 2, 20000, "an ephemeris of any constellation against a copy, and a copy with exactly one field changed by some steps of its broadcast resolution, either sign; both argument orders; the ignored fields (accuracy, fit interval, source) changed at will; non-trivial: a field changed") {
  satellite_orbit_type_t orbit;
  const CodeInfo *ci = nullptr;
  ephemeris_t a = gen_any(c, orbit, ci, true), b = a;
  Con con = ci->con;
  CHECK(ephemeris_equal(&a, &a), "not equal to itself");
  if (c.coin()) { b.ura = (float)c.real(0, 100); b.fit_interval = (u32)c.draw(100000); b.source = (u8)c.draw(2); }
  CHECK(ephemeris_equal(&a, &b) && ephemeris_equal(&b, &a), "copies differ");
  double sub = 0;  // size of the change when a double was changed
  bool changed = true;
  const char *what = "";
  auto bump = [&](double &x, double lsb, const char *name) {
    what = name;
    double n = c.coin() ? (double)(1 + c.draw(15)) : (double)(1 + c.u(30000));
    if (c.chance(1, 6)) lsb = fmax(lsb, 2e-12);  // any field by more than the comparison resolution
    double old = x;
    x = old + (c.coin() ? n : -n) * lsb;
    sub = fabs(x - old);
    if (x == old) changed = false;
  };
  int f = (int)c.draw(7);
  if (f == 0) {
    int g = (int)c.draw(5);
    switch (g) {
      case 0: b.sid.sat = (u16)(a.sid.sat == first_sat(con) ? a.sid.sat + 1 : a.sid.sat - 1); what = "satellite"; break;
      case 1: { const CodeInfo &o = CODES[c.draw((uint64_t)NCODES - 1)]; b.sid.code = o.code; changed = o.code != a.sid.code; what = "code"; break; }
      case 2: b.valid = !a.valid; what = "valid"; break;
      case 3: b.health_bits = (u8)(a.health_bits ^ (1u << c.draw(7))); what = "health"; break;
      case 4: b.toe.wn = (s16)(a.toe.wn + c.pick({1, -1, 7})); what = "toe week"; break;
      default: b.toe.tow = a.toe.tow + c.pick({16.0, -16.0, 1.0, 0.5}); what = "toe"; break;
    }
  } else if (con == GLO) {
    ephemeris_glo_t &g = b.data.glo;
    switch (c.draw(13)) {
      case 0: bump(g.gamma, p2(-40), "gamma"); break;
      case 1: bump(g.tau, p2(-30), "tau"); break;
      case 2: bump(g.d_tau, p2(-30), "d_tau"); break;
      case 3: case 4: case 5: { int i = (int)c.draw(2); bump(g.pos[i], p2(-11) * 1e3, "pos"); break; }
      case 6: case 7: case 8: { int i = (int)c.draw(2); bump(g.vel[i], p2(-20) * 1e3, "vel"); break; }
      case 9: case 10: case 11: { int i = (int)c.draw(2); bump(g.acc[i], p2(-30) * 1e3, "acc"); break; }
      case 12: g.fcn = (u16)(g.fcn ^ (1u << c.draw(3))); what = "fcn"; break;
      default: g.iod = (u8)(g.iod ^ (1u << c.draw(6))); what = "iod"; break;
    }
  } else if (con == SBAS) {
    ephemeris_xyz_t &x = b.data.xyz;
    switch (c.draw(4)) {
      case 0: bump(x.a_gf0, p2(-31), "a_gf0"); break;
      case 1: bump(x.a_gf1, p2(-40), "a_gf1"); break;
      case 2: { int i = (int)c.draw(2); bump(x.pos[i], 0.08, "pos"); break; }
      case 3: { int i = (int)c.draw(2); bump(x.vel[i], 0.000625, "vel"); break; }
      default: { int i = (int)c.draw(2); bump(x.acc[i], 0.0000125, "acc"); break; }
    }
  } else {
    ephemeris_kepler_t &k = b.data.kepler;
    switch (c.draw(7)) {
      case 0: { int i = (int)c.draw(1); double x = k.tgd.gps_s[i]; bump(x, con == BDS ? 1e-10 : p2(-32), i ? "tgd[1]" : "tgd[0]"); k.tgd.gps_s[i] = (float)x;
        sub = fabs((double)k.tgd.gps_s[i] - (double)a.data.kepler.tgd.gps_s[i]); changed = sub > 0; break; }
      case 1: k.toc.wn = (s16)(k.toc.wn + c.pick({1, -1})); what = "toc week"; break;
      case 2: k.toc.tow += c.pick({16.0, -16.0, 1.0}); what = "toc"; break;
      case 3: k.iodc = (u16)(k.iodc ^ (1u << c.draw(9))); what = "iodc"; break;
      case 4: k.iode = (u16)(k.iode ^ (1u << c.draw(9))); what = "iode"; break;
      default: { const Fld &q = KF[c.draw(NKF - 1)]; bump(k.*(q.k), q.lsb, q.name); break; }
    }
  }
  c.nontrivial(changed && !(sub > 0 && sub <= RES * 1.0001));
  if (!changed) { return; }
  c.note("constellation %d code %d field %s changed by %.6g", con, a.sid.code, what, sub);
  if (sub > 0 && sub <= RES * 1.0001) {
    // finer than the comparison resolution: the known finding's probe covers it
    c.label("sub-resolution");
    return;
  }
  c.label("one field");
  CHECK(!ephemeris_equal(&a, &b), "a change of %s is not seen", what);
  CHECK(!ephemeris_equal(&b, &a), "a change of %s is not seen with arguments exchanged", what);
}
SUB(P33, almanac, 1, 10000, "GPS, SBAS and GLONASS almanacs against copies with exactly one field changed by some broadcast steps, both orders; non-trivial: a field changed") {
  Con con = c.pick({GPS, SBAS, GLO});
  almanac_t a;
  if (con == GLO) {
    memset(&a, 0, sizeof a);
    a.sid.code = CODE_GLO_L1OF; a.sid.sat = (u16)(1 + c.draw(27)); a.valid = 1; a.ura = 900; a.fit_interval = 86400; a.toa.wn = 2000; a.toa.tow = 900;
    almanac_glo_t &g = a.data.glo;
    g.lambda = sraw(c, 21) * p2(-20); g.t_lambda = (double)c.draw((1 << 21) - 1) * p2(-5); g.i = 0.35 + sraw(c, 18) * p2(-20); g.t = 43200 + sraw(c, 22) * p2(-9);
    g.t_dot = sraw(c, 7) * p2(-14); g.epsilon = (double)c.draw(32767) * p2(-20); g.omega = sraw(c, 16) * p2(-15);
  } else a = gen_almanac(c, con);
  almanac_t b = a;
  CHECK(almanac_equal(&a, &a) && almanac_equal(&a, &b) && almanac_equal(&b, &a), "copies differ");
  const char *what = "";
  auto bump = [&](double &x, double lsb, const char *n) { what = n; x += (c.coin() ? 1 : -1) * lsb * (double)(1 + c.draw(c.coin() ? 3 : 1000)); };
  if (c.chance(1, 3)) {
    switch (c.draw(7)) {
      case 0: b.sid.sat++; what = "satellite"; break;
      case 1: b.sid.code = con == GPS ? (a.sid.code == CODE_GPS_L1CA ? CODE_GPS_L2CM : CODE_GPS_L1CA) : con == GLO ? CODE_GLO_L2OF : CODE_SBAS_L5I; what = "code"; break;
      case 2: b.ura = a.ura + c.pick({1.0f, -1.0f, 100.0f}); what = "ura"; break;
      case 3: b.fit_interval = a.fit_interval + 1; what = "fit interval"; break;
      case 4: b.valid = !a.valid; what = "valid"; break;
      case 5: b.health_bits = (u8)(a.health_bits ^ (1u << c.draw(7))); what = "health"; break;
      case 6: b.toa.wn++; what = "toa week"; break;
      default: b.toa.tow += c.pick({4096.0, 1.0, -1.0}); what = "toa"; break;
    }
  } else if (con == GPS) {
    almanac_kepler_t &k = b.data.kepler;
    switch (c.draw(8)) {
      case 0: bump(k.m0, p2(-23) * PI_B, "m0"); break;
      case 1: bump(k.ecc, p2(-21), "ecc"); break;
      case 2: bump(k.sqrta, p2(-11), "sqrta"); break;
      case 3: bump(k.omega0, p2(-23) * PI_B, "omega0"); break;
      case 4: bump(k.omegadot, p2(-38) * PI_B, "omegadot"); break;
      case 5: bump(k.w, p2(-23) * PI_B, "w"); break;
      case 6: bump(k.inc, p2(-19) * PI_B, "inc"); break;
      case 7: bump(k.af0, p2(-20), "af0"); break;
      default: bump(k.af1, p2(-38), "af1"); break;
    }
  } else if (con == SBAS) {
    int i = (int)c.draw(2);
    switch (c.draw(2)) {
      case 0: bump(b.data.xyz.pos[i], 2600, "pos"); break;
      case 1: bump(b.data.xyz.vel[i], 10, "vel"); break;
      default: bump(b.data.xyz.acc[i], 0.0000125, "acc"); break;
    }
  } else {
    almanac_glo_t &g = b.data.glo;
    switch (c.draw(6)) {
      case 0: bump(g.lambda, p2(-20), "lambda"); break;
      case 1: bump(g.t_lambda, p2(-5), "t_lambda"); break;
      case 2: bump(g.i, p2(-20), "i"); break;
      case 3: bump(g.t, p2(-9), "t"); break;
      case 4: bump(g.t_dot, p2(-14), "t_dot"); break;
      case 5: bump(g.epsilon, p2(-20), "epsilon"); break;
      default: bump(g.omega, p2(-15), "omega"); break;
    }
  }
  c.nontrivial();
  c.label(con == GPS ? "GPS" : con == SBAS ? "SBAS" : "GLONASS");
  c.note("field %s", what);
  CHECK(!almanac_equal(&a, &b) && !almanac_equal(&b, &a), "a change of %s is not seen", what);
}
SUB(P33, random_pairs, 0.5, 5000, "two ephemerides of one satellite, some fields equal, some not: equality is symmetric; non-trivial: always") {
  satellite_orbit_type_t orbit;
  const CodeInfo *ci = nullptr;
  ephemeris_t a = gen_any(c, orbit, ci, false), b = a;
  int n = (int)c.draw(3);
  for (int i = 0; i < n; i++) {
    if (ci->con == GLO) { double &x = (&b.data.glo.gamma)[c.draw(2)]; x += c.pick({1e-13, -1e-12, 2e-12}); }
    else if (ci->con == SBAS) b.data.xyz.a_gf1 += c.pick({1e-13, -2e-12});
    else { const Fld &q = KF[c.draw(NKF - 1)]; b.data.kepler.*(q.k) += c.pick({1e-13, -1e-13, 2e-12, -2e-12}); }
  }
  c.nontrivial();
  CHECK(ephemeris_equal(&a, &b) == ephemeris_equal(&b, &a), "equality depends on the order");
}
static bool probe_subres(std::string &what) {
  ephemeris_t a;
  memset(&a, 0, sizeof a);
  a.sid.code = CODE_GPS_L1CA;
  a.sid.sat = 1;
  a.data.kepler.sqrta = 5153;
  ephemeris_t b = a;
  b.data.kepler.af2 = ldexp(100, -55);
  what = "ephemeris_equal does not see broadcast steps below 1e-12 (af2 at all, small steps of af1, dn, omegadot, inc_dot, gamma, a_gf1)";
  return ephemeris_equal(&a, &b);
}
static int reg_subres = reg_probe(Probe{"P33", "sub-resolution", probe_subres});

// ---- P34 ------------------------------------------------------------------
namespace {
struct Raw { int64_t v; int n; bool sgn; };
// order and widths of the published checksum: idot af2 af1 af0 crs dn m0 cuc ecc cus sqrta cic omega0 cis i0 crc w omegadot
const int W34[18] = {14, 11, 22, 24, 18, 16, 32, 18, 32, 18, 32, 18, 32, 18, 32, 18, 32, 24};
u32 crc24_bits(const std::vector<int> &bits) {
  u32 r = 0;
  for (int b : bits) { int top = (int)((r >> 23) & 1) ^ b; r = (r << 1) & 0xffffff; if (top) r ^= 0x864CFB & 0xffffff; }
  return r;
}
ephemeris_t bds_from_raw(const int64_t *v) {
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = CODE_BDS2_B1;
  e.sid.sat = 7;
  ephemeris_kepler_t &k = e.data.kepler;
  k.inc_dot = (double)v[0] * p2(-43) * PI_B; k.af2 = (double)v[1] * p2(-66); k.af1 = (double)v[2] * p2(-50); k.af0 = (double)v[3] * p2(-33);
  k.crs = (double)v[4] * p2(-6); k.dn = (double)v[5] * p2(-43) * PI_B; k.m0 = (double)v[6] * p2(-31) * PI_B; k.cuc = (double)v[7] * p2(-31);
  k.ecc = (double)v[8] * p2(-33); k.cus = (double)v[9] * p2(-31); k.sqrta = (double)v[10] * p2(-19); k.cic = (double)v[11] * p2(-31);
  k.omega0 = (double)v[12] * p2(-31) * PI_B; k.cis = (double)v[13] * p2(-31); k.inc = (double)v[14] * p2(-31) * PI_B; k.crc = (double)v[15] * p2(-6);
  k.w = (double)v[16] * p2(-31) * PI_B; k.omegadot = (double)v[17] * p2(-43) * PI_B;
  return e;
}
u32 model_crc(const int64_t *v) {
  std::vector<int> bits;
  for (int f = 0; f < 18; f++) for (int b = W34[f] - 1; b >= 0; b--) bits.push_back((int)((uint64_t)v[f] >> b & 1));
  for (int i = 0; i < 5; i++) bits.push_back(0);
  return crc24_bits(bits);
}
}  // namespace
SUB(P34, checksum, 1, 20000, "BeiDou orbit and clock fields random over their full broadcast range: checksum of the encoded bits; unaffected by every other field; and after changing one field by a burst of at most 24 bits, different; non-trivial: a field changed") {
  int64_t v[18], u[18];
  for (int f = 0; f < 18; f++) {
    uint64_t r = c.bits((unsigned)W34[f]);
    bool uns = f == 8 || f == 10;
    v[f] = uns ? (int64_t)r : (int64_t)(r << (64 - W34[f])) >> (64 - W34[f]);
  }
  ephemeris_t a = bds_from_raw(v), b = a;
  u32 got = get_bds2_iod_crc(&a);
  c.note("idot %ld af0 %ld sqrta %ld", (long)v[0], (long)v[3], (long)v[10]);
  CHECK(got == model_crc(v), "checksum 0x%06x, of the encoded bits 0x%06x", got, model_crc(v));
  // other fields have no influence
  b.sid.sat = (u16)(1 + c.draw(62)); b.sid.code = c.pick({CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B3I}); b.toe.wn = (s16)c.draw(4000); b.toe.tow = c.real(0, 604799); b.ura = (float)c.real(0, 100);
  b.fit_interval = (u32)c.draw(90000); b.valid = (u8)c.draw(1); b.health_bits = c.byte(); b.source = (u8)c.draw(2);
  b.data.kepler.toc.tow = c.real(0, 604799); b.data.kepler.toc.wn = (s16)c.draw(4000); b.data.kepler.iode = (u16)c.draw(240); b.data.kepler.iodc = (u16)c.draw(240);
  b.data.kepler.tgd.bds_s[0] = (float)c.real(-1e-8, 1e-8); b.data.kepler.tgd.bds_s[1] = (float)c.real(-1e-8, 1e-8);
  CHECK(get_bds2_iod_crc(&b) == got, "checksum depends on fields other than orbit and clock");
  // one changed field
  memcpy(u, v, sizeof u);
  int f = (int)c.draw(17), n = W34[f], len = (int)(1 + c.draw((uint64_t)std::min(n, 24) - 1)), at = (int)c.draw((uint64_t)(n - len));
  uint64_t pat = (c.bits((unsigned)len) | 1) | 1ull << (len - 1);
  uint64_t raw = ((uint64_t)v[f] & ((n == 64 ? 0 : 1ull << n) - 1)) ^ (pat & ((1ull << len) - 1)) << at;
  bool uns = f == 8 || f == 10;
  u[f] = uns ? (int64_t)raw : (int64_t)(raw << (64 - n)) >> (64 - n);
  ephemeris_t d = bds_from_raw(u);
  c.nontrivial();
  CHECK(get_bds2_iod_crc(&d) != got, "checksum unchanged after changing field %d from %ld to %ld", f, (long)v[f], (long)u[f]);
}
SUB(P34, decoded, 0.5, 2000, "BeiDou ephemerides produced by the D1 decoder from random subframes: the checksum is that of the bits in the subframes; non-trivial: always") {
  u32 w[3][10];
  for (auto &s : w) for (auto &x : s) x = (u32)c.bits(30);
  gnss_signal_t sid;
  sid.code = CODE_BDS2_B1;
  sid.sat = (u16)(1 + c.draw(62));
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid = sid;
  decode_bds_d1_ephemeris(w, sid, &e);
  const ephemeris_kepler_t &k = e.data.kepler;
  // back to integers by rounding, in long double
  const LD P = 3.1415926535898L;
  int64_t v[18] = {llroundl(k.inc_dot / P * 0x1p43L), llroundl((LD)k.af2 * 0x1p66L), llroundl((LD)k.af1 * 0x1p50L), llroundl((LD)k.af0 * 0x1p33L), llroundl((LD)k.crs * 64),
                   llroundl(k.dn / P * 0x1p43L), llroundl(k.m0 / P * 0x1p31L), llroundl((LD)k.cuc * 0x1p31L), llroundl((LD)k.ecc * 0x1p33L), llroundl((LD)k.cus * 0x1p31L),
                   llroundl((LD)k.sqrta * 0x1p19L), llroundl((LD)k.cic * 0x1p31L), llroundl(k.omega0 / P * 0x1p31L), llroundl((LD)k.cis * 0x1p31L), llroundl(k.inc / P * 0x1p31L),
                   llroundl((LD)k.crc * 64), llroundl(k.w / P * 0x1p31L), llroundl(k.omegadot / P * 0x1p43L)};
  c.nontrivial();
  for (int i = 0; i < 18; i++) c.note("%ld", (long)v[i]);
  CHECK(get_bds2_iod_crc(&e) == model_crc(v), "checksum 0x%06x, of the broadcast bits 0x%06x", get_bds2_iod_crc(&e), model_crc(v));
}
