// P40, P41: ionospheric and tropospheric delay.
#include "pbt.h"
#include "atmo_model.h"
#include <string.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/troposphere.h>
using namespace pbt;

namespace {
using namespace atmo_model;

double gen_tow(Case &c) {
  return c.coin() ? c.real(0, 604800) : (double)c.draw(6) * 86400 + c.pick({0.0, 43200.0, 50400.0, 86399.999, 72000.0, 21600.0});
}
double s8v(Case &c) { return (double)c.range(-128, 127); }
ionosphere_t gen_params(Case &c) {
  ionosphere_t p;
  memset(&p, 0, sizeof p);
  if (c.chance(1, 10)) return p;
  if (c.chance(1, 4)) {  // typical broadcast values
    double lim = 1 + (double)c.draw(2);
    p.a0 = (double)(5 + c.draw(30)) * 0x1p-30; p.a1 = c.range(-8, 8) * lim * 0x1p-27; p.a2 = c.range(-4, 4) * 0x1p-24; p.a3 = c.range(-4, 4) * 0x1p-24;
    p.b0 = (double)(35 + c.draw(40)) * 2048; p.b1 = (double)c.range(-8, 8) * 16384; p.b2 = (double)c.range(-8, 8) * 65536; p.b3 = (double)c.range(-8, 8) * 65536;
  } else {
    p.a0 = s8v(c) * 0x1p-30; p.a1 = s8v(c) * 0x1p-27; p.a2 = s8v(c) * 0x1p-24; p.a3 = s8v(c) * 0x1p-24;
    p.b0 = s8v(c) * 2048; p.b1 = s8v(c) * 16384; p.b2 = s8v(c) * 65536; p.b3 = s8v(c) * 65536;
  }
  return p;
}
}  // namespace

// ---------------------------------------------------------------- P40
SUB(P40, klobuchar, 4, 50000, "any coefficient set (whole broadcast range and typical ones), second of the week, receiver anywhere (poles, date line), azimuth and elevation 0..90 degrees, against the published formulas in extended precision (skipped within 1e-9 of the day/night switch and a microsecond of local midnight, where the published formula jumps); never below the night constant times the obliquity; same value a day later, a turn of longitude and a turn of azimuth away; non-trivial: on the day side with an amplitude") {
  ionosphere_t p = gen_params(c);
  double tow = gen_tow(c);
  LD lat = c.coin() ? (LD)c.real(-0.5, 0.5) : (LD)c.pick({0.0, 0.5, -0.5, 0.416, -0.416, 0.25});
  LD lon = c.coin() ? (LD)c.real(-1, 1) : (LD)c.pick({0.0, 1.0, -1.0, 0.617, -0.383, 0.5});
  LD az = c.coin() ? (LD)c.real(0, 2) : (LD)c.pick({0.0, 0.5, 1.0, 1.5, 2.0});
  LD el = c.coin() ? (LD)c.real(0, 0.5) : (LD)c.pick({0.0, 0.5, 0.0278, 0.1});
  double dlat = (double)(lat * PIl), dlon = (double)(lon * PIl), daz = (double)(az * PIl), del = (double)(el * PIl);
  gps_time_t t;
  t.wn = (s16)c.draw(4000); t.tow = tow;
  LD x, F, loc;
  LD want = klobuchar(tow, lat, lon, az, el, p, x, F, loc);
  ionosphere_t p0 = p;
  gps_time_t t0 = t;
  double got = calc_ionosphere(&t, dlat, dlon, daz, del, &p);
  CHECK(memcmp(&p, &p0, sizeof p) == 0 && memcmp(&t, &t0, sizeof t) == 0, "input modified");
  c.note("tow %.3f lat %.6Lf lon %.6Lf az %.6Lf el %.6Lf semicircles, phase %.4Lf: %.6f", tow, lat, lon, az, el, x, got);
  bool day = fabsl(x) < 1.57L;
  c.nontrivial(day && want > F * 5e-9L * Cl * 1.001L);
  c.label(day ? "day" : "night");
  LD night = F * 5e-9L * Cl;
  CHECK(isfinite(got) && got >= (double)(night * (1 - 1e-12L)), "%.9f m is below the night value %.9Lf", got, night);
  // a jump at the day/night switch, wherever rounding puts it; also where the local time wraps
  bool edge = fabsl(fabsl(x) - 1.57L) < 1e-9L || loc < 1e-6L || loc > 86400 - 1e-6L;
  if (!edge) {
    CHECK(fabsl(got - want) <= 1e-9L * (1 + want), "delay %.12f m not %.12Lf m", got, want);
    gps_time_t u = t;
    u.tow = tow >= 86400 ? tow - 86400 : tow + 86400;
    double g2 = calc_ionosphere(&u, dlat, dlon, daz, del, &p);
    CHECK(near(g2, got, 1e-8, 1e-8), "a day later %.12f m, not %.12f m", g2, got);
    double g3 = calc_ionosphere(&t, dlat, (double)((lon > 0 ? lon - 2 : lon + 2) * PIl), daz, del, &p);
    CHECK(near(g3, got, 1e-8, 1e-8), "a turn of longitude away %.12f m, not %.12f m", g3, got);
    double g4 = calc_ionosphere(&t, dlat, dlon, (double)((az - 2) * PIl), del, &p);
    CHECK(near(g4, got, 1e-8, 1e-8), "a turn of azimuth away %.12f m, not %.12f m", g4, got);
  }
}
SUB(P40, gps_page, 1, 20000, "subframe 4 pages with any data identifier, page identifier, coefficients, parity and spare bits: page 56 of data set 1 decodes to the transmitted coefficients, any other is rejected; non-trivial: the right page") {
  u32 w[8];
  for (u32 &x : w) x = c.u32();
  int kind = (int)c.draw(5);
  u32 id = kind <= 3 ? 1 : (u32)c.draw(3), sv = kind <= 3 ? 56 : c.coin() ? (u32)c.draw(63) : 56u ^ (1u << c.draw(5));
  int v[8];
  for (int &x : v) x = (int)s8v(c);
  auto put = [&](int word, int first, int n, u32 val) {  // bits numbered from 1, most significant of 30
    for (int i = 0; i < n; i++) {
      u32 m = 1u << (30 - (first + i));
      if (val >> (n - 1 - i) & 1) w[word - 3] |= m;
      else w[word - 3] &= ~m;
    }
  };
  put(3, 1, 2, id); put(3, 3, 6, sv);
  put(3, 9, 8, (u32)v[0] & 255); put(3, 17, 8, (u32)v[1] & 255);
  put(4, 1, 8, (u32)v[2] & 255); put(4, 9, 8, (u32)v[3] & 255); put(4, 17, 8, (u32)v[4] & 255);
  put(5, 1, 8, (u32)v[5] & 255); put(5, 9, 8, (u32)v[6] & 255); put(5, 17, 8, (u32)v[7] & 255);
  Buf in(sizeof w);
  memcpy(in.p, w, sizeof w);
  ionosphere_t p;
  u8 dirt = (u8)c.pick({0x5A, 0x00, 0xFF});
  memset(&p, dirt, sizeof p);
  bool ok = decode_iono_parameters((const u32 *)in.p, &p);
  bool want = id == 1 && sv == 56;
  c.nontrivial(want);
  c.note("data id %u page id %u", id, sv);
  CHECK(memcmp(in.p, w, sizeof w) == 0, "input modified");
  CHECK(ok == want, "data id %u page %u %s", id, sv, ok ? "accepted" : "rejected");
  if (want) {
    double a[8] = {v[0] * 0x1p-30, v[1] * 0x1p-27, v[2] * 0x1p-24, v[3] * 0x1p-24, v[4] * 0x1p11, v[5] * 0x1p14, v[6] * 0x1p16, v[7] * 0x1p16};
    double b[8] = {p.a0, p.a1, p.a2, p.a3, p.b0, p.b1, p.b2, p.b3};
    for (int i = 0; i < 8; i++) CHECK(near(a[i], b[i], 0, 1e-15), "coefficient %d is %.12g not %.12g", i, b[i], a[i]);
    // the page carries no time: what is stored must not be left over from before
    ionosphere_t q;
    memset(&q, 0x3C, sizeof q);
    decode_iono_parameters((const u32 *)in.p, &q);
    CHECK(memcmp(&p.toa.wn, &q.toa.wn, sizeof q.toa.wn) == 0 && memcmp(&p.toa.tow, &q.toa.tow, sizeof q.toa.tow) == 0, "time of applicability depends on what the structure held before");
  }
}
SUB(P40, beidou_page, 1, 20000, "BeiDou D1 subframe 1 with any content: the eight coefficients and the week decode to the transmitted values; non-trivial: always") {
  u32 w[10];
  for (u32 &x : w) x = c.u32();
  int v[8];
  for (int &x : v) x = (int)s8v(c);
  u32 wn = (u32)c.u(8191);
  // bit offsets in the 300-bit subframe, most significant first
  auto put = [&](int pos, int n, u32 val) {
    for (int i = 0; i < n; i++) {
      int b = pos + i;
      u32 m = 1u << (29 - b % 30);
      if (val >> (n - 1 - i) & 1) w[b / 30] |= m;
      else w[b / 30] &= ~m;
    }
  };
  put(60, 13, wn);
  put(126, 8, (u32)v[0] & 255); put(134, 8, (u32)v[1] & 255);
  put(150, 8, (u32)v[2] & 255); put(158, 8, (u32)v[3] & 255);
  put(166, 6, ((u32)v[4] & 255) >> 2); put(180, 2, (u32)v[4] & 3);
  put(182, 8, (u32)v[5] & 255); put(190, 8, (u32)v[6] & 255);
  put(198, 4, ((u32)v[7] & 255) >> 4); put(210, 4, (u32)v[7] & 15);
  Buf in(sizeof w);
  memcpy(in.p, w, sizeof w);
  ionosphere_t p;
  memset(&p, 0x5A, sizeof p);
  c.nontrivial();
  c.note("week %u coefficients %d %d %d %d %d %d %d %d", wn, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
  decode_bds_d1_iono((const u32 *)in.p, &p);
  CHECK(memcmp(in.p, w, sizeof w) == 0, "input modified");
  double a[8] = {v[0] * 0x1p-30, v[1] * 0x1p-27, v[2] * 0x1p-24, v[3] * 0x1p-24, v[4] * 0x1p11, v[5] * 0x1p14, v[6] * 0x1p16, v[7] * 0x1p16};
  double b[8] = {p.a0, p.a1, p.a2, p.a3, p.b0, p.b1, p.b2, p.b3};
  for (int i = 0; i < 8; i++) CHECK(near(a[i], b[i], 0, 1e-15), "coefficient %d is %.12g not %.12g", i, b[i], a[i]);
  CHECK(p.toa.wn == (int)wn + 1356, "week %d not %u", p.toa.wn, wn + 1356);
}

// ---------------------------------------------------------------- P41
namespace {
struct Tr { double doy, lat, h, el; };  // days, degrees, metres, degrees
Tr gen_tr(Case &c) {
  Tr t;
  t.doy = c.coin() ? c.real(0, 367) : (double)(1 + c.draw(365));
  switch (c.draw(3)) {
    case 0: t.lat = c.real(-90, 90); break;
    case 1: t.lat = c.sign() * 15 * (double)c.draw(6); break;
    case 2: t.lat = c.sign() * fmax(0, fmin(90, 15 * (double)c.draw(6) + c.sign() * c.logreal(1e-9, 1))); break;
    default: t.lat = (double)c.range(-90, 90); break;
  }
  switch (c.draw(4)) {
    case 0: t.h = c.real(0, 9000); break;
    case 1: t.h = c.pick({0.0, 11000.0, 10999.999, 5000.0, -0.001, -5000.0}); break;
    case 2: t.h = c.real(-1e4, 0); break;
    case 3: t.h = c.real(9000, 12000); break;
    default: t.h = c.logreal(1e-3, 1e8); break;
  }
  switch (c.draw(3)) {
    case 0: t.el = c.real(0, 90); break;
    case 1: t.el = c.pick({90.0, 0.0, 5.0, 0.0999, 0.1001, 45.0}); break;
    case 2: t.el = c.real(-10, 5); break;
    default: t.el = c.real(3, 90); break;
  }
  return t;
}
double tropo(const Tr &t) { return calc_troposphere(t.doy, (double)(t.lat * PIl / 180), t.h, (double)(t.el * PIl / 180)); }
double ttol(LD v) { return (double)(1e-6L + 1e-5L * v); }  // the library raises to powers in single precision
}  // namespace
SUB(P41, model, 3, 20000, "any day, latitude (zone boundaries and both sides of them, poles, both hemispheres), height (negative, the 11 km top, far above) and elevation (negative to zenith) against the published model in extended precision, relative 1e-5; positive and finite inside, zero above; non-trivial: inside the troposphere above 0.1 degree") {
  Tr t = gen_tr(c);
  LD tol;
  LD want = unb3m(t.doy, t.lat, t.h, t.el, &tol);
  double got = tropo(t);
  c.nontrivial(t.h >= 0 && t.h <= 11000 && t.el > 0.1);
  c.label(t.h > 11000 ? "above" : t.h < 0 ? "below sea level" : t.el < 0.1 ? "low elevation" : t.lat < 0 ? "south" : "north");
  c.note("day %.3f lat %.6f h %.3f el %.4f: %.6f", t.doy, t.lat, t.h, t.el, got);
  if (t.h > 11000) CHECK(got == 0, "%.9f m above the troposphere", got);
  else CHECK(isfinite(got) && got > 0, "delay %.9f", got);
  CHECK(fabsl(got - want) <= (fabs(t.el - 0.1) > 1e-9 ? tol : ttol(want)), "delay %.9f m not %.9Lf m (tolerance %.2Lg)", got, want, tol);
  CHECK(got < 200, "delay %.3f m is not physical", got);
}
SUB(P41, relations, 2, 20000, "metamorphic pairs: higher elevation never longer, higher point never longer (elevation above 3 degrees), the other hemisphere half a year later equal, a year of 365.25 days later equal, negative heights equal sea level, elevations below 0.1 degree equal that of 0.1 degree, bounded by the zenith delay over the sine; non-trivial: always") {
  Tr t = gen_tr(c);
  if (t.h > 11000) t.h = c.real(0, 11000);
  if (t.lat == 0) t.lat = 1;
  double g = tropo(t);
  c.nontrivial();
  c.note("day %.3f lat %.6f h %.3f el %.4f: %.6f", t.doy, t.lat, t.h, t.el, g);
  double tol = ttol(g);
  Tr a = t;
  a.el = fmin(90, fmax(t.el, -10) + c.logreal(1e-3, 60));
  CHECK(tropo(a) <= g + tol, "higher elevation %.4f gives %.9f m", a.el, tropo(a));
  if (fmax(t.el, 0.1) * 1.02 < a.el) CHECK(tropo(a) < g + 1e-9, "higher elevation %.4f gives %.9f m", a.el, tropo(a));
  a = t;
  if (t.el > 3) {
    a.h = fmax(t.h, 0) + c.logreal(1, 5000);
    CHECK(tropo(a) <= g + tol, "higher point %.3f m gives %.9f m", a.h, tropo(a));
  }
  a = t;
  a.lat = -t.lat;
  a.doy = t.lat > 0 ? t.doy - 182.625 : t.doy + 182.625;
  CHECK(near(tropo(a), g, tol), "other hemisphere half a year away gives %.9f m", tropo(a));
  a = t;
  a.doy += 365.25;
  CHECK(near(tropo(a), g, tol), "a year later gives %.9f m", tropo(a));
  if (t.h < 0) { a = t; a.h = 0; CHECK(tropo(a) == g, "sea level gives %.9f m", tropo(a)); }
  if (t.el < 0.0999) { a = t; a.el = 0.1; CHECK(near(tropo(a), g, 1e-9, 1e-9), "0.1 degree gives %.9f m", tropo(a)); }
  a = t;
  a.el = 90;
  double z = tropo(a);
  CHECK(z > 0.3 && z < 3.0, "zenith delay %.4f m", z);
  CHECK(g >= z * (1 - 1e-6) && g <= z / sin(fmax(t.el, 0.1) * M_PI / 180) * (1 + 1e-6) + tol, "delay %.6f m against zenith %.6f m", g, z);
}
