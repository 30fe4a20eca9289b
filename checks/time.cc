// P12-P18: GPS time, week numbers, UTC, calendar, GLONASS time, UTC parameters, epochs.
#include "pbt.h"
#include <algorithm>
extern "C" {
#include <swiftnav/bits.h>
}
#include <swiftnav/gnss_time.h>
using namespace pbt;
typedef long double ld;

namespace {
const double WK = 604800, DAY = 86400;
// ---- independent calendar (proleptic Gregorian) ---------------------------
int64_t days_civil(int64_t y, int m, int d) {  // days since 1970-01-01
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
void civil(int64_t z, int64_t &y, int &m, int &d) {
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1);
  m = (int)(mp < 10 ? mp + 3 : mp - 9);
  y = yoe + era * 400 + (m <= 2);
}
const int64_t D1980 = 3657;  // 1980-01-06
// ---- leap seconds: first day with the new offset --------------------------
const int leap_ym[18][2] = {{1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7},
                            {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
// GPS seconds at which second 60 of leap k (0-based) starts
int64_t leap_gps(int k) { return (days_civil(leap_ym[k][0], leap_ym[k][1], 1) - D1980) * 86400 + k; }

struct T { int64_t wn; double tow; };
gps_time_t gt(int64_t wn, double tow) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  t.wn = (s16)wn; t.tow = tow;
  return t;
}
// difference a-b in seconds, exact enough
ld dif(const gps_time_t &a, const gps_time_t &b) { return ((ld)a.wn - b.wn) * 604800 + ((ld)a.tow - b.tow); }

double gen_tow(Case &c) {
  double t;
  switch (c.draw(6)) {
    case 0: t = (double)c.u(604799); break;
    case 1: t = c.ureal(0, WK); break;
    case 2: t = (double)c.range(0, 6) * DAY + c.sign() * c.logreal(1e-12, 20); break;
    case 3: t = (double)c.range(0, 604799) + c.sign() * c.logreal(1e-12, 0.5); break;
    case 4: t = c.pick({0.0, 604799.0, 604799.99999999, 604799.9999999999, 302400.0, 302399.9999, 302400.0001, 1e-12}); break;
    default: t = (double)c.range(0, 604799) + (double)c.range(0, 999) / 1000.0; break;
  }
  if (!(t >= 0)) t = 0;
  if (t >= WK) t = nextafter(WK, 0);
  return t;
}
gps_time_t gen_time(Case &c, int lo = 0, int hi = 32700) {
  int k = (int)c.draw(5);
  if (k <= 1 || k == 2) return gt(k == 2 ? (int)c.range(lo, hi) : std::min(hi, std::max(lo, (int)c.range(0, 3000))), gen_tow(c));
  if (k == 3) return gt(std::min(hi, std::max(lo, (int)c.pick({0, 1, 834, 1023, 1024, 1025, 1876, 2047, 2048, 2299, 2899, 3000, 32700}))), gen_tow(c));
  // near a leap second
  int64_t s = leap_gps((int)c.draw(17));
  double off = c.chance(1, 4) ? (double)c.range(-3, 3) : c.chance(1, 2) ? c.ureal(-3, 3) : (double)c.range(-2, 2) + c.sign() * (c.chance(1, 3) ? c.logreal(1e-16, 1e-9) : c.logreal(1e-10, 0.1));
  int64_t wn = s / 604800;
  double tow = (double)(s % 604800) + off;
  while (tow < 0) { tow += WK; wn--; }
  while (tow >= WK) { tow -= WK; wn++; }
  if (wn < lo) wn = lo;
  if (wn > hi) wn = hi;
  return gt(wn, tow);
}
bool okt(const gps_time_t &t) { return t.wn >= 0 && t.tow >= 0 && t.tow < WK; }
double gen_dur(Case &c) {
  switch (c.draw(5)) {
    case 0: return c.sign() * (double)c.u(2000);
    case 1: return c.sign() * c.logreal(1e-9, 1e7);
    case 2: return c.sign() * (double)c.range(0, 12) * WK;
    case 3: return c.sign() * ((double)c.range(0, 12) * WK + c.sign() * c.logreal(1e-10, 10));
    default: return c.ureal(-5e6, 5e6);
  }
}
}  // namespace

// ---- P12 ------------------------------------------------------------------
SUB(P12, normalise, 1, 20000, "times of week from far below zero to many weeks, known and unknown week: instant kept, result in range, safe variant reports times before the epoch; non-trivial: input outside [0,week)") {
  int wn = (int)c.pick({-1, 0, 1, 5, 1024, 2048, 32000});
  if (c.coin()) wn = (int)c.range(0, 32000);
  double tow = c.coin() ? gen_tow(c) + gen_dur(c) : gen_dur(c);
  if (c.chance(1, 5)) tow = c.sign() * c.logreal(1e-17, 1e-9) + (double)c.range(-3, 3) * WK;
  gps_time_t t = gt(wn, tow), o = t, q = t;
  c.note("wn=%d tow=%.17g", wn, tow);
  c.nontrivial(tow < 0 || tow >= WK);
  bool before = wn >= 0 && (ld)wn * 604800 + (ld)tow < -1e-10L;
  bool r = normalize_gps_time_safe(&t);
  if (wn < 0) {
    CHECK(r && t.wn == -1 && t.tow >= 0 && t.tow < WK, "unknown week: wn %d tow %.17g", t.wn, t.tow);
    ld d = remainderl((ld)t.tow - (ld)tow, 604800.0L);
    CHECK(fabsl(d) < 1e-8, "unknown week: tow changed by %.3Lg modulo a week", d);
    return;
  }
  CHECK(t.tow >= 0 && t.tow < WK, "tow %.17g not in [0, week)", t.tow);
  CHECK(fabsl(dif(t, o)) < 1e-8, "instant moved by %.3Lg s", dif(t, o));
  CHECK(r == gps_time_valid(&t), "safe normalisation returns %d for wn %d", r, t.wn);
  if (before) CHECK(!r, "time before the epoch accepted");
  else if ((ld)wn * 604800 + tow > 1e-9L) CHECK(r, "valid time rejected");
  unsafe_normalize_gps_time(&q);
  CHECK(q.wn == t.wn && q.tow == t.tow, "normalisations differ");
  if (r) { gps_time_t z = t; normalize_gps_time(&z); CHECK(z.wn == t.wn && z.tow == t.tow, "not idempotent"); }
}
SUB(P12, add_diff, 2, 20000, "valid times, durations up to 16 weeks either way: sum is valid and the difference returns the duration; chains of up to 30 additions; operators agree; non-trivial: a week boundary is crossed") {
  gps_time_t t0 = gen_time(c, 40, 32600), t = t0;
  int n = (int)c.size(1, 30);
  ld sum = 0, tol = 0;
  for (int i = 0; i < n; i++) {
    double d = gen_dur(c);
    if (t.wn + d / WK < 20 || t.wn + d / WK > 32650) d = -d;
    gps_time_t p = t;
    add_secs(&t, d);
    c.note("%d/%.17g + %.17g = %d/%.17g", p.wn, p.tow, d, t.wn, t.tow);
    ld e = 4e-10L + 2e-16L * fabsl((ld)d) ;
    CHECK(okt(t), "result wn %d tow %.17g is not a valid time", t.wn, t.tow);
    CHECK(fabsl(dif(t, p) - d) <= e, "added %.12g but time moved by %.12Lg", d, dif(t, p));
    double g = gpsdifftime(&t, &p);
    CHECK(fabs(g - d) <= 4e-10 + 4e-16 * fabs(d), "difference %.15g after adding %.15g", g, d);
    CHECK(g == -gpsdifftime(&p, &t), "difference not antisymmetric");
    gps_time_t s1 = p + d, s2 = d + p, s3 = p - (-d), s4 = p, s5 = p;
    s4 += d; s5 -= -d;
    for (auto s : {s1, s2, s3, s4, s5}) CHECK(s.wn == t.wn && s.tow == t.tow, "operators disagree with add_secs");
    CHECK(t - p == g, "operator- disagrees");
    c.nontrivial(t.wn != p.wn);
    sum += d; tol += e;
  }
  CHECK(fabsl(dif(t, t0) - sum) <= tol, "chain moved by %.12Lg, expected %.12Lg", dif(t, t0), sum);
  double a = gpsdifftime(&t, &t0);
  gps_time_t m = gen_time(c);
  double b = gpsdifftime(&t, &m) + gpsdifftime(&m, &t0);
  CHECK(fabs(a - b) <= 1e-5, "differences not additive: %.9f and %.9f", a, b);
}
SUB(P12, compare, 2, 20000, "pairs and triples of times, equal, close or far: comparison operators, range test, week/second difference agree with the instants; non-trivial: different weeks") {
  gps_time_t a = gen_time(c), b = a;
  switch (c.draw(3)) {
    case 0: b = gen_time(c); break;
    case 1: b = a; break;
    default: { double d = gen_dur(c); if (a.wn + d / WK > 0 && a.wn + d / WK < 32700) add_secs(&b, d); break; }
  }
  gps_time_t e = c.coin() ? gen_time(c) : b;
  if (c.coin()) { double d = gen_dur(c); if (e.wn + d / WK > 0 && e.wn + d / WK < 32700) add_secs(&e, d); }
  c.note("a=%d/%.17g b=%d/%.17g e=%d/%.17g", a.wn, a.tow, b.wn, b.tow, e.wn, e.tow);
  c.nontrivial(a.wn != b.wn);
  ld d = dif(a, b);
  double g = gpsdifftime(&a, &b);
  CHECK(fabsl(g - d) <= 1e-15L * fabsl(d) + (a.wn == b.wn ? 0 : 2e-10L), "difference %.17g, expected %.17Lg", g, d);
  if (fabsl(d) > 1e-5L || d == 0) {
    CHECK((a < b) == (d < 0) && (a > b) == (d > 0) && (a == b) == (d == 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0), "comparison operators wrong for difference %.17Lg", d);
  }
  if (fabsl(d) > (a.wn == b.wn ? 2e-12L : 1e-9L + 1e-15L * fabsl(d))) CHECK((a < b) == (d < 0) && (a > b) == (d > 0) && !(a == b), "comparison operators wrong for difference %.17Lg", d);
  CHECK((a < b) == (b > a), "< and > disagree");
  gps_time_duration_t w;
  CHECK(gpsdifftime_week_second(&a, &b, &w), "valid times rejected");
  CHECK(fabsl((ld)w.weeks * 604800 + w.seconds - d) < 1e-9L + 1e-18L * fabsl(d), "week/second difference %d,%.17g for %.17Lg", w.weeks, w.seconds, d);
  CHECK(fabs(w.seconds) < WK && !(w.weeks > 0 && w.seconds < 0) && !(w.weeks < 0 && w.seconds > 0), "week/second difference %d,%.17g not normalised", w.weeks, w.seconds);
  // range: e within [b, a]?
  ld sb = dif(e, b), rg = dif(a, b);
  if ((fabsl(sb) > 1e-5L || sb == 0) && (fabsl(sb - rg) > 1e-5L || (sb == rg && e.wn == a.wn)))
    CHECK(gpstime_in_range(&b, &a, &e) == (sb >= 0 && sb <= rg), "range test wrong: %.9Lg in [0,%.9Lg]", sb, rg);
  // unknown week
  gps_time_t u = a;
  u.wn = WN_UNKNOWN;
  double h = gpsdifftime(&u, &b), h2 = gpsdifftime(&b, &u);
  CHECK(fabs(h) <= WK / 2 && fabsl(remainderl((ld)h - ((ld)a.tow - b.tow), 604800)) < 1e-9L, "unknown week difference %.12g", h);
  CHECK(h == -h2 || fabs(fabs(h) - WK / 2) < 1e-6, "unknown week difference not antisymmetric");
  gps_time_duration_t z;
  CHECK(!gpsdifftime_week_second(&u, &b, &z) && z.weeks == 0 && z.seconds == 0, "unknown week accepted");
  CHECK(!(u == b), "unknown-week time equals a known one");
}
SUB(P12, duration, 1, 10000, "week/second durations of any sign mix and size: total kept, seconds below a week, signs agree, idempotent; non-trivial: signs differ or seconds exceed a week") {
  gps_time_duration_t d;
  memset(&d, 0, sizeof d);
  d.weeks = (s16)c.range(-30000, 30000);
  if (c.coin()) d.weeks = (s16)c.range(-3, 3);
  d.seconds = c.chance(1, 3) ? c.sign() * c.logreal(1e-15, 1e8) : gen_dur(c);
  gps_time_duration_t o = d;
  c.note("weeks=%d seconds=%.17g", d.weeks, d.seconds);
  c.nontrivial((o.weeks > 0) != (o.seconds > 0) || fabs(o.seconds) >= WK);
  normalize_gps_time_duration(&d);
  ld ch = ((ld)d.weeks - o.weeks) * 604800 + ((ld)d.seconds - o.seconds);
  CHECK(fabsl(ch) < 1e-9L + 1e-15L * fabsl(o.seconds), "total changed by %.3Lg", ch);
  CHECK(fabs(d.seconds) < WK, "seconds %.17g not below a week", d.seconds);
  bool opp = (d.weeks > 0 && d.seconds < -1e-12) || (d.weeks < 0 && d.seconds > 1e-12);
  CHECK(!opp, "signs differ: %d weeks %.17g s", d.weeks, d.seconds);
  gps_time_duration_t e = d;
  normalize_gps_time_duration(&e);
  CHECK(e.weeks == d.weeks && e.seconds == d.seconds, "not idempotent");
}
SUB(P12, validity, 0.5, 5000, "times valid and not (negative, too large, not finite, before the epoch), reference weeks, Unix times; non-trivial: invalid time") {
  double tow = c.chance(1, 3) ? c.pick({-1.0, -1e-300, 604800.0, 1e9, (double)INFINITY, -(double)INFINITY, (double)NAN, nextafter(604800.0, 0)}) : gen_tow(c);
  int wn = c.chance(1, 4) ? (int)c.pick({-1, -2, -32768, 0, 32767}) : (int)c.range(0, 4000);
  gps_time_t t = gt(wn, tow);
  bool v = wn >= 0 && tow >= 0 && tow < WK;
  c.nontrivial(!v);
  CHECK(gps_time_valid(&t) == v, "gps_time_valid(%d, %.17g)", wn, tow);
  u16 ref = c.coin() ? (u16)c.range(0, 4000) : (u16)std::max(0, wn - (int)c.pick({0, 1, 1022, 1023, 1024}));
  CHECK(gps_current_time_valid_with_wn_ref(&t, ref) == (v && wn >= ref && wn < ref + 1023), "current time valid: wn %d ref %u", wn, ref);
  CHECK(gps_current_time_valid(&t) == (v && wn >= GPS_WEEK_REFERENCE && wn < GPS_WEEK_REFERENCE + 1023), "current time valid: wn %d", wn);
  time_t u = c.coin() ? (time_t)c.range(0, 6000000000LL) : (time_t)ref * 604800 + 315964800 + (time_t)c.range(-2, 2);
  CHECK(unix_time_valid_with_wn_ref(&u, ref) == (u >= 0 && u > (time_t)ref * 604800 + 315964800), "unix_time_valid(%lld, %u)", (long long)u, ref);
  CHECK(unix_time_valid(&u) == (u > (time_t)GPS_WEEK_REFERENCE * 604800 + 315964800), "unix_time_valid(%lld)", (long long)u);
}

// ---- P13 ------------------------------------------------------------------
SUB(P13, match_weeks, 2, 20000, "a true time within half a week of the reference with its week removed: the week is recovered; any time of week against any reference; non-trivial: the weeks differ") {
  gps_time_t ref = gen_time(c, 1, 32600), t;
  if (c.coin()) {
    double d = c.chance(1, 4) ? c.sign() * (WK / 2 - c.logreal(1e-3, 1e4)) : c.ureal(-WK / 2, WK / 2);
    t = ref;
    add_secs(&t, d);
    gps_time_t m = t;
    m.wn = WN_UNKNOWN;
    c.note("t=%d/%.9f ref=%d/%.9f", t.wn, t.tow, ref.wn, ref.tow);
    c.nontrivial(t.wn != ref.wn);
    CHECK(gps_time_match_weeks_safe(&m, &ref), "failed");
    if (fabs(fabs(d) - WK / 2) > 1e-6) CHECK(m.wn == t.wn && m.tow == t.tow, "week %d recovered, expected %d", m.wn, t.wn);
    gps_time_t q = t;
    gps_time_match_weeks(&q, &ref);
    if (fabs(fabs(d) - WK / 2) > 1e-6) CHECK(q.wn == t.wn && q.tow == t.tow, "already correct week changed to %d", q.wn);
  } else {
    t = gt(c.coin() ? -1 : (int)c.range(0, 4000), gen_tow(c));
    double tow = t.tow;
    c.note("tow=%.9f ref=%d/%.9f", t.tow, ref.wn, ref.tow);
    CHECK(gps_time_match_weeks_safe(&t, &ref), "failed");
    c.nontrivial(t.wn != ref.wn);
    CHECK(t.tow == tow && fabsl(dif(t, ref)) <= WK / 2 + 1e-9L, "%.9Lg s from the reference", dif(t, ref));
    gps_time_t o = t;
    gps_time_t un = ref;
    un.wn = WN_UNKNOWN;
    CHECK(gps_time_match_weeks_safe(&t, &un) && t.wn == o.wn && t.tow == o.tow, "unknown reference changes the time");
  }
  // the week before the epoch is reported, not returned as valid
  gps_time_t z = gt(-1, 604000), zr = gt(0, 100);
  CHECK(!gps_time_match_weeks_safe(&z, &zr), "week before the epoch accepted");
}
SUB(P13, cycles, 2, 20000, "truncated weeks (8 and 10 bits) against any reference: congruent, first one not earlier; full weeks unchanged; non-trivial: at least one roll-over") {
  int ref = c.coin() ? (int)c.range(0, 4000) : (int)c.range(0, 64511);
  for (int bits : {8, 10}) {
    int mod = 1 << bits;
    int raw = c.chance(1, 3) ? (ref + (int)c.range(-1, 1) + mod) % mod : (int)c.u(mod - 1);
    u16 r = bits == 8 ? gps_adjust_week_cycle256((u16)raw, (u16)ref) : gps_adjust_week_cycle((u16)raw, (u16)ref);
    c.note("bits=%d raw=%d ref=%d -> %u", bits, raw, ref, r);
    c.nontrivial(r >= mod);
    CHECK(r % mod == raw, "week %u is not congruent to %d modulo %d", r, raw, mod);
    int want = raw;
    while (want < ref) want += mod;
    CHECK(r == want, "week %u from raw %d reference %d, expected %d", r, raw, ref, want);
    int full = ref + (int)c.u(mod - 1);
    u16 f = bits == 8 ? gps_adjust_week_cycle256((u16)full, (u16)ref) : gps_adjust_week_cycle((u16)full, (u16)ref);
    CHECK(f == full, "full week %d changed to %u (reference %d)", full, f, ref);
    int tr = full % mod;
    u16 g = bits == 8 ? gps_adjust_week_cycle256((u16)tr, (u16)ref) : gps_adjust_week_cycle((u16)tr, (u16)ref);
    CHECK(g == full, "week %d truncated to %d recovered as %u (reference %d)", full, tr, g, ref);
  }
}

// ---- P14 ------------------------------------------------------------------
namespace {
// UTC parameters: integer and fractional parts, leap event at a real midnight (a second inserted, removed or none)
utc_params_t gen_params(Case &c, bool allow_frac, int lo = 200, int hi = 4000, bool quad = true) {
  utc_params_t p;
  memset(&p, 0, sizeof p);
  int ls = c.coin() ? (int)c.range(14, 20) : (int)c.range(0, 60);
  p.dt_ls = (s8)ls;
  p.dt_lsf = (s8)(ls + (c.coin() ? 1 : c.chance(1, 3) ? -1 : 0));
  if (allow_frac && c.chance(3, 4)) {
    p.a0 = (double)(int32_t)c.bits(32) * 9.313225746154785e-10;
    p.a1 = (double)((int32_t)(c.bits(24) << 8) >> 8) * 8.881784197001252e-16;
    if (c.chance(1, 3)) { p.a0 *= 1e-6; p.a1 *= 1e-6; }
    if (quad && c.chance(1, 4)) p.a2 = c.ureal(-1, 1) * 128 * 3.3881317890172014e-21;
  }
  int64_t wn = c.range(lo, hi);
  int dn = (int)c.range(1, 7);
  p.tot = gt(wn + c.range(-20, 20), (double)(4096 * c.range(0, 147)));
  if (p.tot.tow >= WK) { p.tot.tow -= WK; p.tot.wn++; }
  p.t_lse = gt(wn, dn * DAY);
  if (p.t_lse.tow >= WK) { p.t_lse.tow -= WK; p.t_lse.wn++; }
  // the GPS time x after the GPS label of midnight at which UTC says midnight
  ld lab = dif(p.t_lse, p.tot), x = p.dt_ls;
  for (int i = 0; i < 8; i++) x = p.dt_ls + (ld)p.a0 + (ld)p.a1 * (lab + x) + (ld)p.a2 * (lab + x) * (lab + x);
  p.t_lse.tow += (double)x;
  while (p.t_lse.tow < 0) { p.t_lse.tow += WK; p.t_lse.wn--; }
  while (p.t_lse.tow >= WK) { p.t_lse.tow -= WK; p.t_lse.wn++; }
  return p;
}
// whether e seconds after t_lse a switch of the offset (or the start of second 60) is within tol
bool at_switch(ld e, ld tol, const utc_params_t *p) {
  return fabsl(e) < tol || fabsl(e - 1) < tol || (p && p->dt_lsf < p->dt_ls && fabsl(e + 1) < tol);
}
// the true offset at GPS time t, and whether second 60 is in progress.
// edge is set when t is within rounding of a switch.
ld true_offset(const gps_time_t &t, const utc_params_t *p, bool &lse, bool &edge) {
  lse = edge = false;
  if (p) {
    ld dt = dif(t, p->tot);
    ld poly = (ld)p->a0 + (ld)p->a1 * dt + (ld)p->a2 * dt * dt;
    ld e = dif(t, p->t_lse);
    bool frac = p->a0 != 0 || p->a1 != 0 || p->a2 != 0;
    if (frac && at_switch(e, 1e-7L, p)) edge = true;
    lse = p->dt_lsf > p->dt_ls && e >= 0 && e < 1;
    // the day of the event ends a second later, a second earlier, or as usual
    bool after = e >= p->dt_lsf - p->dt_ls;
    return poly + (after ? p->dt_lsf : p->dt_ls);
  }
  int n = 0;
  for (int k = 0; k < 18; k++) {
    ld e = (ld)((int64_t)t.wn * 604800 - leap_gps(k)) + t.tow;
    if (e >= 1) n = k + 1;
    else if (e >= 0) lse = true;
  }
  return n;
}
struct Utc { int64_t day; ld sod; };  // day since 1970, seconds of day (may reach 86401)
Utc true_utc(const gps_time_t &t, const utc_params_t *p, bool &lse, bool &edge) {
  ld off = true_offset(t, p, lse, edge);
  ld s = (ld)t.tow - off;
  // second 60 belongs to the day that ends
  int64_t d = (int64_t)floorl((lse ? s - 2 : s) / 86400.0L);
  return Utc{D1980 + t.wn * 7 + d, s - (ld)d * 86400.0L};
}
void check_fields(const utc_tm &u) {
  CHECK(u.month >= 1 && u.month <= 12, "month %u", u.month);
  static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (u.year % 4 == 0 && u.year % 100) || u.year % 400 == 0;
  int md = dm[u.month - 1] + (u.month == 2 && leap);
  CHECK(u.month_day >= 1 && u.month_day <= md, "%u-%u-%u is no date", u.year, u.month, u.month_day);
  CHECK(u.hour <= 23 && u.minute <= 59, "time %u:%u", u.hour, u.minute);
  CHECK(u.second_int <= 59 || (u.second_int == 60 && u.hour == 23 && u.minute == 59), "time %u:%u:%u", u.hour, u.minute, u.second_int);
  CHECK(u.second_frac >= 0 && u.second_frac < 1, "fraction %.17g", u.second_frac);
  int64_t day = days_civil(u.year, u.month, u.month_day);
  CHECK(u.year_day == day - days_civil(u.year, 1, 1) + 1, "day of year %u of %u-%u-%u", u.year_day, u.year, u.month, u.month_day);
  CHECK(u.week_day == (day + 3) % 7 + 1, "week day %u of %u-%u-%u", u.week_day, u.year, u.month, u.month_day);
}
ld sod(const utc_tm &u) { return (ld)u.hour * 3600 + u.minute * 60 + u.second_int + (ld)u.second_frac; }
}  // namespace

SUB(P14, gps2utc, 3, 30000, "valid times (half of them around leap seconds or day and week ends), built-in table or random broadcast parameters with a pending or past leap second (inserted or removed) or none: date and time equal the independent calendar; non-trivial: within two seconds of a leap second or day end") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  gps_time_t t;
  if (c.coin()) t = gen_time(c);
  else {
    pp = gen_params(c, true);
    p = &pp;
    if (c.chance(2, 3)) {
      t = pp.t_lse;
      double off = c.chance(1, 4) ? (double)c.range(-2, 3) : c.chance(1, 2) ? c.ureal(-3, 4) : (double)c.range(0, 1) + c.sign() * c.logreal(1e-10, 1e-2);
      add_secs(&t, off);
    } else t = gen_time(c, 1, 8000);
  }
  utc_tm u;
  memset(&u, 0xee, sizeof u);
  c.note("t=%d/%.17g", t.wn, t.tow);
  if (p) c.note("a0=%.17g a1=%.17g a2=%.17g ls=%d lsf=%d lse=%d/%.17g", p->a0, p->a1, p->a2, p->dt_ls, p->dt_lsf, p->t_lse.wn, p->t_lse.tow);
  gps2utc(&t, &u, p);
  check_fields(u);
  bool lse, edge;
  Utc w = true_utc(t, p, lse, edge);
  c.nontrivial(lse || w.sod < 2 || w.sod > 86398);
  if (lse && !edge) c.label("leap-second");
  int64_t day = days_civil(u.year, u.month, u.month_day);
  if (edge) {
    ld d = (ld)(day - w.day) * 86400 + sod(u) - w.sod;
    CHECK(fabsl(d) < 1.001L, "near a leap second: %.3Lg s off", d);
    return;
  }
  // within the second the polynomial drifts by a1; the reading may be held at its end
  ld tol = 3e-9L + (p && lse ? fabsl((ld)p->a1) * (2 + abs(p->dt_ls)) : 0);
  ld d = (ld)(day - w.day) * 86400 + sod(u) - w.sod;
  // at the end of a day the double may round up to the next midnight
  if (lse) CHECK(u.second_int == 60 && fabsl(sod(u) - w.sod) < tol && day == w.day, "leap second %.12Lf of day %lld converted to %u-%u-%u %u:%u:%u+%.9f", w.sod, (long long)w.day, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac);
  else {
    // closer to the leap second than seconds of the week can tell, a time may be held at its start
    bool held = false;
    if (p) { ld e = dif(t, p->t_lse); held = p->dt_lsf > p->dt_ls && e < 0 && e > -1e-9L; }
    else for (int k = 0; k < 18; k++) { ld e = (ld)((int64_t)t.wn * 604800 - leap_gps(k)) + t.tow; held |= e < 0 && e > -1e-9L; }
    CHECK(u.second_int != 60 || (held && u.second_frac == 0), "second 60 outside a leap second");
    CHECK(fabsl(d) < tol, "off by %.9Lg s: %u-%u-%u %u:%u:%u+%.9f", d, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac);
  }
  s32 y, mo, dd, h, mi;
  double s;
  if (p) gps2date_params(&t, &y, &mo, &dd, &h, &mi, &s, p); else gps2date(&t, &y, &mo, &dd, &h, &mi, &s);
  CHECK(y == u.year && mo == u.month && dd == u.month_day && h == u.hour && mi == u.minute && s == u.second_int + u.second_frac, "gps2date differs from gps2utc");
  if (!p) CHECK(gps2doy(&t) == u.year_day - 1, "gps2doy %u", gps2doy(&t));
}
SUB(P14, offsets, 2, 20000, "offset queries both ways, leap-second query: equal the independent offset, and the offset back at the UTC label is the negative of the offset forth; non-trivial: within 3 s of a leap second") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  gps_time_t t;
  if (c.coin()) t = gen_time(c);
  else {
    pp = gen_params(c, true);
    p = &pp;
    t = c.coin() ? pp.t_lse : gen_time(c, 1, 8000);
    double off = c.coin() ? c.ureal(-3, 4) : (double)c.range(-3, 4);
    if (t.wn > 2 && t.wn < 32000) add_secs(&t, off);
  }
  bool lse, edge;
  ld off = true_offset(t, p, lse, edge);
  c.note("t=%d/%.17g", t.wn, t.tow);
  double g = get_gps_utc_offset(&t, p);
  bool le = is_leap_second_event(&t, p);
  if (p) c.nontrivial(fabsl(dif(t, p->t_lse)) < 3); else c.nontrivial(lse || le);
  if (edge) return;
  if (p && p->dt_ls == p->dt_lsf) CHECK(!le, "leap second reported without one pending");
  CHECK(le == lse, "leap second in progress: %d, expected %d", le, lse);
  CHECK(fabsl(g - off) < 1e-9L, "offset %.12g, expected %.12Lg", g, off);
  if (lse) return;
  // the UTC label of t
  gps_time_t u = t;
  ld s = (ld)t.tow - off;
  int64_t wn = t.wn;
  while (s < 0) { s += 604800; wn--; }
  while (s >= 604800) { s -= 604800; wn++; }
  if (wn < 0) return;
  u = gt(wn, (double)s);
  // stay clear of the switch (a label during which the offset changes)
  if (p && at_switch(dif(t, p->t_lse), 1e-6L, p)) return;
  else {
    for (int k = 0; k < 18; k++) { ld e = (ld)((int64_t)t.wn * 604800 - leap_gps(k)) + t.tow; if (e != 1 && (fabsl(e) < 1e-6L || fabsl(e - 1) < 1e-6L)) return; }
  }
  double b = get_utc_gps_offset(&u, p);
  // the polynomial is evaluated at the UTC label shifted by dt_ls, which misses the instant by what the offset differs from dt_ls
  ld miss = p ? 1.01L * fabsl(off - p->dt_ls) : 0;
  ld slack = p ? fabsl((ld)p->a1) * miss + fabsl((ld)p->a2) * miss * (2 * fabsl(dif(t, p->tot)) + 200) : 0;
  CHECK(fabsl(b + off) < 1e-9L + slack, "UTC to GPS offset %.12g, GPS to UTC %.12Lg", b, off);
}
SUB(P14, monotone, 1, 10000, "pairs of GPS times a step apart (1e-9 s to days), around leap seconds and calendar boundaries: UTC fields in lexicographic order; non-trivial: the earlier one is before and the later one after a midnight") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  gps_time_t a;
  if (c.coin()) a = gen_time(c, 1, 32000);
  else { pp = gen_params(c, true); p = &pp; a = pp.t_lse; add_secs(&a, c.ureal(-2.5, 2.5)); }
  gps_time_t b = a;
  add_secs(&b, c.coin() ? c.logreal(1e-9, 1e5) : (double)c.range(1, 3));
  utc_tm u, v;
  c.note("a=%d/%.17g b=%d/%.17g", a.wn, a.tow, b.wn, b.tow);
  if (p) c.note("a0=%.17g a1=%.17g a2=%.17g tot=%d/%g ls=%d lsf=%d lse=%d/%.17g", p->a0, p->a1, p->a2, p->tot.wn, p->tot.tow, p->dt_ls, p->dt_lsf, p->t_lse.wn, p->t_lse.tow);
  gps2utc(&a, &u, p);
  gps2utc(&b, &v, p);
  check_fields(u); check_fields(v);
  int64_t du = days_civil(u.year, u.month, u.month_day), dv = days_civil(v.year, v.month, v.month_day);
  c.nontrivial(dv != du);
  ld slack = 3e-9L;
  if (p) { bool l, e1, e2; true_offset(a, p, l, e1); true_offset(b, p, l, e2); if (e1 || e2) return; }
  CHECK(dv > du || (dv == du && sod(v) >= sod(u) - slack), "UTC goes back from %u-%u-%u %.9Lf to %u-%u-%u %.9Lf", u.year, u.month, u.month_day, sod(u), v.year, v.month, v.month_day, sod(v));
}
SUB(P14, no_crash, 1, 10000, "parameters decoded from arbitrary page bits, any valid time at least a week after the epoch and around the encoded event: conversion ends with fields in range; non-trivial: parameters were accepted") {
  u32 w[8];
  for (auto &x : w) x = (u32)c.bits(30);
  w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22);
  if (c.coin()) w[6] = (w[6] & ~(0xffu << 6)) | ((u32)c.range(1, 7) << 6);
  utc_params_t p;
  bool ok = decode_utc_parameters_with_wn_ref(w, &p, (u16)c.range(0, 8000));
  c.nontrivial(ok);
  if (!ok) return;
  gps_time_t t = c.coin() ? gen_time(c, 2, 32000) : p.t_lse;
  add_secs(&t, c.coin() ? (double)c.range(-3, 3) : c.ureal(-200, 200));
  if (t.wn < 1) return;
  c.note("t=%d/%.17g a0=%g a1=%g ls=%d lsf=%d lse=%d/%.17g", t.wn, t.tow, p.a0, p.a1, p.dt_ls, p.dt_lsf, p.t_lse.wn, p.t_lse.tow);
  utc_tm u;
  gps2utc(&t, &u, &p);
  check_fields(u);
}
EXH(P14, table_edges, 18 * 41, "every leap second of the built-in table in steps of 0.1 s over 4 s: second 60 and offsets exactly as in the independent list") {
  uint64_t i = c.draw(18 * 41 - 1);
  int k = (int)(i / 41);
  double off = ((double)(i % 41) - 20) / 10.0 + 0.5;
  int64_t s = leap_gps(k);
  gps_time_t t = gt(s / 604800, (double)(s % 604800));
  add_secs(&t, off);
  utc_tm u;
  gps2utc(&t, &u, nullptr);
  bool lse, edge;
  Utc w = true_utc(t, nullptr, lse, edge);
  c.nontrivial(lse);
  int64_t day = days_civil(u.year, u.month, u.month_day);
  CHECK(fabsl((ld)(day - w.day) * 86400 + sod(u) - w.sod) < 2e-9L && (u.second_int == 60) == lse, "leap %d%+.1f s: %u-%u-%u %u:%u:%u", k, off, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int);
  CHECK(is_leap_second_event(&t, nullptr) == lse, "leap %d%+.1f s: event flag", k, off);
  CHECK(get_gps_utc_offset(&t, nullptr) == k + (off >= 1 ? 1 : 0), "leap %d%+.1f s: offset %g", k, off, get_gps_utc_offset(&t, nullptr));
}

// ---- P15 ------------------------------------------------------------------
EXH(P15, every_day, 229000, "every calendar day from 1980-01-06 for 627 years: date breakdown, day of year, week day, MJD, leap years, month lengths") {
  int64_t i = (int64_t)c.draw(229000 - 1);
  int64_t y; int m, d;
  civil(D1980 + i, y, m, d);
  c.nontrivial(m == 2 || d == 1 || d == 31);
  gps_time_t t = gt(i / 7, (double)(i % 7) * DAY + 43200.25);
  utc_tm u;
  make_utc_tm(&t, &u);
  check_fields(u);
  CHECK(u.year == y && u.month == m && u.month_day == d && u.hour == 12 && u.minute == 0 && u.second_int == 0 && u.second_frac == 0.25, "day %lld: %u-%u-%u, expected %lld-%d-%d", (long long)i, u.year, u.month, u.month_day, (long long)y, m, d);
  double mj = date2mjd((s32)y, m, d, 0, 0, 0);
  CHECK(mj == (double)(44244 + i), "date2mjd(%lld-%d-%d)=%.9f", (long long)y, m, d, mj);
  s32 Y, M, D, H, Mi; double S;
  mjd2date((double)(44244 + i), &Y, &M, &D, &H, &Mi, &S);
  CHECK(Y == y && M == m && D == d && H == 0 && Mi == 0 && S == 0, "mjd2date(%lld) = %d-%d-%d %d:%d:%g", (long long)(44244 + i), Y, M, D, H, Mi, S);
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  CHECK(is_leap_year((s32)y) == leap, "is_leap_year(%lld)", (long long)y);
  int64_t nm = days_civil(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - days_civil(y, m, 1);
  CHECK(days_in_month((u16)y, (u8)m) == nm, "days_in_month(%lld,%d)=%u", (long long)y, m, days_in_month((u16)y, (u8)m));
}
namespace {
struct Date { int64_t day; s32 y, mo, d, h, mi; double s; };
Date gen_date(Case &c, int64_t lo, int64_t hi) {
  Date x;
  x.day = lo + (int64_t)c.draw((uint64_t)(hi - lo));
  if (c.chance(1, 3)) {  // first or last day of a month
    int64_t y; int m, d;
    civil(x.day, y, m, d);
    int64_t q = days_civil(y, m, 1) - (c.coin() ? 1 : 0);
    if (q >= lo) x.day = q;
  }
  int64_t y; int m, d;
  civil(x.day, y, m, d);
  x.y = (s32)y; x.mo = m; x.d = d;
  x.h = (s32)c.pick({0, 23, (int)c.draw(23)}); x.mi = (s32)c.pick({0, 59, (int)c.draw(59)});
  switch (c.draw(3)) {
    case 0: x.s = (double)c.draw(59); break;
    case 1: x.s = c.ureal(0, 60); break;
    case 2: x.s = 60 - c.logreal(1e-5, 1); break;
    default: x.s = (double)c.draw(59) + c.logreal(1e-6, 0.1); break;
  }
  if (!(x.s < 60)) x.s = 59;
  return x;
}
ld date_sec(s32 y, s32 mo, s32 d, s32 h, s32 mi, double s, int64_t day0) { return (ld)(days_civil(y, mo, d) - day0) * 86400 + (ld)h * 3600 + (ld)mi * 60 + s; }
// two and a half times the resolution of a double MJD, in seconds
ld mjd_tol(double m) { return std::max<ld>(3e-6L, 2.5L * (nextafter(m, 1e9) - m) * 86400); }
}  // namespace
SUB(P15, mjd, 2, 20000, "random civil dates and times 1980-2600: MJD value, MJD to date, to UTC, and back; non-trivial: last minute of a day or month end") {
  Date x = gen_date(c, D1980, D1980 + 226000);
  c.note("%d-%d-%d %d:%d:%.9f", x.y, x.mo, x.d, x.h, x.mi, x.s);
  c.nontrivial((x.h == 23 && x.mi == 59) || x.d >= 28);
  ld sec = (ld)x.h * 3600 + (ld)x.mi * 60 + x.s;
  double m = date2mjd(x.y, x.mo, x.d, x.h, x.mi, x.s);
  ld want = (ld)(x.day + 40587) + sec / 86400;
  CHECK(fabsl(m - want) * 86400 < mjd_tol(m), "MJD %.12f, expected %.12Lf", m, want);
  s32 y, mo, d, h, mi; double s;
  mjd2date(m, &y, &mo, &d, &h, &mi, &s);
  CHECK(mo >= 1 && mo <= 12 && d >= 1 && d <= 31 && h >= 0 && h <= 23 && mi >= 0 && mi <= 59 && s > -1e-9 && s < 60.000001, "mjd2date fields %d-%d-%d %d:%d:%.12f", y, mo, d, h, mi, s);
  CHECK(fabsl(date_sec(y, mo, d, h, mi, s, x.day) - sec) < mjd_tol(m), "mjd2date(%.12f) = %d-%d-%d %d:%d:%.9f", m, y, mo, d, h, mi, s);
  utc_tm u = mjd2utc(m);
  check_fields(u);
  CHECK(fabsl((ld)(days_civil(u.year, u.month, u.month_day) - x.day) * 86400 + sod(u) - sec) < mjd_tol(m), "mjd2utc(%.12f) = %u-%u-%u %u:%u:%u", m, u.year, u.month, u.month_day, u.hour, u.minute, u.second_int);
  CHECK(fabsl(utc2mjd(&u) - m) * 86400 < mjd_tol(m), "utc2mjd(mjd2utc(%.12f)) = %.12f", m, utc2mjd(&u));
  utc_tm v = date2utc(x.y, x.mo, x.d, x.h, x.mi, x.s);
  check_fields(v);
  CHECK(fabsl((ld)(days_civil(v.year, v.month, v.month_day) - x.day) * 86400 + sod(v) - sec) < mjd_tol(m), "date2utc gives %u-%u-%u %u:%u:%u", v.year, v.month, v.month_day, v.hour, v.minute, v.second_int);
  utc2date(&v, &y, &mo, &d, &h, &mi, &s);
  CHECK(y == v.year && mo == v.month && d == v.month_day && h == v.hour && mi == v.minute && s == v.second_int + v.second_frac, "utc2date differs from its argument");
}
SUB(P15, compositions, 2, 20000, "GPS time to UTC, date, MJD and back, and civil dates to GPS time and back, with the table and with parameters; the same instant each way; non-trivial: within a day of a leap second or different offset from 18") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  if (c.chance(1, 3)) { pp = gen_params(c, c.coin(), 200, 4000, false); p = &pp; }
  gps_time_t t = c.coin() && p ? pp.t_lse : gen_time(c, 1, 32000);
  if (c.coin()) add_secs(&t, c.coin() ? c.ureal(-3, 3) : c.ureal(-100000, 100000));
  c.note("t=%d/%.17g params=%d", t.wn, t.tow, p != nullptr);
  if (p) c.note("a0=%.17g a1=%.17g ls=%d lsf=%d lse=%d/%.17g", p->a0, p->a1, p->dt_ls, p->dt_lsf, p->t_lse.wn, p->t_lse.tow);
  bool lse, edge;
  ld off = true_offset(t, p, lse, edge);
  // the MJD resolution makes times within a few microseconds of a leap second or of midnight ambiguous there
  bool near_leap = edge;
  if (p) { ld e = dif(t, p->t_lse); near_leap |= at_switch(e, 1e-5L, p); c.nontrivial(fabsl(e) < 86400); }
  else for (int k = 0; k < 18; k++) { ld e = (ld)((int64_t)t.wn * 604800 - leap_gps(k)) + t.tow; near_leap |= fabsl(e) < 1e-5L || fabsl(e - 1) < 1e-5L; c.nontrivial(fabsl(e) < 86400); }
  if (near_leap) return;
  // evaluation of the polynomial at the UTC label instead of the GPS time
  ld tol = mjd_tol(44244 + t.wn * 7.0) + (p ? fabsl((ld)p->a1) * 200 : 0);
  utc_tm u;
  gps2utc(&t, &u, p);
  gps_time_t b;
  utc2gps(&u, &b, p);
  CHECK(okt(b) && fabsl(dif(b, t)) < tol, "gps->utc->gps moves by %.9Lg s", dif(b, t));
  if (lse) return;  // a civil date or MJD cannot name second 60
  double m = p ? gps2mjd_params(&t, p) : gps2mjd(&t);
  ld wantm = 44244 + (ld)t.wn * 7 + ((ld)t.tow - off) / 86400;
  CHECK(fabsl(m - wantm) * 86400 < tol, "gps2mjd %.12f, expected %.12Lf", m, wantm);
  b = p ? mjd2gps_params(m, p) : mjd2gps(m);
  CHECK(okt(b) && fabsl(dif(b, t)) < tol, "gps->mjd->gps moves by %.9Lg s", dif(b, t));
  s32 y, mo, d, h, mi; double s;
  if (p) gps2date_params(&t, &y, &mo, &d, &h, &mi, &s, p); else gps2date(&t, &y, &mo, &d, &h, &mi, &s);
  b = p ? date2gps_params(y, mo, d, h, mi, s, p) : date2gps(y, mo, d, h, mi, s);
  CHECK(okt(b) && fabsl(dif(b, t)) < tol, "gps->date->gps moves by %.9Lg s", dif(b, t));
}
SUB(P15, unix, 1, 10000, "GPS time to Unix time (leap seconds removed) and Unix-shaped GPS times; day of year; non-trivial: fractional seconds") {
  gps_time_t t = gen_time(c);
  bool lse, edge;
  ld off = true_offset(t, nullptr, lse, edge);
  time_t u = gps2time(&t);
  long long want = 315964800LL + (long long)t.wn * 604800 + (long long)floor(t.tow) - (long long)off;
  c.note("t=%d/%.17g", t.wn, t.tow);
  c.nontrivial(t.tow != floor(t.tow));
  CHECK((long long)u == want, "gps2time(%d,%.9f)=%lld, expected %lld", t.wn, t.tow, (long long)u, want);
  // against the broken-down UTC
  utc_tm v;
  gps2utc(&t, &v, nullptr);
  long long lin = (long long)days_civil(v.year, v.month, v.month_day) * 86400 + v.hour * 3600 + v.minute * 60 + v.second_int;
  if (t.tow == floor(t.tow)) CHECK((long long)u == lin, "gps2time %lld but broken-down UTC says %lld", (long long)u, lin);
  time_t x = (time_t)GPS_WEEK_REFERENCE * 604800 + 315964800 + 1 + (time_t)c.u((32600ULL - GPS_WEEK_REFERENCE) * 604800ULL);
  gps_time_t g = time2gps_t(x);
  CHECK(okt(g) && (long long)g.wn * 604800 + (long long)g.tow == (long long)x - 315964800LL && g.tow == floor(g.tow), "time2gps_t(%lld) = %d/%.9f", (long long)x, g.wn, g.tow);
}
SUB(P15, gmst, 0.5, 5000, "UTC dates 1980-2100 and UT1 offsets: sidereal angle equals the IAU 1982 polynomial modulo a turn; non-trivial: non-zero UT1 offset") {
  Date x = gen_date(c, D1980, D1980 + 43800);
  double dut = c.chance(1, 4) ? 0 : c.ureal(-0.9, 0.9);
  utc_tm u = date2utc(x.y, x.mo, x.d, x.h, x.mi, x.s);
  c.note("%d-%d-%d %d:%d:%.9f dut=%.6f", x.y, x.mo, x.d, x.h, x.mi, x.s, dut);
  c.nontrivial(dut != 0);
  double g = utc2gmst(u, dut);
  // UT1 instant
  ld s = (ld)(x.day) * 86400 + (ld)x.h * 3600 + (ld)x.mi * 60 + x.s + dut;
  ld day = floorl(s / 86400);
  ld ut = s - day * 86400;
  ld T = (day + 40587 - 51544.5L) / 36525;
  ld gm = 24110.54841L + 8640184.812866L * T + 0.093104L * T * T - 6.2e-6L * T * T * T + 1.002737909350795L * ut;
  ld want = gm * M_PI / 43200;
  ld d = remainderl((ld)g - want, 2 * 3.14159265358979323846L);
  CHECK(fabsl(d) < 2e-9L, "sidereal angle %.12f differs by %.3Lg rad", g, d);
}

// ---- P16 ------------------------------------------------------------------
SUB(P16, glo2gps, 2, 20000, "valid GLONASS dates 1996-2119 (2101-2103 excepted) with any time of day (second 60 included at a leap second), table or parameters: same instant as Moscow time = UTC+3 h; non-trivial: the UTC date differs from the Moscow date or leap second") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  if (c.chance(1, 3)) { pp = gen_params(c, true, 840, 4000); p = &pp; }
  glo_time_t g;
  memset(&g, 0, sizeof g);
  bool leap = false;
  if (c.chance(1, 4)) {
    // 02:59:60 Moscow time on the day after a leap second of the table
    int k = 11 + (int)c.draw(6);
    int64_t day = days_civil(leap_ym[k][0], leap_ym[k][1], 1);
    if (p) { leap = false; p = nullptr; }
    int64_t y; int m, d;
    civil(day, y, m, d);
    int cyc = (int)((y - 1996) / 4);
    g.n4 = (u8)(cyc + 1);
    g.nt = (u16)(day - days_civil(1996 + 4 * cyc, 1, 1) + 1);
    g.h = 2; g.m = 59; g.s = 60 + c.ureal(0, 0.999);
    leap = true;
  } else {
    if (p && c.coin()) {
      // a day of the week of the leap event
      int64_t day = D1980 + p->t_lse.wn * 7 + (int)(p->t_lse.tow / 86400) + (int)c.range(-4, 4), y;
      int m, d;
      civil(day, y, m, d);
      int cyc = (int)((y - 1996) / 4);
      g.n4 = (u8)(cyc + 1);
      g.nt = (u16)(day - days_civil(1996 + 4 * cyc, 1, 1) + 1);
      c.label("week of the event");
    } else {
      g.n4 = (u8)c.range(1, 31);
      g.nt = (u16)c.pick({1, 366, 367, 731, 732, 1096, 1097, 1461, (int)c.range(1, 1461)});
    }
    g.h = (u8)c.pick({0, 2, 3, 23, (int)c.draw(23)});
    g.m = (u8)c.draw(59);
    g.s = c.coin() ? (double)c.draw(59) : c.ureal(0, 60);
    if (!(g.s < 60)) g.s = 0;
  }
  c.note("n4=%u nt=%u %u:%u:%.12g params=%d", g.n4, g.nt, g.h, g.m, g.s, p != nullptr);
  c.nontrivial(g.h < 3);
  gps_time_t t = glo2gps(&g, p);
  CHECK(okt(t), "not a valid time: %d/%.9f", t.wn, t.tow);
  // 2100 is no leap year: how days 366 and on of its interval count is not published
  if (g.n4 == 27 && g.nt > 365) return;
  int64_t day = days_civil(1996 + 4 * (g.n4 - 1), 1, 1) + g.nt - 1;
  ld utc = (ld)(day - D1980) * 86400 + (ld)g.h * 3600 - 10800 + g.m * 60 + g.s;
  if (leap) utc -= 1;
  // offset at that UTC instant, rounded to whole seconds
  int off = 0;
  bool amb = false;
  if (p) {
    ld midnight = (ld)p->t_lse.wn * 604800 + p->t_lse.tow - p->dt_ls;  // plus the polynomial
    ld dt = utc + p->dt_ls - ((ld)p->tot.wn * 604800 + p->tot.tow);
    ld poly = (ld)p->a0 + (ld)p->a1 * dt + (ld)p->a2 * dt * dt;
    ld e = utc - (midnight - poly);
    amb = fabsl(e) < 1e-6L;
    ld r = poly + (e >= 0 ? p->dt_lsf : p->dt_ls);
    off = (int)roundl(r);
    amb |= fabsl(fabsl(r - off) - 0.5L) < 1e-6L;
  } else {
    for (int k = 0; k < 18; k++) {
      ld e = utc - (ld)(days_civil(leap_ym[k][0], leap_ym[k][1], 1) - D1980) * 86400;
      if (e >= 0) off = k + 1;
      // closer to midnight than seconds of the week in double can tell
      if (fabsl(e) < 1e-9L && g.s != floor(g.s)) amb = true;
    }
  }
  if (amb) return;
  ld want = utc + off + (leap ? 1 : 0);
  ld d = (ld)t.wn * 604800 + t.tow - want;
  CHECK(fabsl(d) < 1e-8L, "off by %.9Lg s (GPS %d/%.9f)", d, t.wn, t.tow);
}
SUB(P16, roundtrip, 2, 20000, "GPS times 1996-2099 and 2104-2118, around leap seconds and year ends, table or parameters: GPS to GLONASS and back, fields in range; non-trivial: year end or leap second") {
  utc_params_t pp;
  const utc_params_t *p = nullptr;
  if (c.chance(1, 3)) { pp = gen_params(c, c.coin(), 840, 4000); p = &pp; }
  gps_time_t t = gen_time(c, 835, 6250);
  if (c.chance(1, 5)) t.wn = (s16)c.range(6472, 7200);  // from 2104 the years are regular again
  if (c.coin()) {
    int64_t y = c.range(1997, 2098);
    int64_t s = (days_civil(y, 1, 1) - D1980) * 86400 - 10800 + 18;
    t = gt(s / 604800, (double)(s % 604800));
    add_secs(&t, c.ureal(-100, 100));
    c.nontrivial();
  } else if (p && c.coin()) { t = p->t_lse; add_secs(&t, c.ureal(-3, 3)); }
  bool lse, edge;
  ld off = true_offset(t, p, lse, edge);
  c.nontrivial(lse);
  c.note("t=%d/%.17g params=%d", t.wn, t.tow, p != nullptr);
  glo_time_t g = gps2glo(&t, p);
  CHECK(g.n4 >= 1 && g.n4 <= 31 && g.nt >= 1 && g.nt <= 1461 && g.h <= 23 && g.m <= 59 && g.s >= 0 && g.s < 61, "fields n4=%u nt=%u %u:%u:%.9f", g.n4, g.nt, g.h, g.m, g.s);
  if (edge) return;
  Utc w = true_utc(t, p, lse, edge);
  ld mos = (ld)w.day * 86400 + w.sod + 10800 - (lse ? 1 : 0);
  int64_t md = (int64_t)floorl(mos / 86400);
  ld got = (ld)(days_civil(1996 + 4 * (g.n4 - 1), 1, 1) + g.nt - 1) * 86400 + g.h * 3600 + g.m * 60 + g.s - (lse ? 1 : 0);
  (void)md;
  CHECK(fabsl(got - mos) < 1e-8L, "GLONASS time off by %.9Lg s", got - mos);
  CHECK(!lse || g.s >= 60, "second 60 lost");
  // back again: the GLONASS scale keeps the sub-second part of the offset
  gps_time_t b = glo2gps(&g, p);
  ld fr = p ? off - roundl(off) : 0;
  if (p && fabsl(fabsl(fr) - 0.5L) < 1e-6L) return;
  bool nearl = false;
  if (p) nearl = at_switch(dif(t, p->t_lse), 1e-6L, p);
  if (nearl) return;
  CHECK(okt(b) && fabsl(dif(b, t) + fr) < 1e-6L, "gps->glonass->gps moves by %.9Lg s (sub-second offset %.9Lg)", dif(b, t), fr);
}
EXH(P16, ranges, 256 * 1500, "every interval number and day numbers 0-1499: unknown time exactly outside 1-31 and 1-1461") {
  uint64_t i = c.draw(256 * 1500 - 1);
  glo_time_t g;
  memset(&g, 0, sizeof g);
  g.n4 = (u8)(i / 1500); g.nt = (u16)(i % 1500);
  if (g.nt == 1499) g.nt = 65535;
  g.h = 12;
  bool in = g.n4 >= 1 && g.n4 <= 31 && g.nt >= 1 && g.nt <= 1461;
  c.nontrivial(!in);
  gps_time_t t = glo2gps(&g, nullptr);
  if (!in) CHECK(t.wn == WN_UNKNOWN && t.tow == TOW_UNKNOWN, "n4=%u nt=%u gives %d/%.3f", g.n4, g.nt, t.wn, t.tow);
  else CHECK(okt(t), "n4=%u nt=%u gives %d/%.3f", g.n4, g.nt, t.wn, t.tow);
}

// ---- P17 ------------------------------------------------------------------
SUB(P17, decode, 3, 20000, "encoded UTC pages (words 3-10 of subframe 4 page 18) with random parameters, data/page identifiers and day numbers, parity bits random; non-trivial: a page that must be accepted") {
  int32_t a1 = (int32_t)(c.bits(24) << 8) >> 8;
  int32_t a0 = (int32_t)c.bits(32);
  int tot = (int)c.u(147), wnt = (int)c.u(255), wlsf = (int)c.u(255);
  int ls = (int8_t)c.bits(8), lsf = (int8_t)c.bits(8);
  int dn = c.chance(1, 6) ? (int)c.bits(8) : (int)c.range(1, 7);
  int id = c.chance(1, 8) ? (int)c.draw(3) : 1, sv = c.chance(1, 8) ? (int)c.bits(6) : 56;
  int ref = c.coin() ? (int)c.range(1, 4000) : (int)c.range(1, 30000);
  bool dflt = c.chance(1, 4);
  if (dflt) ref = GPS_WEEK_REFERENCE;
  u32 w[8];
  for (auto &x : w) x = (u32)c.bits(30);
  auto put = [&](int word, int first, int n, uint32_t v) {  // bits numbered 1..30 from the most significant
    int sh = 30 - (first + n - 1);
    uint32_t m = n == 32 ? ~0u : ((1u << n) - 1);
    w[word - 3] = (w[word - 3] & ~(m << sh)) | ((v & m) << sh);
  };
  put(3, 1, 2, id); put(3, 3, 6, sv);
  put(6, 1, 24, (uint32_t)a1);
  put(7, 1, 24, (uint32_t)a0 >> 8); put(8, 1, 8, (uint32_t)a0);
  put(8, 9, 8, tot); put(8, 17, 8, wnt);
  put(9, 1, 8, ls); put(9, 9, 8, wlsf); put(9, 17, 8, dn);
  put(10, 1, 8, lsf);
  if (c.chance(1, 4)) for (auto &x : w) x |= (u32)c.draw(3) << 30;
  c.note("a0=%d a1=%d tot=%d wnt=%d ls=%d wlsf=%d dn=%d lsf=%d id=%d sv=%d ref=%d", a0, a1, tot, wnt, ls, wlsf, dn, lsf, id, sv, ref);
  u32 w0[8];
  memcpy(w0, w, sizeof w);
  utc_params_t p;
  memset(&p, 0xcd, sizeof p);
  bool ok = dflt ? decode_utc_parameters(w, &p) : decode_utc_parameters_with_wn_ref(w, &p, (u16)ref);
  CHECK(!memcmp(w, w0, sizeof w), "input words modified");
  bool want = id == 1 && sv == 56 && dn >= 1 && dn <= 7;
  c.nontrivial(want);
  CHECK(ok == want, "page id=%d sv=%d dn=%d %s", id, sv, dn, ok ? "accepted" : "rejected");
  if (!ok) return;
  CHECK(p.a0 == ldexp(a0, -30) && p.a1 == ldexp(a1, -50) && p.a2 == 0, "polynomial %.17g %.17g %.17g", p.a0, p.a1, p.a2);
  CHECK(p.dt_ls == ls && p.dt_lsf == lsf, "leap seconds %d %d", p.dt_ls, p.dt_lsf);
  auto exp = [&](int raw) { while (raw < ref) raw += 256; return raw; };
  CHECK(p.tot.wn == exp(wnt) && p.tot.tow == tot * 4096.0, "tot %d/%.3f, expected %d/%.3f", p.tot.wn, p.tot.tow, exp(wnt), tot * 4096.0);
  int wev = exp(wlsf);
  ld ev = (ld)dn * 86400;
  // the polynomial holds at the event itself
  ld dt = ((ld)wev - p.tot.wn) * 604800 + ev - p.tot.tow, x = 0;
  for (int i = 0; i < 8; i++) x = ls + (ld)p.a0 + (ld)p.a1 * (dt + x);
  CHECK(okt(p.t_lse), "t_lse %d/%.9f not normalised", p.t_lse.wn, p.t_lse.tow);
  CHECK(fabsl(((ld)p.t_lse.wn - wev) * 604800 + p.t_lse.tow - ev - x) < 1e-9L, "leap event at %d/%.12f, expected %d/%.12Lf", p.t_lse.wn, p.t_lse.tow, wev, ev + x);
}
SUB(P17, any_bits, 1, 10000, "eight arbitrary words and reference weeks up to 32000: never aborts; non-trivial: accepted") {
  Buf b(32);
  c.fill(b.p, 32);
  u32 *w = (u32 *)b.p;
  if (c.coin()) w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22);
  if (c.coin()) w[6] = (w[6] & ~(0xffu << 6)) | ((u32)c.range(0, 8) << 6);
  utc_params_t p;
  bool ok = decode_utc_parameters_with_wn_ref(w, &p, (u16)c.u(32000));
  c.nontrivial(ok);
  if (ok) CHECK(okt(p.t_lse), "accepted with leap event %d/%.9f", p.t_lse.wn, p.t_lse.tow);
}

// ---- P18 ------------------------------------------------------------------
SUB(P18, rounding, 3, 30000, "valid times on, beside and between epochs (one unit in the last place to half a period away) at rates 1/30 to 1000 Hz: nearest and last epoch, idempotent, monotone; non-trivial: not on an epoch, or the week rolls over") {
  double f = c.pick({1.0, 2.0, 5.0, 10.0, 20.0, 25.0, 50.0, 100.0, 0.1, 0.2, 0.5, 4.0, 8.0, 1.0 / 30, 30.0, 1000.0, 3.0, 7.0});
  int64_t kmax = (int64_t)floor(604800 * f);
  gps_time_t t = gen_time(c, 1, 32600);
  if (c.coin()) {
    int64_t k = c.coin() ? (int64_t)c.draw((uint64_t)kmax) : (c.coin() ? c.range(0, 20) : kmax - c.range(0, 20));
    double x = (double)k / f;
    switch (c.draw(4)) {
      case 0: break;
      case 1: x = nextafter(x, 1e9); break;
      case 2: x = nextafter(x, -1e9); break;
      case 3: x += c.sign() * c.logreal(1e-9, 0.5 / f); break;
      default: x += 0.5 / f * (1 + c.sign() * c.logreal(1e-6, 0.1)); break;
    }
    if (x >= 0 && x < WK) t.tow = x;
  }
  c.note("t=%d/%.17g f=%g", t.wn, t.tow, f);
  gps_time_t r = round_to_epoch(&t, f), o = floor_to_epoch(&t, f);
  c.nontrivial(r.tow != t.tow);
  for (int i = 0; i < 2; i++) {
    gps_time_t q = i ? o : r;
    const char *w = i ? "floor" : "round";
    CHECK(okt(q), "%s gives %d/%.17g", w, q.wn, q.tow);
    // a multiple of the period counted from the start of the week
    double k = round(q.tow * f);
    bool rolled = q.wn == t.wn + 1;
    CHECK(q.tow == k / f || (rolled && q.tow < 1 / f), "%s gives %.17g, not a multiple of 1/%g s", w, q.tow, f);
    gps_time_t z = i ? floor_to_epoch(&q, f) : round_to_epoch(&q, f);
    CHECK((z.wn == q.wn && z.tow == q.tow) || rolled, "%s not idempotent: %.17g then %.17g", w, q.tow, z.tow);
  }
  ld dr = dif(r, t), dfl = dif(o, t);
  CHECK(fabsl(dr) <= 0.5L / f + 1e-9L, "rounded %.12Lg s away at %g Hz", dr, f);
  CHECK(dfl <= 0 && dfl > -1.0L / f - 1e-9L, "floored by %.12Lg s at %g Hz", dfl, f);
  // no later epoch fits
  double kn = round(o.tow * f) + 1;
  CHECK(!(o.wn == t.wn && kn / f <= t.tow), "floor gives %.17g but epoch %.17g is not after %.17g", o.tow, kn / f, t.tow);
  // monotone
  gps_time_t b = t;
  add_secs(&b, c.logreal(1e-9, 3 / f));
  gps_time_t rb = round_to_epoch(&b, f), ob = floor_to_epoch(&b, f);
  CHECK(dif(rb, r) >= 0 && dif(ob, o) >= 0, "not monotone");
}
