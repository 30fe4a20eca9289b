// P19-P25: navigation message decoding (GPS LNAV, BeiDou D1, Galileo I/NAV, GLONASS, almanac, accuracy tables).
#include "pbt.h"
#include "nav_encode.h"
#include <algorithm>
#include <vector>
#include <swiftnav/almanac.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/gnss_time.h>
using namespace pbt;
using namespace nav_encode;

namespace {
const double PI = 3.1415926535898;  // the value the interface documents prescribe
// a * 2^-k (* pi): the result of the decoder in any association order
bool same(double got, long double want) { return got == (double)want || fabsl(got - want) <= 3e-15L * fabsl(want); }
#define SAME(field, want) CHECK(same(field, (long double)(want)), #field " is %.17g, broadcast %.17Lg", (double)(field), (long double)(want))
const long double PIL = 3.1415926535898;

void scribble(Case &c, void *p, size_t n) { memset(p, (int)c.pick({0, 0xff, 0x5a}), n); }
int fit_hours(int flag, int iodc) {
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
const float URA[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
}  // namespace

// ---- P19 ------------------------------------------------------------------
SUB(P19, decode, 3, 20000, "GPS and QZSS ephemerides with every field random (extremes preferred), encoded into subframes 1-3 with random unused bits and parity, reference weeks, times of transmission near roll-over; also with one issue number or reference time broken; non-trivial: consistent set that must be valid") {
  Words W(c);
  int ref = c.coin() ? (int)c.range(1, 4000) : (int)c.range(1, 30000);
  bool dflt = c.chance(1, 4);
  if (dflt) ref = GPS_WEEK_REFERENCE;
  int wn = ref + (int)c.u(1023);
  F ura = gf(c, 4), health = gf(c, 6), iodc = gf(c, 10), tgd = gf(c, 8), af2 = gf(c, 8), af1 = gf(c, 16), af0 = gf(c, 22);
  if (c.chance(1, 3)) iodc.r = (uint64_t)c.pick({239, 240, 247, 248, 255, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023});
  F crs = gf(c, 16), dn = gf(c, 16), m0 = gf(c, 32), cuc = gf(c, 16), ecc = gf(c, 32), cus = gf(c, 16), sqrta = gf(c, 32), fit = gf(c, 1);
  F cic = gf(c, 16), om0 = gf(c, 32), cis = gf(c, 16), i0 = gf(c, 32), crc = gf(c, 16), w = gf(c, 32), omd = gf(c, 24), idot = gf(c, 14);
  uint64_t toe = c.coin() ? (uint64_t)c.range(0, 37799) : c.chance(1, 4) ? c.bits(16) : (uint64_t)c.range(0, 1) * 37799 + 0;
  uint64_t toc = c.chance(1, 4) ? c.bits(16) : toe;
  uint64_t iode2 = iodc.r & 0xff, iode3 = iode2;
  int brk = c.chance(1, 4) ? (int)c.range(1, 4) : 0;
  if (brk == 1) iode2 ^= 1 + c.u(254);
  if (brk == 2) iode3 ^= 1 + c.u(254);
  if (brk == 3) { iode2 ^= 1 + c.u(254); iode3 = iode2; }
  double tot = c.coin() ? (double)c.range(0, 100799) * 6 : c.pick({0.0, 6.0, 604794.0, 302400.0, 302394.0});
  W.put(1, 3, 1, 10, (uint64_t)(wn % 1024)); W.put(1, 3, 13, 4, ura.r); W.put(1, 3, 17, 6, health.r); W.put(1, 3, 23, 2, iodc.r >> 8);
  W.put(1, 7, 17, 8, tgd.r); W.put(1, 8, 1, 8, iodc.r); W.put(1, 8, 9, 16, toc); W.put(1, 9, 1, 8, af2.r); W.put(1, 9, 9, 16, af1.r); W.put(1, 10, 1, 22, af0.r);
  W.put(2, 3, 1, 8, iode2); W.put(2, 3, 9, 16, crs.r); W.put(2, 4, 1, 16, dn.r); W.put32(2, 4, m0.r); W.put(2, 6, 1, 16, cuc.r); W.put32(2, 6, ecc.r);
  W.put(2, 8, 1, 16, cus.r); W.put32(2, 8, sqrta.r); W.put(2, 10, 1, 16, toe); W.put(2, 10, 17, 1, fit.r);
  W.put(3, 3, 1, 16, cic.r); W.put32(3, 3, om0.r); W.put(3, 5, 1, 16, cis.r); W.put32(3, 5, i0.r); W.put(3, 7, 1, 16, crc.r); W.put32(3, 7, w.r);
  W.put(3, 9, 1, 24, omd.r); W.put(3, 10, 1, 8, iode3); W.put(3, 10, 9, 14, idot.r);
  c.note("wn=%d ref=%d toe=%llu toc=%llu tot=%.0f iodc=%llu iode=%llu/%llu ura=%llu fit=%llu", wn, ref, (unsigned long long)toe, (unsigned long long)toc, tot,
         (unsigned long long)iodc.r, (unsigned long long)iode2, (unsigned long long)iode3, (unsigned long long)ura.r, (unsigned long long)fit.r);
  ephemeris_t e;
  scribble(c, &e, sizeof e);
  gnss_signal_t sid;
  sid.code = c.coin() ? CODE_GPS_L1CA : CODE_QZS_L1CA;
  sid.sat = (u16)(sid.code == CODE_GPS_L1CA ? c.range(1, 32) : c.range(193, 202));
  e.sid = sid;
  Words O = W;
  if (dflt) decode_ephemeris(W.w, &e, tot); else decode_ephemeris_with_wn_ref(W.w, &e, tot, (u16)ref);
  CHECK(!memcmp(&O, &W, sizeof W), "input words modified");
  CHECK(e.sid.code == sid.code && e.sid.sat == sid.sat, "signal changed");
  bool toe_ok = toe * 16 < 604800, toc_ok = toc * 16 < 604800;
  bool good = toe_ok && toc_ok && iode2 == iode3 && iode2 == (iodc.r & 0xff);
  c.nontrivial(good);
  CHECK((e.valid != 0) == good, "valid flag %u for toe %llu toc %llu iodc %llu iode %llu/%llu", e.valid, (unsigned long long)toe * 16, (unsigned long long)toc * 16,
        (unsigned long long)iodc.r, (unsigned long long)iode2, (unsigned long long)iode3);
  const ephemeris_kepler_t &k = e.data.kepler;
  CHECK(e.source == EPH_SOURCE_GPS_LNAV, "source %u", e.source);
  CHECK(e.toe.tow == toe * 16.0 && k.toc.tow == toc * 16.0, "toe %.3f toc %.3f", e.toe.tow, k.toc.tow);
  if (toe_ok) {
    int want = wn;
    if (toe * 16.0 - tot > 302400) want--;
    if (toe * 16.0 - tot < -302400) want++;
    CHECK(e.toe.wn == want, "toe week %d, expected %d (tot %d/%.0f, toe %llu)", e.toe.wn, want, wn, tot, (unsigned long long)toe * 16);
    if (toc_ok) {
      int wc = want;
      if (((int)toc - (int)toe) * 16 > 302400) wc--;
      if (((int)toc - (int)toe) * 16 < -302400) wc++;
      CHECK(k.toc.wn == wc, "toc week %d, expected %d (toe %d/%llu, toc %llu)", k.toc.wn, wc, want, (unsigned long long)toe * 16, (unsigned long long)toc * 16);
    }
  }
  CHECK(e.ura == URA[ura.r], "accuracy %g for index %llu", e.ura, (unsigned long long)ura.r);
  CHECK(e.health_bits == health.r, "health %u, broadcast %llu", e.health_bits, (unsigned long long)health.r);
  CHECK(e.fit_interval == (u32)fit_hours((int)fit.r, (int)iodc.r) * 3600, "fit interval %u", e.fit_interval);
  CHECK(k.iodc == iodc.r, "iodc %u, broadcast %llu", k.iodc, (unsigned long long)iodc.r);
  if (good) CHECK(k.iode == iode3, "iode %u, broadcast %llu", k.iode, (unsigned long long)iode3);
  SAME(k.tgd.gps_s[0], ldexpl(tgd.s(), -31)); SAME(k.tgd.gps_s[1], 0);
  SAME(k.af0, ldexpl(af0.s(), -31)); SAME(k.af1, ldexpl(af1.s(), -43)); SAME(k.af2, ldexpl(af2.s(), -55));
  SAME(k.crs, ldexpl(crs.s(), -5)); SAME(k.crc, ldexpl(crc.s(), -5));
  SAME(k.cuc, ldexpl(cuc.s(), -29)); SAME(k.cus, ldexpl(cus.s(), -29)); SAME(k.cic, ldexpl(cic.s(), -29)); SAME(k.cis, ldexpl(cis.s(), -29));
  SAME(k.dn, ldexpl(dn.s(), -43) * PIL); SAME(k.m0, ldexpl(m0.s(), -31) * PIL); SAME(k.ecc, ldexpl(ecc.r, -33)); SAME(k.sqrta, ldexpl(sqrta.r, -19));
  SAME(k.omega0, ldexpl(om0.s(), -31) * PIL); SAME(k.inc, ldexpl(i0.s(), -31) * PIL); SAME(k.w, ldexpl(w.s(), -31) * PIL);
  SAME(k.omegadot, ldexpl(omd.s(), -43) * PIL); SAME(k.inc_dot, ldexpl(idot.s(), -43) * PIL);
}
SUB(P19, any_bits, 1, 10000, "24 arbitrary words, any reference week and time of transmission in the week: terminates, marked valid only with matching issues and times inside the week, decoding twice gives the same; non-trivial: marked valid") {
  Words W(c);
  if (c.coin()) {  // matching issues
    W.put(2, 3, 1, 8, W.w[0][5] >> 22); W.put(3, 10, 1, 8, W.w[0][5] >> 22);
  }
  ephemeris_t e, f;
  memset(&e, 0, sizeof e); memset(&f, 0xff, sizeof f);
  e.sid.code = CODE_GPS_L1CA; e.sid.sat = 3; f.sid = e.sid;
  int ref = (int)c.range(1, 31000);
  double tot = c.coin() ? (double)c.u(604799) : c.ureal(0, 604799.999);
  decode_ephemeris_with_wn_ref(W.w, &e, tot, (u16)ref);
  decode_ephemeris_with_wn_ref(W.w, &f, tot, (u16)ref);
  c.nontrivial(e.valid);
  CHECK(e.valid == f.valid && e.toe.tow == f.toe.tow && (!e.valid || ephemeris_equal(&e, &f)), "result depends on the previous contents");
  if (e.valid) {
    u32 iode2 = W.w[1][0] >> 22 & 0xff, iode3 = W.w[2][7] >> 22 & 0xff, iodc = W.w[0][5] >> 22 & 0xff;
    CHECK(iode2 == iode3 && iode3 == iodc, "valid with issues %u %u %u", iodc, iode2, iode3);
    CHECK(gps_time_valid(&e.toe) && gps_time_valid(&e.data.kepler.toc), "valid with times %d/%.0f %d/%.0f", e.toe.wn, e.toe.tow, e.data.kepler.toc.wn, e.data.kepler.toc.tow);
  }
}

// ---- P20 ------------------------------------------------------------------
namespace {
}  // namespace
SUB(P20, decode, 3, 20000, "BeiDou ephemerides with every field random, encoded bit by bit into D1 subframes 1-3 with random other bits; non-trivial: reference times inside the week") {
  D1 s[3];
  for (auto &x : s) x.start(c);
  F health = gf(c, 1), aodc = gf(c, 5), urai = gf(c, 4), wn = gf(c, 13), toc = gf(c, 17), tgd1 = gf(c, 10), tgd2 = gf(c, 10), af2 = gf(c, 11), af0 = gf(c, 24), af1 = gf(c, 22);
  F dn = gf(c, 16), cuc = gf(c, 18), m0 = gf(c, 32), ecc = gf(c, 32), cus = gf(c, 18), crc = gf(c, 18), crs = gf(c, 18), sqrta = gf(c, 32), toe = gf(c, 17);
  F i0 = gf(c, 32), cic = gf(c, 18), omd = gf(c, 24), cis = gf(c, 18), idot = gf(c, 14), om0 = gf(c, 32), om = gf(c, 32);
  if (c.chance(3, 4)) { toe.r %= 75600; toc.r = c.coin() ? toe.r : toc.r % 75600; }
  auto A = [](D1 &d, const F &f) { d.add(f.r, f.n); };
  s[0].add(c.bits(12), 12); A(s[0], health); A(s[0], aodc); A(s[0], urai); A(s[0], wn); A(s[0], toc); A(s[0], tgd1); A(s[0], tgd2);
  s[0].add(c.bits(64), 64); A(s[0], af2); A(s[0], af0); A(s[0], af1); s[0].add(c.bits(5), 5);
  s[1].add(c.bits(12), 12); for (F *f : {&dn, &cuc, &m0, &ecc, &cus, &crc, &crs, &sqrta}) A(s[1], *f);
  s[1].add(toe.r >> 15, 2);
  s[2].add(c.bits(12), 12); s[2].add(toe.r, 15); for (F *f : {&i0, &cic, &omd, &cis, &idot, &om0, &om}) A(s[2], *f);
  s[2].add(c.bits(1), 1);
  CHECK(s[0].pos == 198 && s[1].pos == 198 && s[2].pos == 198, "encoder layout");
  u32 w[3][10], w0[3][10];
  for (int i = 0; i < 3; i++) memcpy(w[i], s[i].w, sizeof w[i]);
  memcpy(w0, w, sizeof w);
  ephemeris_t e;
  scribble(c, &e, sizeof e);
  gnss_signal_t sid;
  sid.code = c.coin() ? CODE_BDS2_B1 : CODE_BDS2_B2; sid.sat = (u16)c.range(1, 63);
  c.note("wn=%d toe=%d toc=%d", (int)wn.r, (int)toe.r * 8, (int)toc.r * 8);
  c.nontrivial(toe.r < 75600 && toc.r < 75600);
  decode_bds_d1_ephemeris(w, sid, &e);
  CHECK(!memcmp(w, w0, sizeof w), "input words modified");
  const ephemeris_kepler_t &k = e.data.kepler;
  CHECK(e.sid.code == sid.code && e.sid.sat == sid.sat && e.source == EPH_SOURCE_BDS_D1_D2_NAV, "signal or source");
  CHECK(e.health_bits == health.r, "health %u", e.health_bits);
  CHECK(e.ura == (urai.r < 15 ? URA[urai.r] : -1.0f), "accuracy %g for index %llu", e.ura, (unsigned long long)urai.r);
  CHECK(e.toe.wn == (int)wn.r + 1356 && k.toc.wn == (int)wn.r + 1356, "weeks %d %d for BeiDou week %llu", e.toe.wn, k.toc.wn, (unsigned long long)wn.r);
  CHECK(e.toe.tow == toe.r * 8.0 && k.toc.tow == toc.r * 8.0, "toe %.0f toc %.0f", e.toe.tow, k.toc.tow);
  CHECK(k.iode == toe.r * 8 / 720 % 240 && k.iodc == toc.r * 8 / 720 % 240, "issues %u %u", k.iode, k.iodc);
  CHECK(near(k.tgd.bds_s[0], (double)tgd1.s() * 1e-10, 0, 3e-7) && near(k.tgd.bds_s[1], (double)tgd2.s() * 1e-10, 0, 3e-7), "group delays %g %g for %lld %lld", k.tgd.bds_s[0], k.tgd.bds_s[1], (long long)tgd1.s(), (long long)tgd2.s());
  SAME(k.af0, ldexpl(af0.s(), -33)); SAME(k.af1, ldexpl(af1.s(), -50)); SAME(k.af2, ldexpl(af2.s(), -66));
  SAME(k.dn, ldexpl(dn.s(), -43) * PIL); SAME(k.cuc, ldexpl(cuc.s(), -31)); SAME(k.m0, ldexpl(m0.s(), -31) * PIL); SAME(k.ecc, ldexpl(ecc.r, -33));
  SAME(k.cus, ldexpl(cus.s(), -31)); SAME(k.crc, ldexpl(crc.s(), -6)); SAME(k.crs, ldexpl(crs.s(), -6)); SAME(k.sqrta, ldexpl(sqrta.r, -19));
  SAME(k.inc, ldexpl(i0.s(), -31) * PIL); SAME(k.cic, ldexpl(cic.s(), -31)); SAME(k.omegadot, ldexpl(omd.s(), -43) * PIL); SAME(k.cis, ldexpl(cis.s(), -31));
  SAME(k.inc_dot, ldexpl(idot.s(), -43) * PIL); SAME(k.omega0, ldexpl(om0.s(), -31) * PIL); SAME(k.w, ldexpl(om.s(), -31) * PIL);
}
SUB(P20, irrelevant_bits, 1, 5000, "arbitrary words decoded twice, the second time with every bit outside the named fields changed: same ephemeris, no crash; non-trivial: all") {
  u32 a[3][10], b[3][10];
  for (auto &r : a) for (auto &x : r) x = (u32)c.bits(32);
  memcpy(b, a, sizeof a);
  for (auto &r : b) { r[0] = c.u32(); for (int i = 1; i < 10; i++) { r[i] ^= (u32)c.bits(8); r[i] ^= (u32)c.draw(3) << 30; } }
  for (auto &r : b) r[1] ^= (u32)c.bits(12) << 18;         // seconds of week
  b[0][1] ^= (u32)c.bits(5) << 12;                           // age of clock data
  b[0][9] ^= (u32)c.bits(5) << 8;                            // age of ephemeris data
  b[0][4] ^= (u32)c.bits(16) << 8; b[0][5] ^= (u32)c.bits(22) << 8; b[0][6] ^= (u32)c.bits(22) << 8; b[0][7] ^= (u32)c.bits(4) << 26;  // ionosphere
  ephemeris_t e, f;
  memset(&e, 0, sizeof e); memset(&f, 0, sizeof f);
  gnss_signal_t sid;
  sid.code = CODE_BDS2_B1; sid.sat = 7;
  decode_bds_d1_ephemeris(a, sid, &e);
  decode_bds_d1_ephemeris(b, sid, &f);
  c.nontrivial();
  CHECK(!memcmp(&e, &f, sizeof e), "bits outside the fields change the ephemeris");
}

// ---- P21 ------------------------------------------------------------------
namespace {
float sisa_m(int s) {
  if (s < 50) return (float)(s * 1) / 100;
  if (s < 75) return (float)(50 + (s - 50) * 2) / 100;
  if (s < 100) return (float)(100 + (s - 75) * 4) / 100;
  if (s < 126) return (float)(200 + (s - 100) * 16) / 100;
  return s == 255 ? -1.0f : 6.0f;
}
}  // namespace
SUB(P21, decode, 3, 20000, "Galileo ephemerides with every field random, encoded into I/NAV words 1-5 with random other bits, times in or out of the week; non-trivial: decoded and marked healthy") {
  Page P;
  c.fill(P.b, sizeof P.b);
  F iod = gf(c, 10), toe = gf(c, 14), m0 = gf(c, 32), ecc = gf(c, 32), sqrta = gf(c, 32), om0 = gf(c, 32), i0 = gf(c, 32), w = gf(c, 32), idot = gf(c, 14);
  F omd = gf(c, 24), dn = gf(c, 16), cuc = gf(c, 16), cus = gf(c, 16), crc = gf(c, 16), crs = gf(c, 16), sisa = gf(c, 8);
  F sv = gf(c, 6), cic = gf(c, 16), cis = gf(c, 16), toc = gf(c, 14), af0 = gf(c, 31), af1 = gf(c, 21), af2 = gf(c, 6);
  F bgda = gf(c, 10), bgdb = gf(c, 10), hs5 = gf(c, 2), hs1 = gf(c, 2), wn = gf(c, 12), tow = gf(c, 20);
  if (c.chance(3, 4)) { toe.r %= 10080; toc.r %= 10080; tow.r %= 604800; }
  if (c.coin()) { hs5.r &= 2; hs1.r &= 2; }
  if (c.chance(1, 4)) tow.r = (uint64_t)c.pick({0, 1, 604799, 302400, 302399, 302401});
  for (int i = 1; i <= 4; i++) P.put(i, 6, iod);
  P.put(1, 16, toe); P.put(1, 30, m0); P.put(1, 62, ecc); P.put(1, 94, sqrta);
  P.put(2, 16, om0); P.put(2, 48, i0); P.put(2, 80, w); P.put(2, 112, idot);
  P.put(3, 16, omd); P.put(3, 40, dn); P.put(3, 56, cuc); P.put(3, 72, cus); P.put(3, 88, crc); P.put(3, 104, crs); P.put(3, 120, sisa);
  P.put(4, 16, sv); P.put(4, 22, cic); P.put(4, 38, cis); P.put(4, 54, toc); P.put(4, 68, af0); P.put(4, 99, af1); P.put(4, 120, af2);
  P.put(5, 47, bgda); P.put(5, 57, bgdb); P.put(5, 67, hs5); P.put(5, 69, hs1); P.put(5, 73, wn); P.put(5, 85, tow);
  c.note("toe=%d toc=%d week=%d tow=%d hs=%d/%d", (int)toe.r * 60, (int)toc.r * 60, (int)wn.r, (int)tow.r, (int)hs5.r, (int)hs1.r);
  ephemeris_t e;
  scribble(c, &e, sizeof e);
  e.sid.code = CODE_GAL_E1B; e.sid.sat = 5;
  Page O = P;
  bool ok = decode_gal_ephemeris_safe(P.b, &e);
  CHECK(!memcmp(&O, &P, sizeof P), "input pages modified");
  bool in = toe.r < 10080 && toc.r < 10080;
  if (in && tow.r < 604800) CHECK(ok, "rejected");
  if (!in) CHECK(!ok, "reference time outside the week accepted: toe %d toc %d", (int)toe.r * 60, (int)toc.r * 60);
  bool healthy = !(hs5.r & 1) && !(hs1.r & 1);
  c.nontrivial(ok && healthy);
  if (!ok) return;
  const ephemeris_kepler_t &k = e.data.kepler;
  CHECK((e.valid != 0) == healthy, "valid %u for health %d/%d", e.valid, (int)hs5.r, (int)hs1.r);
  CHECK(e.sid.sat == sv.r && e.sid.code == CODE_GAL_E1B, "satellite %u code %d", e.sid.sat, e.sid.code);
  CHECK(e.source == EPH_SOURCE_GAL_INAV && e.fit_interval == 4 * 3600, "source %u fit %u", e.source, e.fit_interval);
  CHECK(k.iode == iod.r && k.iodc == iod.r, "issue %u %u", k.iode, k.iodc);
  CHECK(e.toe.tow == toe.r * 60.0 && k.toc.tow == toc.r * 60.0, "toe %.0f toc %.0f", e.toe.tow, k.toc.tow);
  for (int i = 0; i < 2; i++) {
    double d = (i ? toc.r : toe.r) * 60.0 - (double)tow.r;
    int want = (int)wn.r + 1024 + (d > 302400 ? -1 : d < -302400 ? 1 : 0);
    if (tow.r < 604800) CHECK((i ? k.toc.wn : e.toe.wn) == want, "%s week %d, expected %d", i ? "toc" : "toe", i ? k.toc.wn : e.toe.wn, want);
  }
  CHECK(near(e.ura, sisa_m((int)sisa.r), 1e-6), "accuracy %g for index %llu", e.ura, (unsigned long long)sisa.r);
  SAME(k.tgd.gal_s[0], ldexpl(bgda.s(), -32)); SAME(k.tgd.gal_s[1], ldexpl(bgdb.s(), -32));
  SAME(k.m0, ldexpl(m0.s(), -31) * PIL); SAME(k.ecc, ldexpl(ecc.r, -33)); SAME(k.sqrta, ldexpl(sqrta.r, -19));
  SAME(k.omega0, ldexpl(om0.s(), -31) * PIL); SAME(k.inc, ldexpl(i0.s(), -31) * PIL); SAME(k.w, ldexpl(w.s(), -31) * PIL); SAME(k.inc_dot, ldexpl(idot.s(), -43) * PIL);
  SAME(k.omegadot, ldexpl(omd.s(), -43) * PIL); SAME(k.dn, ldexpl(dn.s(), -43) * PIL);
  SAME(k.cuc, ldexpl(cuc.s(), -29)); SAME(k.cus, ldexpl(cus.s(), -29)); SAME(k.cic, ldexpl(cic.s(), -29)); SAME(k.cis, ldexpl(cis.s(), -29));
  SAME(k.crc, ldexpl(crc.s(), -5)); SAME(k.crs, ldexpl(crs.s(), -5));
  SAME(k.af0, ldexpl(af0.s(), -34)); SAME(k.af1, ldexpl(af1.s(), -46)); SAME(k.af2, ldexpl(af2.s(), -59));
  // the asserting variant gives the same
  ephemeris_t f;
  memcpy(&f, &e, sizeof f);
  decode_gal_ephemeris(P.b, &f);
  CHECK(!memcmp(&e, &f, sizeof e), "decode_gal_ephemeris differs");
}
SUB(P21, any_bits, 1, 5000, "five arbitrary pages in exact-size buffers: never aborts, result independent of the previous contents; non-trivial: decoded") {
  Buf b(5 * GAL_INAV_CONTENT_BYTE);
  c.fill(b.p, b.n);
  ephemeris_t e, f;
  memset(&e, 0, sizeof e); memset(&f, 0, sizeof f);
  typedef const u8 (*PP)[GAL_INAV_CONTENT_BYTE];
  bool ok = decode_gal_ephemeris_safe((PP)b.p, &e);
  f.toe.wn = 77; f.data.kepler.toc.wn = -1; f.valid = 1;
  bool ok2 = decode_gal_ephemeris_safe((PP)b.p, &f);
  c.nontrivial(ok);
  CHECK(ok == ok2, "acceptance depends on the previous contents");
  if (ok) CHECK(!memcmp(&e, &f, sizeof e), "result depends on the previous contents");
}

// ---- GLONASS strings ---------------------------------------------------------
namespace {
Str rnd_string(Case &c) {
  Str s;
  for (int i = 9; i <= 85; i += 11) s.put(i, std::min(11, 86 - i), c.bits((unsigned)std::min(11, 86 - i)));
  s.seal();
  return s;
}
struct Glo {
  int64_t pos[3], vel[3], acc[3], gamma, tau, dtau, taugps;
  int tkh, tkm, tks, p1, tb, bn, ln, en, slot, ft, nt, m, n4;
};
int64_t sm(Case &c, int n) { return c.coin() ? (c.coin() ? -1 : 1) * (int64_t)c.draw((1ull << (n - 1)) - 1) : (c.coin() ? -1 : 1) * (int64_t)c.u((1ull << (n - 1)) - 1); }
int64_t lim(Case &c, int64_t max, int bits) {  // in range mostly, at and just beyond the limit sometimes
  int64_t v;
  switch (c.draw(5)) {
    case 0: v = 0; break;
    case 1: v = max - c.range(0, 2); break;
    case 2: v = (int64_t)c.bits((unsigned)bits) % (max + 1); break;
    default: v = (int64_t)c.draw((uint64_t)max); break;
  }
  return c.coin() ? -v : v;
}
Glo gen_glo(Case &c) {
  Glo g;
  for (int i = 0; i < 3; i++) { g.pos[i] = lim(c, 27000LL * 2048, 26); g.vel[i] = lim(c, (int64_t)(4.3 * 1048576), 23); g.acc[i] = c.range(-6, 6); }
  g.gamma = sm(c, 11); g.tau = sm(c, 22); g.dtau = sm(c, 5); g.taugps = lim(c, (int64_t)(1.9e-3 * 1073741824.0), 21);
  g.tkh = (int)c.draw(23); g.tkm = (int)c.draw(59); g.tks = (int)c.draw(1); g.p1 = (int)c.draw(3); g.tb = (int)c.range(1, 95);
  g.bn = c.coin() ? 0 : (int)c.draw(7); g.ln = c.chance(1, 3); g.en = (int)c.draw(31); g.slot = (int)c.range(1, 24); g.ft = (int)c.draw(15);
  g.nt = c.chance(1, 3) ? (int)c.pick({1, 366, 367, 731, 732, 1461}) : (int)c.range(1, 1461); g.m = (int)c.draw(3); g.n4 = c.chance(1, 6) ? (int)c.range(28, 31) : (int)c.range(1, 26);  // 2100 is no leap year: how the days of its interval count is not published
  return g;
}
void encode(Case &c, const Glo &g, Str s[5]) {
  for (int i = 0; i < 5; i++) { s[i] = rnd_string(c); s[i].set(85, false); s[i].put(81, 4, (uint64_t)i + 1); }
  for (int i = 0; i < 3; i++) { s[i].put_sm(9, 27, g.pos[i]); s[i].put_sm(41, 24, g.vel[i]); s[i].put_sm(36, 5, g.acc[i]); }
  s[0].put(72, 5, (uint64_t)g.tkh); s[0].put(66, 6, (uint64_t)g.tkm); s[0].put(65, 1, (uint64_t)g.tks); s[0].put(77, 2, (uint64_t)g.p1);
  s[1].put(78, 3, (uint64_t)g.bn); s[1].put(70, 7, (uint64_t)g.tb);
  s[2].put_sm(69, 11, g.gamma); s[2].put(65, 1, (uint64_t)g.ln);
  s[3].put_sm(59, 22, g.tau); s[3].put_sm(54, 5, g.dtau); s[3].put(49, 5, (uint64_t)g.en); s[3].put(30, 4, (uint64_t)g.ft); s[3].put(16, 11, (uint64_t)g.nt);
  s[3].put(11, 5, (uint64_t)g.slot); s[3].put(9, 2, (uint64_t)g.m);
  s[4].put(32, 5, (uint64_t)g.n4); s[4].put_sm(10, 22, g.taugps);
  for (int i = 0; i < 5; i++) s[i].seal();
}
const int P1MIN[4] = {0, 30, 45, 60};
const float FT[16] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
void check_glo(const Glo &g, const ephemeris_t &e, bool with_health = true) {
  const ephemeris_glo_t &k = e.data.glo;
  for (int i = 0; i < 3; i++) {
    SAME(k.pos[i], ldexpl(g.pos[i], -11) * 1000); SAME(k.vel[i], ldexpl(g.vel[i], -20) * 1000); SAME(k.acc[i], ldexpl(g.acc[i], -30) * 1000);
  }
  SAME(k.gamma, ldexpl(g.gamma, -40)); SAME(k.tau, ldexpl(g.tau, -30)); SAME(k.d_tau, ldexpl(g.dtau, -30));
  CHECK(e.sid.sat == g.slot, "slot %u, broadcast %d", e.sid.sat, g.slot);
  CHECK(e.ura == FT[g.ft], "accuracy %g for index %d", e.ura, g.ft);
  CHECK(k.iod == ((g.tb * 900) & 0x7f), "issue %u for interval %d", k.iod, g.tb);
  if (with_health) CHECK(e.health_bits == ((g.bn >> 2) | g.ln), "health %u, broadcast B=%d l=%d", e.health_bits, g.bn, g.ln);
}
}  // namespace
SUB(P22, decode, 3, 20000, "one or two sets of GLONASS immediate data with every field random over its documented range, encoded with check bits, decoded in one call with the same ephemeris variable: parameters, reference time, fit interval, health; non-trivial: the second set differs in health or fit interval") {
  int n = (int)c.range(1, 3);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  if (c.coin()) { memset(&e, 0x5a, sizeof e); e.fit_interval = 0; }
  u32 prev_fit = 0;
  Glo last{};
  for (int i = 0; i < n; i++) {
    Glo g = gen_glo(c);
    Str s[5];
    encode(c, g, s);
    glo_string_t in[5], in0[5];
    for (int j = 0; j < 5; j++) in[j] = s[j].s;
    memcpy(in0, in, sizeof in);
    gnss_signal_t sid;
    sid.code = CODE_GLO_L1OF; sid.sat = (u16)c.range(1, 28);
    c.note("set %d: n4=%d nt=%d tb=%d p1=%d B=%d l=%d slot=%d", i, g.n4, g.nt, g.tb, g.p1, g.bn, g.ln, g.slot);
    decode_glo_ephemeris(in, sid, nullptr, &e);
    CHECK(!memcmp(in, in0, sizeof in), "input strings modified");
    CHECK(e.valid == 1 && e.source == EPH_SOURCE_GLO_FDMA && e.sid.code == CODE_GLO_L1OF, "not decoded (valid %u)", e.valid);
    check_glo(g, e);
    double want = glo_gps(g.n4, g.nt, g.tb * 900), got = e.toe.wn * 604800.0 + e.toe.tow;
    CHECK(gps_time_valid(&e.toe) && fabs(got - want) < 1e-6, "reference time off by %.6f s (%d/%.3f)", got - want, e.toe.wn, e.toe.tow);
    u32 fit = g.p1 ? (u32)P1MIN[g.p1] * 60 + 600 : prev_fit ? prev_fit : 4200;
    CHECK(e.fit_interval == fit, "fit interval %u, expected %u (P1=%d)", e.fit_interval, fit, g.p1);
    prev_fit = fit;
    if (i) c.nontrivial(((last.bn >> 2) | last.ln) != ((g.bn >> 2) | g.ln) || last.p1 != g.p1);
    last = g;
  }
}
SUB(P22, orders, 1, 10000, "the five strings fed one by one in any order with repeats and wrong-number strings in between: ignored ones change nothing the right ones set; same result; non-trivial: not in ascending order") {
  Glo g = gen_glo(c);
  Str s[5];
  encode(c, g, s);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  glo_time_t tk, toe;
  memset(&tk, 0, sizeof tk); memset(&toe, 0, sizeof toe);
  u8 age = 0;
  float taug = 0;
  std::vector<int> ord = {0, 1, 2, 3, 4};
  c.shuffle(ord);
  for (int k = (int)c.draw(4); k > 0; k--) ord.push_back((int)c.draw(4));
  c.nontrivial(!std::is_sorted(ord.begin(), ord.end()));
  for (int i : ord) {
    // a string of another number is not taken by this decoder
    int j = (i + 1 + (int)c.draw(3)) % 5;
    ephemeris_t e0 = e;
    glo_time_t t0 = toe, k0 = tk;
    bool r = j == 0 ? decode_glo_string_1(&s[i].s, &e, &tk) : j == 1 ? decode_glo_string_2(&s[i].s, &e, &toe) : j == 2 ? decode_glo_string_3(&s[i].s, &e, &toe)
           : j == 3 ? decode_glo_string_4(&s[i].s, &e, &tk, &toe, &age) : decode_glo_string_5(&s[i].s, &e, &tk, &toe, &taug);
    CHECK(!r && !memcmp(&e, &e0, sizeof e) && !memcmp(&toe, &t0, sizeof toe) && !memcmp(&tk, &k0, sizeof tk), "string %d taken as string %d", i + 1, j + 1);
    r = i == 0 ? decode_glo_string_1(&s[i].s, &e, &tk) : i == 1 ? decode_glo_string_2(&s[i].s, &e, &toe) : i == 2 ? decode_glo_string_3(&s[i].s, &e, &toe)
      : i == 3 ? decode_glo_string_4(&s[i].s, &e, &tk, &toe, &age) : decode_glo_string_5(&s[i].s, &e, &tk, &toe, &taug);
    CHECK(r, "string %d rejected", i + 1);
  }
  check_glo(g, e);
  CHECK(tk.h == g.tkh && tk.m == g.tkm && tk.s == g.tks * 30.0 && tk.nt == g.nt && tk.n4 == g.n4, "frame time %u:%u:%g nt %u n4 %u", tk.h, tk.m, tk.s, tk.nt, tk.n4);
  CHECK(toe.h * 3600 + toe.m * 60 + toe.s == g.tb * 900.0 && toe.nt == g.nt && toe.n4 == g.n4, "reference time %u:%u:%g nt %u n4 %u", toe.h, toe.m, toe.s, toe.nt, toe.n4);
  CHECK(age == g.en, "age %u, broadcast %d", age, g.en);
  CHECK(taug == (float)ldexp((double)g.taugps, -30), "GPS offset %g", taug);
}
SUB(P22, rejects, 2, 10000, "one field out of its documented range, one string replaced by another number or with flipped bits: not valid, reference time unknown; non-trivial: all") {
  Glo g = gen_glo(c);
  int k = (int)c.draw(11), ax = (int)c.draw(2);
  int flip = -1;
  c.note("fault %d axis %d", k, ax);
  switch (k) {
    case 0: g.pos[ax] = c.sign() * (27000 * 2048 + 1 + (int64_t)c.u((1 << 26) - 1 - 27000 * 2048 - 1)); break;
    case 1: g.vel[ax] = c.sign() * ((int64_t)(4.3 * 1048576) + 1 + (int64_t)c.u((1 << 23) - 2 - (int64_t)(4.3 * 1048576))); break;
    case 2: g.acc[ax] = c.sign() * c.range(7, 15); break;
    case 3: g.tkh = (int)c.range(24, 31); break;
    case 4: g.tkm = (int)c.range(60, 63); break;
    case 5: g.tb = c.coin() ? 0 : (int)c.range(96, 127); break;
    case 6: g.slot = c.coin() ? 0 : (int)c.range(29, 31); break;
    case 7: g.nt = c.coin() ? 0 : (int)c.range(1462, 2047); break;
    case 8: g.n4 = 0; break;
    case 9: g.taugps = c.sign() * ((int64_t)(1.9e-3 * 1073741824.0) + 1 + (int64_t)c.u(2097151 - (int64_t)(1.9e-3 * 1073741824.0) - 1)); break;
    default: flip = (int)c.draw(4); break;
  }
  Str s[5];
  encode(c, g, s);
  glo_string_t in[5];
  if (k == 10) {
    int b = (int)c.range(9, 85);  // a data bit
    s[flip].flip(b);
    if (c.coin()) { int b2 = (int)c.range(1, 85); if (b2 != b) s[flip].flip(b2); }
  } else if (k == 11) {
    int num = (int)c.draw(15);
    if (num == flip + 1) num = 0;
    s[flip].put(81, 4, (uint64_t)num);
    s[flip].seal();
  }
  for (int j = 0; j < 5; j++) in[j] = s[j].s;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  if (c.coin()) { e.valid = 1; e.toe.wn = 2000; e.toe.tow = 5; }
  gnss_signal_t sid;
  sid.code = CODE_GLO_L1OF; sid.sat = 3;
  decode_glo_ephemeris(in, sid, nullptr, &e);
  c.nontrivial();
  CHECK(!e.valid, "marked valid");
  CHECK(e.toe.wn == WN_UNKNOWN, "reference time %d/%.3f", e.toe.wn, e.toe.tow);
}
SUB(P22, any_bits, 1, 10000, "five arbitrary strings with correct check bits and numbers, any UTC parameters or none: terminates, valid only with a known reference time, and then usable; non-trivial: marked valid") {
  glo_string_t in[5];
  for (int i = 0; i < 5; i++) {
    Str s = rnd_string(c);
    if (!c.chance(1, 10)) s.put(81, 4, (uint64_t)i + 1);
    // keep the fields with many out-of-range values in range most of the time
    if (!c.chance(1, 6)) {
      if (i < 3) { s.put(34, 1, 0); s.put(62, 2, 0); s.put(38, 2, 0); }
      if (i == 0) { s.put(76, 1, 0); s.put(71, 1, 0); }
      if (i == 3) { s.put(15, 1, 0); s.put(26, 1, 0); }
      if (i == 4) s.put(30, 1, 0);
    }
    s.seal();
    in[i] = s.s;
    if (c.chance(1, 10)) in[i].word[c.draw(2)] ^= (u32)c.bits(32);
    in[i].word[2] &= 0x1fffff;
  }
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  gnss_signal_t sid;
  sid.code = CODE_GLO_L1OF; sid.sat = 3;
  decode_glo_ephemeris(in, sid, nullptr, &e);
  c.nontrivial(e.valid);
  if (e.valid) CHECK(gps_time_valid(&e.toe), "valid with reference time %d/%.3f", e.toe.wn, e.toe.tow);
  if (e.valid) {
    gps_time_t t = e.toe;
    (void)ephemeris_valid(&e, &t);
  }
}
SUB(P22, extract, 1, 10000, "bit fields of 1-32 bits anywhere in the string: value equals the bits, least significant first; non-trivial: the field crosses a word") {
  glo_string_t *s = (glo_string_t *)malloc(sizeof *s);
  struct G { void *p; ~G() { free(p); } } guard{s};
  for (auto &w : s->word) w = (u32)c.bits(32);
  int n = (int)c.range(1, 32), first = (int)c.range(1, std::min(85, 97 - n));
  uint32_t want = 0;
  for (int i = 0; i < n; i++) want |= (s->word[(first - 1 + i) / 32] >> ((first - 1 + i) % 32) & 1u) << i;
  c.nontrivial((first - 1) / 32 != (first + n - 2) / 32);
  u32 got = extract_word_glo(s, (u16)first, (u8)n);
  CHECK(got == want, "field of %d bits at %d is %08x, expected %08x", n, first, got, want);
}

// ---- P23 ------------------------------------------------------------------
EXH(P23, single_flips, 86 * 200, "each of 85 single-bit flips and no flip, on 200 random strings each: no error gives 0; a flipped data bit is located; a flipped Hamming bit is harmless (0); a flipped parity bit is rejected; non-trivial: a data bit flipped") {
  uint64_t i = c.draw(86 * 200 - 1);
  int b = (int)(i % 86);
  Str s = rnd_string(c);
  if (i / 86 == 0) { s = Str(); s.seal(); }
  if (i / 86 == 1) { s = Str(); for (int j = 9; j <= 85; j++) s.set(j, true); s.seal(); }
  Str t = s;
  if (b) t.flip(b);
  glo_string_t k = t.s;
  s8 r = error_detection_glo(&t.s);
  c.nontrivial(b >= 9);
  CHECK(!memcmp(&k, &t.s, sizeof k), "string modified");
  if (b == 0) CHECK(r == 0, "good string reported %d", r);
  else if (b >= 9) CHECK(r == b, "flipped bit %d reported as %d", b, r);
  else if (b == 8) CHECK(r == -1, "flipped parity bit reported as %d", r);
  else CHECK(r == 0, "flipped check bit %d reported as %d", b, r);
}
EXH(P23, double_flips, 3570 * 20, "all 3570 pairs of flipped bits on 20 random strings each: always rejected, and no string decoder takes it; non-trivial: both data bits") {
  uint64_t i = c.draw(3570 * 20 - 1);
  int p = (int)(i % 3570), a = 1, b;
  while (p >= 85 - a) { p -= 85 - a; a++; }
  b = a + 1 + p;
  Str s = rnd_string(c);
  int num = (int)c.range(1, 5);
  s.put(81, 4, (uint64_t)num);
  s.seal();
  s.flip(a); s.flip(b);
  c.nontrivial(a >= 9);
  s8 r = error_detection_glo(&s.s);
  CHECK(r == -1, "flipped bits %d and %d reported as %d", a, b, r);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  glo_time_t tk, toe; u8 age; float tg;
  bool ok = num == 1 ? decode_glo_string_1(&s.s, &e, &tk) : num == 2 ? decode_glo_string_2(&s.s, &e, &toe) : num == 3 ? decode_glo_string_3(&s.s, &e, &toe)
          : num == 4 ? decode_glo_string_4(&s.s, &e, &tk, &toe, &age) : decode_glo_string_5(&s.s, &e, &tk, &toe, &tg);
  CHECK(!ok, "string %d with bits %d and %d flipped decoded", num, a, b);
}
SUB(P23, correct, 1, 20000, "random strings with one flipped bit, corrected as reported, then checked again; and arbitrary 85-bit patterns: the answer is -1, 0 or 9..85, a 0 means the Hamming data bits are consistent; non-trivial: a correction happened") {
  if (c.coin()) {
    Str s = rnd_string(c), t = s;
    t.flip((int)c.range(9, 85));
    s8 r = error_detection_glo(&t.s);
    CHECK(r >= 9 && r <= 85, "reported %d", r);
    t.flip(r);
    c.nontrivial();
    CHECK(!memcmp(&t.s, &s.s, sizeof s.s) && error_detection_glo(&t.s) == 0, "correction does not restore the string");
  } else {
    Str s = rnd_string(c);
    for (int j = 1; j <= 8; j++) s.set(j, c.coin());
    s8 r = error_detection_glo(&s.s);
    int syn = 0; bool par = false;
    for (int b = 9; b <= 85; b++) if (s.get(b)) syn ^= ham_pos(b);
    for (int j = 0; j < 7; j++) syn ^= (int)s.get(j + 1) << j;
    for (int b = 1; b <= 85; b++) par ^= s.get(b);
    int n = __builtin_popcount((unsigned)syn);
    int want;
    if ((n == 0 && !par) || (n == 1 && par)) want = 0;
    else if (n > 1 && par) {
      int K = 32 - __builtin_clz((unsigned)syn);
      want = syn + 8 - K;
      if (want > 85) want = -1;
    } else want = -1;
    c.nontrivial(want > 0);
    CHECK(r == want, "reported %d, expected %d (syndrome %02x, parity %d)", r, want, syn, par);
  }
}

// ---- P24 ------------------------------------------------------------------
namespace {
struct Page30 {
  u32 w[8];
  explicit Page30(Case &c) { for (auto &x : w) x = (u32)c.bits(c.chance(1, 4) ? 32 : 30); }
  void put(int word, int first, int n, uint64_t v) {
    int sh = 30 - (first + n - 1);
    u32 m = (u32)((1ull << n) - 1) << sh;
    w[word - 3] = (w[word - 3] & ~m) | ((u32)(v << sh) & m);
  }
};
}  // namespace
SUB(P24, almanac, 2, 20000, "almanac pages with every field random, any page and data identifier: decoded parameters exactly scaled, other pages rejected; non-trivial: accepted") {
  Page30 P(c);
  int did = c.chance(1, 6) ? (int)c.draw(3) : 1, sv = c.chance(1, 4) ? (int)c.draw(63) : (int)c.range(1, 32);
  F ecc = gf(c, 16), toa = gf(c, 8), di = gf(c, 16), omd = gf(c, 16), health = gf(c, 8), sqrta = gf(c, 24), om0 = gf(c, 24), w = gf(c, 24), m0 = gf(c, 24), af0 = gf(c, 11), af1 = gf(c, 11);
  P.put(3, 1, 2, (uint64_t)did); P.put(3, 3, 6, (uint64_t)sv); P.put(3, 9, 16, ecc.r); P.put(4, 1, 8, toa.r); P.put(4, 9, 16, di.r); P.put(5, 1, 16, omd.r); P.put(5, 17, 8, health.r);
  P.put(6, 1, 24, sqrta.r); P.put(7, 1, 24, om0.r); P.put(8, 1, 24, w.r); P.put(9, 1, 24, m0.r);
  P.put(10, 1, 8, af0.r >> 3); P.put(10, 9, 11, af1.r); P.put(10, 20, 3, af0.r);
  c.note("did=%d sv=%d toa=%d health=%d", did, sv, (int)toa.r * 4096, (int)health.r);
  almanac_t a;
  scribble(c, &a, sizeof a);
  Page30 O = P;
  bool ok = almanac_decode(P.w, &a);
  CHECK(!memcmp(&O, &P, sizeof P), "input words modified");
  bool want = did == 1 && sv >= 1 && sv <= 32;
  c.nontrivial(want);
  CHECK(ok == want, "page did=%d sv=%d %s", did, sv, ok ? "accepted" : "rejected");
  if (!ok) { CHECK(!a.valid, "rejected page leaves a valid almanac"); return; }
  const almanac_kepler_t &k = a.data.kepler;
  CHECK(a.valid && a.sid.code == CODE_GPS_L1CA && a.sid.sat == sv, "valid %u signal %d/%u", a.valid, a.sid.code, a.sid.sat);
  CHECK(a.toa.wn == WN_UNKNOWN && a.toa.tow == toa.r * 4096.0, "toa %d/%.1f", a.toa.wn, a.toa.tow);
  CHECK(a.health_bits == health.r, "health %u", a.health_bits);
  CHECK(a.fit_interval == 140 * 3600, "fit interval %u", a.fit_interval);
  CHECK(a.ura == 900, "accuracy %g, the published figure of a normal almanac is 900 m", (double)a.ura);
  SAME(k.ecc, ldexpl(ecc.r, -21)); SAME(k.sqrta, ldexpl(sqrta.r, -11)); SAME(k.af0, ldexpl(af0.s(), -20)); SAME(k.af1, ldexpl(af1.s(), -38));
  CHECK(near(k.inc, (double)((ldexpl(di.s(), -19) + 0.3L) * PIL), 1e-15), "inclination %.17g", k.inc);
  SAME(k.omegadot, ldexpl(omd.s(), -38) * PIL); SAME(k.omega0, ldexpl(om0.s(), -23) * PIL); SAME(k.w, ldexpl(w.s(), -23) * PIL); SAME(k.m0, ldexpl(m0.s(), -23) * PIL);
}
SUB(P24, week, 1, 10000, "reference week pages with any identifiers, weeks and references: time and expanded week, other pages rejected; non-trivial: accepted") {
  Page30 P(c);
  int did = c.chance(1, 6) ? (int)c.draw(3) : 1, sv = c.chance(1, 4) ? (int)c.draw(63) : 51;
  int ref = c.coin() ? (int)c.range(0, 4000) : (int)c.range(0, 32000);
  bool dflt = c.chance(1, 4);
  if (dflt) ref = GPS_WEEK_REFERENCE;
  int wn = ref + (int)c.u(255), toa = (int)c.u(255);
  P.put(3, 1, 2, (uint64_t)did); P.put(3, 3, 6, (uint64_t)sv); P.put(3, 9, 8, (uint64_t)toa); P.put(3, 17, 8, (uint64_t)wn & 255);
  almanac_ref_week_t r;
  scribble(c, &r, sizeof r);
  bool ok = dflt ? almanac_decode_week(P.w, &r) : almanac_decode_week_with_wn_ref(P.w, &r, (u16)ref);
  bool want = did == 1 && sv == 51;
  c.note("did=%d sv=%d wn=%d ref=%d", did, sv, wn, ref);
  c.nontrivial(want);
  CHECK(ok == want, "page did=%d sv=%d %s", did, sv, ok ? "accepted" : "rejected");
  if (ok) CHECK(r.toa == toa * 4096 && r.wna == wn, "toa %d week %d, broadcast %d %d", r.toa, r.wna, toa * 4096, wn);
}
SUB(P24, health, 2, 10000, "health pages of both subframes with random values for every satellite and any identifiers: each satellite's value and validity mask; non-trivial: accepted") {
  Page30 P(c);
  int did = c.chance(1, 6) ? (int)c.draw(3) : 1, sv = c.chance(1, 4) ? (int)c.draw(63) : c.coin() ? 51 : 63;
  int h[32];
  for (auto &x : h) x = (int)c.bits(6);
  P.put(3, 1, 2, (uint64_t)did); P.put(3, 3, 6, (uint64_t)sv);
  if (sv == 51) for (int i = 0; i < 24; i++) P.put(4 + i / 4, 1 + 6 * (i % 4), 6, (uint64_t)h[i]);
  if (sv == 63) {
    P.put(8, 19, 6, (uint64_t)h[24]);
    for (int i = 25; i < 29; i++) P.put(9, 1 + 6 * (i - 25), 6, (uint64_t)h[i]);
    for (int i = 29; i < 32; i++) P.put(10, 1 + 6 * (i - 29), 6, (uint64_t)h[i]);
  }
  almanac_health_t r;
  scribble(c, &r, sizeof r);
  bool ok = almanac_decode_health(P.w, &r);
  bool want = did == 1 && (sv == 51 || sv == 63);
  c.note("did=%d sv=%d", did, sv);
  c.nontrivial(want);
  CHECK(ok == want, "page did=%d sv=%d %s", did, sv, ok ? "accepted" : "rejected");
  u32 mask = !want ? 0 : sv == 51 ? 0x00ffffffu : 0xff000000u;
  CHECK(r.health_bits_valid == mask, "validity mask %08x, expected %08x", r.health_bits_valid, mask);
  for (int i = 0; i < 32; i++) {
    int w = mask >> i & 1 ? h[i] : 0;
    CHECK(r.health_bits[i] == w, "satellite %d: health %d, broadcast %d", i + 1, r.health_bits[i], w);
  }
}

// ---- P25 ------------------------------------------------------------------
EXH(P25, tables, 256, "every index value of the GPS, BeiDou and Galileo accuracy tables; non-trivial: defined index") {
  int i = (int)c.draw(255);
  float g = decode_ura_index((u8)i), b = decode_bds_ura_index((u8)i), s = decode_sisa_index((u8)i);
  c.nontrivial(i < 126);
  CHECK(g == (i < 16 ? URA[i] : -1.0f), "GPS index %d gives %g", i, g);
  CHECK(b == (i < 15 ? URA[i] : -1.0f), "BeiDou index %d gives %g", i, b);
  CHECK(near(s, sisa_m(i), 1e-6), "Galileo index %d gives %g, expected %g", i, s, sisa_m(i));
}
EXH(P25, fit, 256 * 1024, "every issue number and every flag byte: fit interval in seconds; non-trivial: extended") {
  uint64_t i = c.draw(256 * 1024 - 1);
  int flag = (int)(i >> 10), iodc = (int)(i & 1023);
  c.nontrivial(flag != 0 && fit_hours(flag, iodc) != 6);
  u32 f = decode_fit_interval((u8)flag, (u16)iodc);
  CHECK(f == (u32)fit_hours(flag, iodc) * 3600, "fit interval for flag %d issue %d is %u s", flag, iodc, f);
}
SUB(P25, encode, 1, 10000, "accuracies of any size and sign, on and beside table values: smallest index that covers it, round trip; non-trivial: within the table") {
  float u = c.coin() ? (float)c.logreal(0.01, 20000) : URA[c.draw(15)];
  switch (c.draw(5)) {
    case 1: u = nextafterf(u, 1e9f); break;
    case 2: u = nextafterf(u, -1e9f); break;
    case 3: u = c.pick({0.0f, -0.0f, -1.0f, -1e-30f, (float)INFINITY, -(float)INFINITY, 1e-30f, 6144.0f, 6145.0f}); break;
    default: break;
  }
  int want = 255;
  if (u >= 0) for (int i = 15; i >= 0; i--) if (URA[i] >= u) want = i;
  c.note("ura=%.9g", u);
  c.nontrivial(want < 16);
  u8 r = encode_ura(u);
  CHECK(r == want, "accuracy %.9g encoded as %u, expected %d", u, r, want);
  if (r < 16) CHECK(decode_ura_index(r) >= u, "index does not cover the accuracy");
}
