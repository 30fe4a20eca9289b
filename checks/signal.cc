// P07-P10, P43, P48, P49: signal identifiers, signal sets, carrier data,
// GLONASS map, measurement helpers, GLONASS biases.
#include "pbt.h"
#include <algorithm>
#include <map>
#include <set>
#include <tuple>
extern "C" {
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
}
#include <swiftnav/signal.h>
using namespace pbt;

namespace {
struct Info { int cons; double hz; int fcn_band; const char *str; };
enum { G, S, R, C, J, E };
// published data per code: constellation and nominal carrier [Hz]
const double L1 = 1575.42e6, L2 = 1227.60e6, L5 = 1176.45e6;
struct Row { int code, cons; double hz; };
const Row rows[] = {
    {0, G, L1}, {1, G, L2}, {2, S, L1}, {3, R, 1602e6}, {4, R, 1246e6}, {5, G, L1}, {6, G, L2}, {7, G, L2}, {8, G, L2},
    {9, G, L5}, {10, G, L5}, {11, G, L5}, {12, C, 1561.098e6}, {13, C, 1207.14e6}, {14, E, L1}, {15, E, L1}, {16, E, L1},
    {17, E, 1278.75e6}, {18, E, 1278.75e6}, {19, E, 1278.75e6}, {20, E, 1207.14e6}, {21, E, 1207.14e6}, {22, E, 1207.14e6},
    {23, E, 1191.795e6}, {24, E, 1191.795e6}, {25, E, 1191.795e6}, {26, E, L5}, {27, E, L5}, {28, E, L5},
    {29, R, 1602e6}, {30, R, 1246e6}, {31, J, L1}, {32, J, L1}, {33, J, L1}, {34, J, L1}, {35, J, L2}, {36, J, L2}, {37, J, L2},
    {38, J, L5}, {39, J, L5}, {40, J, L5}, {41, S, L5}, {42, S, L5}, {43, S, L5}, {44, C, L1}, {45, C, L1}, {46, C, L1},
    {47, C, L5}, {48, C, L5}, {49, C, L5}, {50, C, 1207.14e6}, {51, C, 1207.14e6}, {52, C, 1207.14e6},
    {53, C, 1268.52e6}, {54, C, 1268.52e6}, {55, C, 1268.52e6}, {56, G, L1}, {57, G, L1}, {58, G, L1},
    {59, G, L1}, {60, S, L1}, {61, E, L1}, {62, J, L1}, {63, C, 1561.098e6}};
static_assert(sizeof rows / sizeof rows[0] == 64, "rows");
const int sat_lo[6] = {1, 120, 1, 1, 193, 1}, sat_n[6] = {32, 19, 28, 64, 10, 36};
const char cons_ch[6] = {'G', 'S', 'R', 'C', 'J', 'E'};

gnss_signal_t mk(int code, int sat) {
  gnss_signal_t s;
  memset(&s, 0, sizeof s);
  s.code = (code_t)code;
  s.sat = (u16)sat;
  return s;
}
gnss_signal_t gen_valid(Case &c) {
  int code = (int)c.draw(63), k = rows[code].cons;
  return mk(code, sat_lo[k] + (int)c.u(sat_n[k] - 1));
}
// any signal value: valid, unknown, or odd satellite number
gnss_signal_t gen_any(Case &c) {
  switch (c.draw(5)) {
    case 0: return mk((int)c.range(0, 63), (int)c.u(70));
    case 1: return SID_UNKNOWN;
    case 2: return mk((int)c.range(-1, 63), (int)c.u(65535));
    case 3: return mk(-1, (int)c.u(65535));
    default: return gen_valid(c);
  }
}
bool same(gnss_signal_t a, gnss_signal_t b) { return a.sat == b.sat && a.code == b.code; }
}  // namespace

// ---- P07 ------------------------------------------------------------------
SUB(P07, history, 2, 5000, "1..200 adds, removes, re-initialisations and membership queries over all valid signals (drawn from a small pool half the time), counts checked after every step; non-trivial: some satellite contributes at least two signals at some step and something was removed") {
  gnss_sid_set_t *s = (gnss_sid_set_t *)malloc(sizeof *s);
  struct F { void *p; ~F() { free(p); } } fr{s};
  sid_set_init(s);
  std::set<std::pair<int, int>> m;
  std::vector<gnss_signal_t> pool;
  int np = (int)c.size(1, 24);
  for (int i = 0; i < np; i++) {
    if (i && c.coin()) {
      // another code of the same constellation and satellite
      gnss_signal_t p = pool[c.draw(pool.size() - 1)];
      std::vector<int> codes;
      for (auto &r : rows) if (r.cons == rows[p.code].cons) codes.push_back(r.code);
      pool.push_back(mk(codes[c.draw(codes.size() - 1)], p.sat));
    } else pool.push_back(gen_valid(c));
  }
  int n = (int)c.size(1, 200);
  bool shared = false, removed = false;
  for (int i = 0; i < n; i++) {
    gnss_signal_t x = c.chance(1, 4) ? gen_valid(c) : pool[c.draw(pool.size() - 1)];
    switch (c.draw(9)) {
      default: sid_set_add(s, x); m.insert({x.code, x.sat}); c.note("add %d/%d", x.code, x.sat); break;
      case 5: case 6: case 7:
        sid_set_remove(s, x); removed |= m.erase({x.code, x.sat}) != 0; c.note("remove %d/%d", x.code, x.sat); break;
      case 8: if (c.chance(1, 6)) { sid_set_init(s); m.clear(); c.note("init"); } break;
    }
    std::set<std::pair<int, int>> sats;
    for (auto &k : m) sats.insert({rows[k.first].cons, k.second});
    shared |= sats.size() < m.size();
    CHECK(sid_set_get_sig_count(s) == m.size(), "step %d: %u signals, expected %zu", i, sid_set_get_sig_count(s), m.size());
    CHECK(sid_set_get_sat_count(s) == sats.size(), "step %d: %u satellites, expected %zu", i, sid_set_get_sat_count(s), sats.size());
    gnss_signal_t q = c.coin() ? gen_valid(c) : x;
    CHECK(sid_set_contains(s, q) == (m.count({q.code, q.sat}) != 0), "step %d: contains(%d/%d) wrong", i, q.code, q.sat);
  }
  c.nontrivial(shared && removed);
  for (auto &r : rows)
    for (int k = 0; k < sat_n[r.cons]; k++) {
      gnss_signal_t q = mk(r.code, sat_lo[r.cons] + k);
      CHECK(sid_set_contains(s, q) == (m.count({q.code, q.sat}) != 0), "end: contains(%d/%d) wrong", q.code, q.sat);
    }
}

// ---- P08 ------------------------------------------------------------------
EXH(P08, validity, 67 * 512, "every code -1..65 with satellite numbers 0..504 and the extremes of 16 bits: validity, index round trip, constellation queries, text") {
  uint64_t i = c.draw(67 * 512 - 1);
  int code = (int)(i / 512) - 1, sat = (int)(i % 512);
  if (sat >= 505) sat = 65529 + (sat - 505);
  bool cv = code >= 0 && code < 64;
  gnss_signal_t s = mk(code, sat);
  c.note("code=%d sat=%d", code, sat);
  gnss_signal_t k = construct_sid((code_t)code, (u16)sat);
  CHECK(same(k, s), "construct_sid");
  CHECK(code_valid((code_t)code) == cv, "code_valid(%d)", code);
  int cons = cv ? rows[code].cons : -1;
  bool valid = cv && sat >= sat_lo[cons] && sat < sat_lo[cons] + sat_n[cons];
  c.nontrivial(valid);
  CHECK(sid_valid(s) == valid, "sid_valid(code %d, sat %d) = %d", code, sat, !valid);
  CHECK((int)sid_to_constellation(s) == cons, "sid_to_constellation(code %d)=%d", code, sid_to_constellation(s));
  CHECK(is_gps(s.code) == (cons == G) && is_sbas(s.code) == (cons == S) && is_glo(s.code) == (cons == R) &&
            is_bds2(s.code) == (cons == C) && is_qzss(s.code) == (cons == J) && is_gal(s.code) == (cons == E),
        "is_<constellation>(code %d) disagree with its constellation", code);
  CHECK(IS_GPS(s) == (cons == G) && IS_SBAS(s) == (cons == S) && IS_GLO(s) == (cons == R) && IS_BDS2(s) == (cons == C) &&
            IS_QZSS(s) == (cons == J) && IS_GAL(s) == (cons == E), "IS_x(code %d) disagree", code);
  // text
  const char *cs = code_to_string((code_t)code);
  Buf b(SID_STR_LEN_MAX);
  int n = sid_to_string((char *)b.p, SID_STR_LEN_MAX, s);
  char want[64];
  snprintf(want, sizeof want, "%s %d", cv ? cs : "?", sat);
  CHECK(n == (int)strlen(want) && !strcmp((char *)b.p, want), "sid_to_string gives \"%s\" (%d), expected \"%s\"", (char *)b.p, n, want);
  if (cv) {
    CHECK((int)code_to_constellation((code_t)code) == cons, "code_to_constellation(%d)", code);
    CHECK((int)code_string_to_enum(cs) == code, "code_string_to_enum(\"%s\")=%d, expected %d", cs, code_string_to_enum(cs), code);
    CHECK(constellation_to_sat_count((constellation_t)cons) == sat_n[cons], "constellation_to_sat_count(%d)", cons);
    // GLONASS distinguishes signals of a code by channel, of which there are 14
    CHECK(code_to_sig_count((code_t)code) == (cons == R ? 14 : sat_n[cons]), "code_to_sig_count(%d)=%u", code, code_to_sig_count((code_t)code));
    CHECK(code_valid(sid_to_l1_code(s)) && rows[sid_to_l1_code(s)].cons == cons, "sid_to_l1_code(code %d)", code);
    code_t l5 = sid_to_l5_code(s);
    CHECK(l5 == CODE_INVALID || (code_valid(l5) && rows[l5].cons == cons && rows[l5].hz == L5), "sid_to_l5_code(code %d)=%d", code, l5);
    CHECK((l5 == CODE_INVALID) == (cons == S || cons == R), "sid_to_l5_code(code %d)=%d", code, l5);
  }
  if (valid) {
    u16 x = sid_to_code_index(s);
    CHECK(x == sat - sat_lo[cons], "index of code %d sat %d is %u, not dense", code, sat, x);
    CHECK(same(sid_from_code_index((code_t)code, x), s), "index round trip of code %d sat %d", code, sat);
  }
}

SUB(P08, labels, 1, 5000, "code, constellation and sub-constellation labels, intact or mutated: a text parses to a value exactly when it is that value's label; non-trivial: a mutated label") {
  std::map<std::string, int> lab;
  int kind = (int)c.draw(2);
  if (kind == 0) for (int i = 0; i < 64; i++) lab[code_to_string((code_t)i)] = i;
  if (kind == 1) for (int i = 0; i < 6; i++) lab[constellation_to_string((constellation_t)i)] = i;
  if (kind == 2) for (int i = 0; i < SUB_CONSTELLATION_COUNT; i++) lab[sub_constellation_to_string((sub_constellation_t)i)] = i;
  CHECK(lab.size() == (kind == 0 ? 64u : kind == 1 ? 6u : 7u), "duplicate labels in table %d", kind);
  auto it = lab.begin();
  std::advance(it, c.draw(lab.size() - 1));
  std::string t = it->first;
  if (!t.empty() && c.coin()) {
    int nmut = (int)c.range(1, 2);
    while (nmut--) {
      size_t p = c.draw(t.size());
      switch (c.draw(3)) {
        case 0: if (p < t.size()) t.erase(p, 1); break;
        case 1: if (p < t.size()) t[p] = (char)c.range(32, 126); break;
        case 2: t.insert(p, 1, (char)c.range(32, 126)); break;
        default: t = t.substr(0, p); break;
      }
    }
    c.nontrivial(!lab.count(t));
  }
  int want = lab.count(t) ? lab[t] : -1;
  Buf b(t.size() + 1);
  memcpy(b.p, t.c_str(), t.size() + 1);
  const char *p = (const char *)b.p;
  int got = kind == 0 ? (int)code_string_to_enum(p) : kind == 1 ? (int)constellation_string_to_enum(p) : (int)sub_constellation_string_to_enum(p);
  CHECK(got == want, "label \"%s\" (table %d) parses to %d, expected %d", p, kind, got, want);
}

EXH(P08, constellations, 256, "constellation characters for every byte, sub-constellations, L1/L5 codes, SBAS provider lists") {
  int ch = (int)c.draw(255);
  int want = -1;
  for (int i = 0; i < 6; i++) if (cons_ch[i] == ch) want = i;
  c.nontrivial(want >= 0);
  CHECK((int)char_to_constellation((char)ch) == want, "char_to_constellation(%d)=%d", ch, char_to_constellation((char)ch));
  if (ch < 6) {
    CHECK(constellation_valid((constellation_t)ch), "constellation_valid(%d)", ch);
    CHECK(constellation_to_char((constellation_t)ch) == cons_ch[ch], "constellation_to_char(%d)", ch);
    code_t l1 = constellation_to_l1_code((constellation_t)ch);
    CHECK(code_valid(l1) && rows[l1].cons == ch, "constellation_to_l1_code(%d)=%d", ch, l1);
    static const char *names[6] = {"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL"};
    CHECK(!strcmp(constellation_to_string((constellation_t)ch), names[ch]), "constellation_to_string(%d)", ch);
  } else {
    if (ch > 7) goto rest;  // not representable in the enumeration
    CHECK(!constellation_valid((constellation_t)ch), "constellation_valid(%d)", ch);
    CHECK(constellation_to_char((constellation_t)ch) == '?', "constellation_to_char(%d)", ch);
    CHECK(constellation_to_l1_code((constellation_t)ch) == CODE_INVALID && constellation_to_l5_code((constellation_t)ch) == CODE_INVALID, "codes of constellation %d", ch);
  }
rest:
  if (ch == 255) {
    CHECK(!constellation_valid(CONSTELLATION_INVALID) && constellation_to_char(CONSTELLATION_INVALID) == '?', "invalid constellation");
    CHECK(constellation_to_l1_code(CONSTELLATION_INVALID) == CODE_INVALID, "invalid constellation");
    CHECK(sid_to_l1_code(SID_UNKNOWN) == CODE_INVALID && sid_to_l5_code(SID_UNKNOWN) == CODE_INVALID, "codes of unknown signal");
  }
  if (ch < SUB_CONSTELLATION_COUNT) {
    std::string sub = sub_constellation_to_string((sub_constellation_t)ch);
    std::string con = constellation_to_string(sub_constellation_to_constellation((sub_constellation_t)ch));
    CHECK(sub.compare(0, con.size(), con) == 0, "sub constellation %s belongs to %s", sub.c_str(), con.c_str());
  }
  if (ch >= 120 && ch <= 138) {
    int sys = -1;
    for (int k = 0; k < SBAS_COUNT; k++) {
      const u8 *l = get_sbas_prn_list((sbas_system_t)k);
      for (int j = 0; j < MAX_SBAS_SATS_PER_SYSTEM; j++) {
        CHECK(l[j] == 0 || (l[j] >= 120 && l[j] <= 138), "provider %d lists %d", k, l[j]);
        if (l[j] == ch) { CHECK(sys < 0, "satellite %d listed twice", ch); sys = k; }
      }
    }
    // providers' satellites as published in February 2020, the table's date
    static const signed char pub[19] = {-1, -1, -1, 1, -1, -1, 1, 2, 2, 3, -1, 0, -1, 0, -1, -1, 1, 3, 0};
    CHECK(sys == pub[ch - 120], "satellite %d belongs to provider %d, published %d", ch, sys, pub[ch - 120]);
    for (int code : {2, 41, 42, 43, 60}) CHECK((int)get_sbas_system(mk(code, ch)) == sys, "get_sbas_system(%d)=%d, expected %d", ch, get_sbas_system(mk(code, ch)), sys);
  }
}

SUB(P08, suffix, 0.5, 2000, "labels with a suffix and any satellite number in an exactly sized buffer; non-trivial: satellite number above 999") {
  int code = (int)c.range(-1, 64), sat = (int)c.u(65535);
  std::string cs = code >= 0 && code < 64 ? code_to_string((code_t)code) : "?";
  std::string num = std::to_string(sat);
  int room = SID_STR_LEN_MAX - 1 - (int)cs.size() - (int)num.size();
  if (room < 0) return;
  std::string suf;
  int n = (int)c.range(0, room);
  for (int i = 0; i < n; i++) suf += (char)c.range(33, 126);
  std::string want = cs + suf + num;
  Buf b(want.size() + 1), sb(suf.size());
  if (n) memcpy(sb.p, suf.data(), n);
  int r = sat_code_to_string((char *)b.p, suf.size(), (const char *)sb.p, (u16)sat, (code_t)code);
  c.nontrivial(sat > 999);
  CHECK(r == (int)want.size() && !strcmp((char *)b.p, want.c_str()), "\"%s\" (%d), expected \"%s\"", (char *)b.p, r, want.c_str());
}

// ---- P09 ------------------------------------------------------------------
SUB(P09, order, 2, 20000, "triples of signals, valid, unknown or with any satellite number: sign, antisymmetry, transitivity, equality, hash, operators; non-trivial: three different signals of different codes") {
  gnss_signal_t a = gen_any(c), b = c.chance(1, 5) ? a : gen_any(c), d = c.chance(1, 5) ? b : gen_any(c);
  if (c.chance(1, 4)) { b = a; b.sat = (u16)c.u(65535); }
  if (c.chance(1, 6)) { d = a; d.code = b.code; }
  c.note("(%d,%u) (%d,%u) (%d,%u)", a.code, a.sat, b.code, b.sat, d.code, d.sat);
  c.nontrivial(!same(a, b) && !same(b, d) && !same(a, d) && a.code != b.code && b.code != d.code);
  auto sg = [](int x) { return (x > 0) - (x < 0); };
  int ab = sg(sid_compare(a, b)), ba = sg(sid_compare(b, a)), bd = sg(sid_compare(b, d)), ad = sg(sid_compare(a, d));
  CHECK(sid_compare(a, a) == 0 && sid_is_equal(a, a) && a == a && !(a != a) && !(a < a) && !(a > a) && a <= a && a >= a, "not reflexive");
  CHECK(ab == -ba, "compare not antisymmetric: %d %d", ab, ba);
  CHECK((ab == 0) == same(a, b), "compare says %d for %s signals", ab, same(a, b) ? "equal" : "different");
  CHECK(sid_is_equal(a, b) == same(a, b) && (a == b) == same(a, b) && (a != b) == !same(a, b), "equality disagrees with the fields");
  CHECK((sid_hash(a) == sid_hash(b)) == same(a, b), "hash %08x vs %08x", sid_hash(a), sid_hash(b));
  if (ab <= 0 && bd <= 0) CHECK(ad <= 0 && (ad < 0 || (ab == 0 && bd == 0)), "compare not transitive (%d,%d,%d)", ab, bd, ad);
  CHECK(sg(cmp_sid_sid(&a, &b)) == ab, "cmp_sid_sid disagrees with sid_compare");
  // operators: one strict total order
  CHECK((a < b) + (a > b) + (a == b) == 1 && (a < b) == (b > a) && (a <= b) == !(a > b) && (a >= b) == !(a < b), "operators incoherent");
  if (a < b && b < d) CHECK(a < d, "operator< not transitive");
  if (code_valid(a.code) && code_valid(b.code)) CHECK((a < b) == (ab < 0), "operator< disagrees with sid_compare");
  // ordering groups by constellation, then code, then satellite
  if (code_valid(a.code) && code_valid(b.code)) {
    auto key = [](gnss_signal_t s) { return std::make_tuple(rows[s.code].cons, (int)s.code, (int)s.sat); };
    CHECK((ab < 0) == (key(a) < key(b)), "order is not by constellation, code, satellite");
  }
  navigation_measurement_t ma, mb;
  memset(&ma, 0, sizeof ma); memset(&mb, 0, sizeof mb);
  ma.sid = a; mb.sid = b;
  CHECK(sg(nav_meas_cmp(&ma, &mb)) == ab, "nav_meas_cmp disagrees with sid_compare");
}
EXH(P09, unknown, 65 * 65, "every pair of code values including the invalid one and the code count: all queries defined without reading outside the tables") {
  uint64_t i = c.draw(65 * 65 - 1);
  int x = (int)(i / 65) - 1, y = (int)(i % 65) - 1;
  gnss_signal_t a = mk(x, 1), b = mk(y, 1);
  c.nontrivial(x < 0 || y < 0);
  CHECK((sid_compare(a, b) == 0) == (x == y), "codes %d and %d", x, y);
  CHECK((sid_compare(a, b) < 0) == (sid_compare(b, a) > 0), "codes %d and %d", x, y);
  CHECK(sid_is_equal(a, b) == (x == y), "codes %d and %d", x, y);
  CHECK((int)sid_to_constellation(a) == (x < 0 ? -1 : rows[x].cons), "constellation of code %d", x);
  (void)strlen(code_to_string(a.code));
}

// ---- P10 ------------------------------------------------------------------
SUB(P10, carrier, 2, 20000, "every kind of valid signal with random GLONASS channel assignments: carrier frequency, wavelength; non-trivial: a GLONASS signal or a code outside L1") {
  gnss_signal_t s = gen_valid(c);
  double want = rows[s.code].hz;
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  if (rows[s.code].cons == R) {
    int fcn = 0;
    int n = (int)c.size(1, 6);
    for (int i = 0; i < n; i++) { fcn = (int)c.range(1, 14); glo_map_set_slot_id((u16)fcn, s.sat); }
    // neighbours must not matter
    for (int i = 0; i < 3; i++) { int o = (int)c.range(1, 28); if (o != s.sat) glo_map_set_slot_id((u16)c.range(1, 14), (u16)o); }
    if (s.code == CODE_GLO_L1P || s.code == CODE_GLO_L2P) {
      // known finding glo-p-code; both answers are looked at by the probe only
      CHECK(sid_to_carr_freq(s) > 1.2e9, "no frequency");
      return;
    }
    want += (fcn - 8) * (s.code == CODE_GLO_L1OF ? 562.5e3 : 437.5e3);
  }
  c.nontrivial(want != L1);
  double f = sid_to_carr_freq(s), l = sid_to_lambda(s);
  CHECK(near(f, want, 0.01), "carrier of code %d sat %u is %.3f Hz, published %.3f Hz", s.code, s.sat, f, want);
  CHECK(near(l * f, 299792458.0, 1e-6), "wavelength*frequency of code %d sat %u is %.9f", s.code, s.sat, l * f);
}
EXH(P10, chips, 64, "every code: length = rate x period, primary code length, Doppler limits in proportion to the carrier, phase alignment of RINEX 3.03") {
  int code = (int)c.draw(63);
  code_t k = (code_t)code;
  u32 n = code_to_chip_count(k);
  double r = code_to_chip_rate(k);
  u16 p = code_to_prn_period_ms(k);
  c.nontrivial(n != 0);
  CHECK((n == 0) == (r == 0) && (n == 0) == (p == 0), "code %d: %u chips, rate %g, period %u ms", code, n, r, p);
  CHECK(near(n, r * p / 1000.0, 1e-6), "code %d: %u chips but rate x period is %g", code, n, r * p / 1000.0);
  CHECK(code_to_sv_doppler_max(k) == -code_to_sv_doppler_min(k) && code_to_sv_doppler_max(k) > 100, "code %d Doppler limits", code);
  // a satellite has one range rate: its Doppler limit goes with the carrier
  // (QZSS keeps the GPS limit for its L1C codes)
  static const int ref[6] = {CODE_GPS_L1CA, CODE_SBAS_L1CA, CODE_GLO_L1OF, CODE_BDS2_B1, CODE_QZS_L1CA, CODE_GAL_E1B};
  bool qzs_l1c = code == CODE_QZS_L1CI || code == CODE_QZS_L1CQ || code == CODE_QZS_L1CX;
  double lim = code_to_sv_doppler_max(k) / (code_to_sv_doppler_max((code_t)ref[rows[code].cons]) * rows[code].hz / rows[ref[rows[code].cons]].hz);
  CHECK(qzs_l1c || near(lim, 1, 0.02), "code %d Doppler limit %g is %g of its constellation's", code, (double)code_to_sv_doppler_max(k), lim);
  static const std::map<int, double> phase = {
      {CODE_GPS_L1CI, .25}, {CODE_GPS_L1CQ, .25}, {CODE_GPS_L1CX, .25}, {CODE_GPS_L1P, .25}, {CODE_GLO_L1P, .25}, {CODE_GLO_L2P, .25},
      {CODE_QZS_L1CQ, .25}, {CODE_QZS_L1CX, .25}, {CODE_GPS_L2CM, -.25}, {CODE_GPS_L2CL, -.25}, {CODE_GPS_L2CX, -.25}, {CODE_GPS_L5Q, -.25},
      {CODE_SBAS_L5Q, -.25}, {CODE_GAL_E7Q, -.25}, {CODE_GAL_E8Q, -.25}, {CODE_GAL_E5Q, -.25}, {CODE_BDS3_B3Q, -.25}, {CODE_BDS3_B7Q, -.25},
      {CODE_QZS_L5Q, -.25}, {CODE_GAL_E1C, .5}, {CODE_GAL_E6C, -.5}};
  auto ph = phase.find(code);
  CHECK(code_to_phase_alignment(k) == (ph == phase.end() ? 0.0 : ph->second), "code %d phase alignment %g cycles, RINEX 3.03 table A23 has %g", code, (double)code_to_phase_alignment(k), ph == phase.end() ? 0.0 : ph->second);
  (void)code_requires_decoder(k); (void)code_requires_direct_acq(k);
  static const std::map<int, std::pair<u32, double>> pub = {
      {CODE_GPS_L1CA, {1023, 1.023e6}}, {CODE_SBAS_L1CA, {1023, 1.023e6}}, {CODE_QZS_L1CA, {1023, 1.023e6}},
      {CODE_GLO_L1OF, {511, 0.511e6}}, {CODE_GLO_L2OF, {511, 0.511e6}}, {CODE_GPS_L5I, {10230, 10.23e6}},
      {CODE_BDS2_B1, {2046, 2.046e6}}, {CODE_BDS2_B2, {2046, 2.046e6}}, {CODE_GAL_E1B, {4092, 1.023e6}},
      {CODE_GAL_E5I, {10230, 10.23e6}}, {CODE_GAL_E7I, {10230, 10.23e6}}, {CODE_GAL_E6B, {5115, 5.115e6}}, {CODE_QZS_L5I, {10230, 10.23e6}}};
  auto it = pub.find(code);
  if (it != pub.end()) CHECK(n == it->second.first && r == it->second.second, "code %d: %u chips at %g", code, n, r);
}
static bool glo_p_fails(std::string &what) {
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  glo_map_set_slot_id(1, 5);
  double a = sid_to_carr_freq(mk(CODE_GLO_L1P, 5)), b = sid_to_carr_freq(mk(CODE_GLO_L2P, 5));
  char t[160];
  snprintf(t, sizeof t, "GLO L1P/L2P carrier of slot 5 on channel -7 is %.0f/%.0f Hz, published %.0f/%.0f Hz", a, b, 1602e6 - 7 * 562.5e3, 1246e6 - 7 * 437.5e3);
  what = t;
  return fabs(a - (1602e6 - 7 * 562.5e3)) > 1 || fabs(b - (1246e6 - 7 * 437.5e3)) > 1;
}
static int probe_glo_p = reg_probe({"P10", "glo-p-code", glo_p_fails});

// ---- P43 ------------------------------------------------------------------
static int g_lock, g_bad, g_locks, g_unlocks, g_out;
// the map changes only between lock and unlock: what it holds at a lock is what
// it held at the last unlock
static bool g_in_cb;
static int g_seen[29];
static void map_now(int *v) {
  for (int s = 1; s <= 28; s++) {
    gnss_signal_t sid = {(u16)s, CODE_GLO_L1OF};
    v[s] = glo_map_valid(sid) ? glo_map_get_fcn(sid) : 0;
  }
}
static void map_same() {
  int v[29] = {0};
  map_now(v);
  for (int s = 1; s <= 28; s++) if (v[s] != g_seen[s]) g_out = s;
}
static void cb_lock() {
  if (g_in_cb) return;
  if (g_lock) g_bad++;
  g_lock++; g_locks++;
  g_in_cb = true; map_same(); g_in_cb = false;
}
static void cb_unlock() {
  if (g_in_cb) return;
  if (g_lock != 1) g_bad++;
  g_in_cb = true; map_now(g_seen); g_in_cb = false;
  g_lock--; g_unlocks++;
}
SUB(P43, history, 2, 5000, "1..120 assignments (in and out of range), clears, full resets, look-ups by slot and by channel, with and without callbacks, against a map; non-trivial: some channel was held by three slots or reassigned") {
  g_lock = g_bad = g_locks = g_unlocks = 0;
  bool cbs = !c.chance(1, 4);
  glo_map_init(nullptr, nullptr);
  g_out = 0; g_in_cb = false;
  map_now(g_seen);
  glo_map_init(cbs ? cb_lock : nullptr, cbs ? cb_unlock : nullptr);
  glo_map_clear_all();
  int m[29] = {0};
  int n = (int)c.size(1, 120);
  bool re = false;
  int nslots = c.coin() ? 28 : (int)c.range(1, 28), nf = c.coin() ? 14 : (int)c.range(1, 3);
  static const code_t gc[4] = {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P};
  for (int i = 0; i < n; i++) {
    int slot = (int)c.range(1, nslots), f = (int)c.range(1, nf);
    if (c.chance(1, 10)) f = (int)c.range(1, 14);
    int l0 = g_locks;
    switch (c.draw(7)) {
      default:
        glo_map_set_slot_id((u16)f, (u16)slot);
        if (m[slot] && m[slot] != f) re = true;
        m[slot] = f; c.note("set %d ch %d", slot, f);
        CHECK(g_locks - l0 == (cbs ? 1 : 0) && g_unlocks == g_locks, "assignment locked %d times", g_locks - l0);
        break;
      case 3: {  // out of range: ignored
        int bs = c.coin() ? (int)c.pick({0, 29, 30, 255, 256, 257, 284, 65535}) : slot;
        int bf = bs == slot ? (int)c.pick({0, 15, 16, 255, 256, 257, 270, 65535}) : f;
        c.note("set %d ch %d (out of range)", bs, bf);
        glo_map_set_slot_id((u16)bf, (u16)bs);
        break;
      }
      case 4:
        glo_map_clear_slot_id((u16)slot); m[slot] = 0; c.note("clear %d", slot);
        CHECK(g_locks - l0 == (cbs ? 1 : 0) && g_unlocks == g_locks, "clear locked %d times", g_locks - l0);
        break;
      case 5: if (c.chance(1, 4)) { glo_map_clear_all(); memset(m, 0, sizeof m); c.note("clear all"); }
        else if (c.chance(1, 10)) {  // placeholder channels: which ones is not specified
          glo_map_fill_dummy_data(); c.note("fill with placeholders");
          CHECK((g_locks > l0) == cbs, "placeholders written with %d locks", g_locks - l0);
          for (int s = 1; s <= 28; s++) {
            CHECK(glo_map_valid(mk(CODE_GLO_L1OF, s)), "slot %d not mapped by the placeholders", s);
            m[s] = glo_map_get_fcn(mk(CODE_GLO_L1OF, s));
            CHECK(m[s] >= 1 && m[s] <= 14, "placeholder channel of slot %d is %d", s, m[s]);
          }
        }
        break;
    }
    CHECK(g_lock == 0 && g_bad == 0 && g_locks == g_unlocks, "lock/unlock not properly bracketed (%d locks, %d unlocks)", g_locks, g_unlocks);
    if (cbs) {
      map_same();
      CHECK(!g_out, "step %d: slot %d was changed outside lock and unlock", i, g_out);
    }
    if (!c.chance(1, 3) && i != n - 1) continue;
    for (int s = 1; s <= 28; s++) {
      gnss_signal_t sid = mk(gc[s % 4], s);
      CHECK(glo_map_valid(sid) == (m[s] != 0), "step %d: slot %d mapped=%d, expected %d", i, s, glo_map_valid(sid), m[s] != 0);
      if (m[s]) CHECK(glo_map_get_fcn(sid) == m[s], "step %d: slot %d has channel %u, expected %d", i, s, glo_map_get_fcn(sid), m[s]);
    }
    for (int k = 1; k <= 14; k++) {
      std::vector<int> have;
      for (int s = 1; s <= 28; s++) if (m[s] == k) have.push_back(s);
      if (have.size() >= 3) re = true;
      u16 a = 77, b = 77;
      u8 r = glo_map_get_slot_id((u16)k, &a, &b);
      CHECK(r == std::min<size_t>(have.size(), 2), "step %d: channel %d has %u slots, expected %zu", i, k, r, have.size());
      if (have.size() <= 2) {
        int ea = have.size() > 0 ? have[0] : 0, eb = have.size() > 1 ? have[1] : 0;
        CHECK((a == ea && b == eb) || (have.size() == 2 && a == eb && b == ea), "step %d: channel %d slots (%u,%u), expected (%d,%d)", i, k, a, b, ea, eb);
      } else {
        CHECK(a != b && m[a] == k && m[b] == k, "step %d: channel %d slots (%u,%u) do not hold it", i, k, a, b);
      }
    }
  }
  c.nontrivial(re);
  glo_map_init(nullptr, nullptr);
}

EXH(P43, ranges, 65536, "every 16-bit value as slot and as channel: accepted exactly for slots 1..28 and channels 1..14, assignment of any other value leaves the map empty") {
  u16 v = (u16)c.draw(65535);
  bool sl = v >= 1 && v <= 28, fc = v >= 1 && v <= 14;
  c.nontrivial(sl || fc || v > 255);
  CHECK(glo_slot_id_is_valid(v) == sl, "slot %u judged %d", v, !sl);
  CHECK(glo_fcn_is_valid(v) == fc, "channel %u judged %d", v, !fc);
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  glo_map_set_slot_id(1 + v % 14, v);
  glo_map_set_slot_id(v, 1 + v % 28);
  u16 last[29] = {0};
  if (sl) last[v] = (u16)(1 + v % 14);
  if (fc) last[1 + v % 28] = v;
  for (int s = 1; s <= 28; s++) {
    gnss_signal_t sid = mk(CODE_GLO_L1OF, s);
    CHECK(glo_map_valid(sid) == (last[s] != 0), "value %u: slot %d mapped %d", v, s, glo_map_valid(sid));
    if (last[s]) CHECK(glo_map_get_fcn(sid) == last[s], "value %u: slot %d holds %u", v, s, glo_map_get_fcn(sid));
  }
  glo_map_clear_all();
}

// ---- P48 ------------------------------------------------------------------
static double min_s(int k) { return k ? (double)(1u << (k + 4)) / 1000.0 : 0; }
EXH(P48, lock_codes, 256, "every lock-time code: decoding gives the published minimum, re-encoding is the identity") {
  int k = (int)c.draw(255);
  double d = decode_lock_time((u8)k);
  c.nontrivial(k > 0);
  CHECK(near(d, min_s(k & 15), 1e-12), "decode(%d)=%.9f, expected %.9f", k, d, min_s(k & 15));
  u8 e = encode_lock_time(d);
  CHECK(e == (k & 15), "encode(decode(%d)) = %u", k, e);
}
SUB(P48, lock_times, 1, 20000, "lock times from zero to decades: largest indicator whose minimum does not exceed the time; non-trivial: at least 32 ms") {
  double t;
  switch (c.draw(3)) {
    case 0: t = c.ureal(0, 600); break;
    case 1: t = c.logreal(1e-4, 1e9); break;
    case 2: t = (double)c.u(2000000) / 1000.0; break;
    default: {
      int k = (int)c.range(1, 15);
      t = min_s(k) + c.sign() * (double)c.range(0, 2) / 1000.0;
      if (c.chance(1, 3)) t = 4294967.296 * c.ureal(0.9, 1100);
      break;
    }
  }
  int want = 0;
  for (int k = 1; k < 16; k++) if (t * 1000.0 >= (double)(1u << (k + 4))) want = k;
  c.note("t=%.17g", t);
  c.nontrivial(t >= 0.032);
  u8 e = encode_lock_time(t);
  // a time within rounding of a boundary may fall on either side
  bool edge = false;
  for (int k = 1; k < 16; k++) edge |= fabs(t - min_s(k)) < 1e-12 && t != min_s(k);
  CHECK(e == want || edge, "encode_lock_time(%.12g s) = %u, expected %d (minimum %.3f s)", t, e, want, min_s(want));
}

namespace {
gps_time_t gen_tot(Case &c) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  t.wn = (s16)c.range(0, 4000);
  t.tow = c.real(0, 604799.5);
  return t;
}
navigation_measurement_t gen_meas(Case &c) {
  navigation_measurement_t m;
  memset(&m, 0, sizeof m);
  m.raw_pseudorange = c.real(1.9e7, 4.5e7);
  m.raw_carrier_phase = c.real(-2e8, 2e8);
  m.raw_measured_doppler = c.real(-6000, 6000);
  m.raw_computed_doppler = c.real(-6000, 6000);
  for (int i = 0; i < 3; i++) { m.sat_pos[i] = c.real(-4.3e7, 4.3e7); m.sat_vel[i] = c.real(-4000, 4000); m.sat_acc[i] = c.real(-1, 1); }
  m.eph_key = (u16)c.bits(16);
  m.sat_clock_err = c.real(-1e-3, 1e-3);
  m.sat_clock_err_rate = c.real(-1e-9, 1e-9);
  m.cn0 = c.real(0, 60);
  m.lock_time = c.real(0, 1e4);
  m.elevation = c.real(-90, 90);
  m.tot = gen_tot(c);
  m.sid = gen_valid(c);
  m.flags = (u16)c.bits(16);
  return m;
}
void map_all(Case &c, int fcn[29]) {
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  for (int i = 1; i <= 28; i++) { fcn[i] = (int)c.range(1, 14); glo_map_set_slot_id((u16)fcn[i], (u16)i); }
}
// smallest step that changes v by well over the comparison resolution
double bump(Case &c, double v) {
  double st = fmax(4e-12, fabs(v) * 1e-14);
  if (c.coin()) st = fmax(st, c.logreal(1e-11, 1e6));
  double r = v + c.sign() * st;
  return r;
}
}  // namespace

SUB(P48, clock_corrections, 1, 10000, "random measurements of every signal: correction equals the clock error in the observable's unit; non-trivial: GLONASS or non-zero error") {
  int fcn[29];
  map_all(c, fcn);
  navigation_measurement_t m = gen_meas(c);
  if (m.sid.code == CODE_GLO_L1P || m.sid.code == CODE_GLO_L2P) m.sid.code = m.sid.code == CODE_GLO_L1P ? CODE_GLO_L1OF : CODE_GLO_L2OF;
  double f = rows[m.sid.code].hz;
  if (m.sid.code == CODE_GLO_L1OF) f += (fcn[m.sid.sat] - 8) * 562.5e3;
  if (m.sid.code == CODE_GLO_L2OF) f += (fcn[m.sid.sat] - 8) * 437.5e3;
  c.note("code=%d sat=%u err=%g rate=%g", m.sid.code, m.sid.sat, m.sat_clock_err, m.sat_clock_err_rate);
  c.nontrivial(m.sat_clock_err != 0 && m.sat_clock_err_rate != 0);
  navigation_measurement_t m0 = m;
  double p = nav_meas_cor_sat_clk_on_pseudorange(&m), d = nav_meas_cor_sat_clk_on_measured_doppler(&m), l = nav_meas_cor_sat_clk_on_carrier_phase(&m);
  CHECK(!memcmp(&m, &m0, sizeof m), "measurement modified");
  CHECK(near(p, (double)((long double)m.raw_pseudorange + 299792458.0L * m.sat_clock_err), 1e-7), "pseudorange %.9f", p);
  CHECK(near(d, (double)((long double)m.raw_measured_doppler - (long double)f * m.sat_clock_err_rate), 1e-9), "Doppler %.12f of code %d", d, m.sid.code);
  CHECK(near(l, (double)((long double)m.raw_carrier_phase + (long double)f * m.sat_clock_err), 1e-6), "phase %.9f of code %d", l, m.sid.code);
}
EXH(P48, flags, 65536, "every flag word: pseudorange usable exactly when code valid and not excluded; the word valid exactly when it has only documented flags") {
  u16 f = (u16)c.draw(65535);
  navigation_measurement_t m;
  memset(&m, 0, sizeof m);
  m.flags = f;
  m.sid = mk((int)(f % 64), 1);
  c.nontrivial((f & 0x41) != 0);
  CHECK(pseudorange_valid(&m) == ((f & 1) && !(f & 64)), "pseudorange_valid(flags %04x)", f);
  /* the RAIM mark is defined but not among the documented members of the mask: either answer */
  if (!(f & 64)) CHECK(nav_meas_flags_valid(f) == (f < 64), "nav_meas_flags_valid(%04x) is %d", f, nav_meas_flags_valid(f));
  else if (f >= 128) CHECK(!nav_meas_flags_valid(f), "nav_meas_flags_valid(%04x) is true", f);
  CHECK(not_l2p_sid(m) == (m.sid.code != CODE_GPS_L2P), "not_l2p_sid(code %d)", m.sid.code);
}
SUB(P48, equality, 2, 20000, "a measurement against itself and against a copy with exactly one field changed by at least the comparison resolution, in both orders; every field; non-trivial: all") {
  navigation_measurement_t a = gen_meas(c), b = a;
  CHECK(nav_meas_equal(&a, &b) && nav_meas_equal(&a, &a), "copy not equal");
  int k = (int)c.draw(22);
  const char *w = "?";
  double *d = nullptr;
  switch (k) {
    case 0: d = &b.raw_pseudorange; w = "pseudorange"; break;
    case 1: d = &b.raw_carrier_phase; w = "phase"; break;
    case 2: d = &b.raw_measured_doppler; w = "measured Doppler"; break;
    case 3: d = &b.raw_computed_doppler; w = "computed Doppler"; break;
    case 4: case 5: case 6: d = &b.sat_pos[k - 4]; w = "satellite position"; break;
    case 7: case 8: case 9: d = &b.sat_vel[k - 7]; w = "satellite velocity"; break;
    case 10: case 11: case 12: d = &b.sat_acc[k - 10]; w = "satellite acceleration"; break;
    case 13: d = &b.sat_clock_err; w = "clock error"; break;
    case 14: d = &b.sat_clock_err_rate; w = "clock error rate"; break;
    case 15: d = &b.cn0; w = "C/N0"; break;
    case 16: d = &b.lock_time; w = "lock time"; break;
    case 17: d = &b.elevation; w = "elevation"; break;
    case 18: b.eph_key ^= (u16)(1 + c.u(65534)); w = "ephemeris key"; break;
    case 19: b.flags ^= (u16)(1 + c.u(65534)); w = "flags"; break;
    case 20: b.sid = gen_valid(c); if (same(a.sid, b.sid)) b.sid.sat ^= 1; w = "signal"; break;
    case 21: { int dw = (int)c.range(1, 500); b.tot.wn = (s16)(c.coin() && b.tot.wn >= dw ? b.tot.wn - dw : b.tot.wn + dw); } w = "time of transmission (week)"; break;
    default: b.tot.tow = b.tot.tow > 1000 ? b.tot.tow - c.logreal(1e-8, 999) : b.tot.tow + c.logreal(1e-8, 999); w = "time of transmission"; break;
  }
  if (d) { double o = *d; *d = bump(c, o); c.note("%s %.17g -> %.17g", w, o, *d); if (!(fabs(*d - o) > 2e-12)) return; }
  c.nontrivial();
  CHECK(!nav_meas_equal(&a, &b) && !nav_meas_equal(&b, &a), "change of %s not seen", w);
}
SUB(P48, std_equality, 0.5, 5000, "measurement deviations against a copy with one field changed; non-trivial: all") {
  measurement_std_t a, b;
  memset(&a, 0, sizeof a);
  a.sid = gen_valid(c);
  a.iono_std = c.real(0, 100); a.tropo_std = c.real(0, 100); a.range_std = c.real(0, 100);
  a.flags = c.byte();
  b = a;
  CHECK(measurement_std_equal(&a, &b), "copy not equal");
  double *d = nullptr, o = 0;
  int k = (int)c.draw(4);
  switch (k) {
    case 0: d = &b.iono_std; break;
    case 1: d = &b.tropo_std; break;
    case 2: d = &b.range_std; break;
    case 3: b.flags ^= (u8)(1 + c.u(254)); break;
    default: b.sid = gen_valid(c); if (same(a.sid, b.sid)) b.sid.sat ^= 1;
  }
  if (d) { o = *d; *d = bump(c, o); if (!(fabs(*d - o) > 2e-12)) return; }
  c.nontrivial();
  CHECK(!measurement_std_equal(&a, &b) && !measurement_std_equal(&b, &a), "change %d not seen", k);
}
SUB(P48, sorting, 0.5, 2000, "qsort of measurement arrays by the comparison: a permutation ordered by signal; non-trivial: at least 5") {
  int n = (int)c.size(0, 32);
  std::vector<navigation_measurement_t> v;
  for (int i = 0; i < n; i++) {
    navigation_measurement_t m;
    memset(&m, 0, sizeof m);
    m.sid = gen_valid(c);
    m.lock_time = i;
    v.push_back(m);
  }
  auto w = v;
  if (n) qsort(w.data(), n, sizeof w[0], nav_meas_cmp);
  std::set<double> ids;
  for (int i = 0; i < n; i++) {
    ids.insert(w[i].lock_time);
    if (i) {
      auto key = [](gnss_signal_t s) { return std::make_tuple(rows[s.code].cons, (int)s.code, (int)s.sat); };
      CHECK(!(key(w[i].sid) < key(w[i - 1].sid)), "position %d out of order", i);
    }
  }
  c.nontrivial(n >= 5);
  CHECK((int)ids.size() == n, "not a permutation");
}

// ---- P49 ------------------------------------------------------------------
static glo_biases_t gen_bias(Case &c) {
  glo_biases_t b;
  memset(&b, 0, sizeof b);
  b.mask = c.coin() ? (u8)c.draw(15) : c.byte();
  b.l1of_bias_m = c.real(-655, 655);
  b.l1p_bias_m = c.real(-655, 655);
  b.l2of_bias_m = c.real(-655, 655);
  b.l2p_bias_m = c.real(-655, 655);
  return b;
}
SUB(P49, correction, 2, 20000, "random biases, every mask and every code: own bias when flagged, else P bias of the band, else zero; non-trivial: a GLONASS OF code with some flag") {
  glo_biases_t b = gen_bias(c);
  int code = c.coin() ? (int)c.pick({3, 4, 29, 30}) : (int)c.range(-1, 63);
  // masks as published in RTCM DF422: L2 P, L2 CA, L1 P, L1 CA from bit 0
  double want = 0;
  if (code == 3) want = (b.mask & 8) ? -b.l1of_bias_m : (b.mask & 4) ? -b.l1p_bias_m : 0;
  if (code == 4) want = (b.mask & 2) ? -b.l2of_bias_m : (b.mask & 1) ? -b.l2p_bias_m : 0;
  want += 0.0;
  if (want != 0) want += code == 3 ? piksi_glonass_biases.l1of_bias_m : piksi_glonass_biases.l2of_bias_m;
  c.note("code=%d mask=%02x", code, b.mask);
  c.nontrivial((code == 3 || code == 4) && (b.mask & 15));
  double g = get_glonass_bias((code_t)code, b);
  CHECK(g == want || near(g, want, 1e-12), "bias of code %d with mask %02x is %.6f, expected %.6f", code, b.mask, g, want);
}
EXH(P49, flag, 65536, "every mask byte and flag byte: set exactly when all bits of the flag are") {
  uint64_t i = c.draw(65535);
  u8 m = (u8)(i >> 8), f = (u8)i;
  c.nontrivial(f != 0);
  CHECK(is_bias_mask_flag_set(m, f) == ((m & f) == f), "flag %02x in mask %02x", f, m);
}
SUB(P49, equality, 1, 10000, "biases against a copy with one field changed by at least the resolution; non-trivial: all") {
  glo_biases_t a = gen_bias(c), b = a;
  CHECK(glonass_biases_are_equal(a, b), "copy not equal");
  int k = (int)c.draw(4);
  double *d = k == 0 ? &b.l1of_bias_m : k == 1 ? &b.l1p_bias_m : k == 2 ? &b.l2of_bias_m : k == 3 ? &b.l2p_bias_m : nullptr;
  if (d) { double o = *d; *d = bump(c, o); if (!(fabs(*d - o) > 2e-12)) return; } else b.mask ^= (u8)(1 + c.u(254));
  c.nontrivial();
  CHECK(!glonass_biases_are_equal(a, b) && !glonass_biases_are_equal(b, a), "change of field %d not seen", k);
}
