// Encoders of the broadcast navigation messages, written from the interface
// documents; shared by the check groups.
#pragma once
#include "pbt.h"
#include <swiftnav/ephemeris.h>
namespace nav_encode {
using namespace pbt;
inline int64_t sext(uint64_t v, int n) { return (int64_t)(v << (64 - n)) >> (64 - n); }
// n-bit raw field: unsigned value and its signed reading
struct F { uint64_t r; int n; int64_t s() const { return sext(r, n); } };
inline F gf(Case &c, int n) { return F{c.bits((unsigned)n), n}; }

// GPS words: 30 bits each, bit 1 is the most significant
struct Words {
  u32 w[3][8];
  explicit Words(Case &c) { for (auto &s : w) for (auto &x : s) x = (u32)c.bits(c.chance(1, 4) ? 32 : 30); }
  void put(int sf, int word, int first, int n, uint64_t v) {
    int sh = 30 - (first + n - 1);
    u32 m = (u32)((1ull << n) - 1) << sh;
    u32 &x = w[sf - 1][word - 3];
    x = (x & ~m) | ((u32)(v << sh) & m);
  }
  // a 32-bit value split 8 + 24
  void put32(int sf, int word, uint64_t v) { put(sf, word, 17, 8, v >> 24); put(sf, word + 1, 1, 24, v); }
};

// information bits of the words of one D1 subframe in transmission order;
// word 1 has 26, the others 22 of their 30 bits
struct D1 {
  u32 w[10];
  int pos;  // information bit position counted from word 2
  void start(Case &c) { for (auto &x : w) x = (u32)c.bits(c.chance(1, 4) ? 32 : 30); pos = 0; }
  void add(uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--, pos++) {
      u32 &x = w[1 + pos / 22];
      int sh = 29 - pos % 22;
      x = (x & ~(1u << sh)) | ((u32)(v >> i & 1) << sh);
    }
  }
};

struct Page {
  u8 b[5][GAL_INAV_CONTENT_BYTE];
  void put(int word, int pos, int n, uint64_t v) {
    for (int i = 0; i < n; i++) {
      int p = pos + i;
      u8 m = (u8)(0x80 >> (p & 7));
      if (v >> (n - 1 - i) & 1) b[word - 1][p >> 3] |= m; else b[word - 1][p >> 3] &= (u8)~m;
    }
  }
  void put(int word, int pos, const F &f) { put(word, pos, f.n, f.r); }
};

// Hamming code position of string bit i (9..85): the non-powers of two from 3
inline int ham_pos(int bit) {
  static int pos[86];
  if (!pos[9]) { int p = 3; for (int b = 9; b <= 85; b++) { while ((p & (p - 1)) == 0) p++; pos[b] = p++; } }
  return pos[bit];
}
struct Str {
  glo_string_t s;
  Str() { memset(&s, 0, sizeof s); }
  bool get(int bit) const { return s.word[(bit - 1) / 32] >> ((bit - 1) % 32) & 1; }
  void set(int bit, bool v) { u32 m = 1u << ((bit - 1) % 32); if (v) s.word[(bit - 1) / 32] |= m; else s.word[(bit - 1) / 32] &= ~m; }
  void flip(int bit) { set(bit, !get(bit)); }
  void put(int first, int n, uint64_t v) { for (int i = 0; i < n; i++) set(first + i, v >> i & 1); }
  void put_sm(int first, int n, int64_t v) { put(first, n - 1, (uint64_t)llabs(v)); set(first + n - 1, v < 0); }  // sign and magnitude
  void seal() {  // check bits
    int syn = 0;
    for (int b = 9; b <= 85; b++) if (get(b)) syn ^= ham_pos(b);
    for (int j = 0; j < 7; j++) set(j + 1, syn >> j & 1);
    bool p = false;
    set(8, false);
    for (int b = 1; b <= 85; b++) p ^= get(b);
    set(8, p);
  }
};

inline int64_t civil_days(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 - 3657;  // from 1980-01-06
}
// GPS seconds of a Moscow-time instant, table of leap seconds since 1996
inline double glo_gps(int n4, int nt, int sec) {
  double utc = (double)(civil_days(1996 + 4 * (n4 - 1), 1, 1) + nt - 1) * 86400.0 + sec - 10800;
  const int ym[8][2] = {{1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
  int off = 10;
  for (auto &l : ym) if (utc >= (double)civil_days(l[0], l[1], 1) * 86400.0) off++;
  return utc + off;
}
}  // namespace nav_encode
