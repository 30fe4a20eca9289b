// P01 P02 P03 P04 P05 P06 P11: bit/byte level utilities.
#include "pbt.h"
#include <sys/mman.h>
#include <algorithm>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <swiftnav/array_tools.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/edc.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/set.h>
#include <swiftnav/swift_strnlen.h>
using namespace pbt;

// ---- reference bit vector -------------------------------------------------
static int rbit(const uint8_t *b, uint64_t i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static void wbit(uint8_t *b, uint64_t i, int v) {
  uint8_t m = (uint8_t)(1u << (7 - i % 8));
  b[i / 8] = v ? (b[i / 8] | m) : (b[i / 8] & (uint8_t)~m);
}
static uint64_t rfield(const uint8_t *b, uint64_t pos, unsigned len) {
  uint64_t v = 0;
  for (unsigned i = 0; i < len; i++) v = (v << 1) | (uint64_t)rbit(b, pos + i);
  return v;
}
static int64_t sext(uint64_t v, unsigned len) {
  if (len == 64) return (int64_t)v;
  return (v >> (len - 1)) & 1 ? (int64_t)(v | (~0ull << len)) : (int64_t)v;
}

// a size that is nearly always small and now and then far above every 8/16-bit limit
static int64_t bigsize(Case &c, int64_t lo, int64_t small, int64_t big, unsigned one_in) {
  if (!c.chance(1, one_in)) return c.size(lo, small);
  c.label("large");
  int sh = (int)c.range(0, 4);
  return small + (int64_t)c.u((uint64_t)(big >> (2 * sh)));
}

// ---- P01 ------------------------------------------------------------------
SUB(P01, read, 1, 40000, "buffer of 1..40 bytes sized exactly to the field end, position, width 1..64; non-trivial: field not byte aligned") {
  unsigned wide = c.coin();
  unsigned len = (unsigned)c.range(1, wide ? 64 : 32);
  uint32_t pos = (uint32_t)bigsize(c, 0, 256, 300000, 150);
  if (c.chance(1, 1200)) { pos = (uint32_t)c.range(524200, 1200000); c.label("beyond 65536 bytes"); }
  size_t bytes = (pos + len + 7) / 8;
  Buf b(bytes);
  c.fill(b.p, bytes);
  std::vector<uint8_t> before(b.p, b.p + bytes);
  c.note("len=%u pos=%u buf=%s", len, pos, bytes < 100 ? hex(b.p, bytes).c_str() : "..");
  c.nontrivial(pos % 8 || len % 8);
  // the buffer starts at the byte holding the field: earlier bytes must not matter
  uint64_t e = rfield(b.p, pos, len);
  if (!wide) {
    CHECK(getbitu(b.p, pos, (u8)len) == e, "getbitu(%u,%u)=%x want %llx", pos, len, getbitu(b.p, pos, (u8)len), (unsigned long long)e);
    CHECK(getbits(b.p, pos, (u8)len) == (int32_t)sext(e, len), "getbits(%u,%u)=%d want %lld", pos, len, getbits(b.p, pos, (u8)len), (long long)sext(e, len));
  }
  CHECK(getbitul(b.p, pos, (u8)len) == e, "getbitul(%u,%u)=%llx want %llx", pos, len, (unsigned long long)getbitul(b.p, pos, (u8)len), (unsigned long long)e);
  CHECK(getbitsl(b.p, pos, (u8)len) == sext(e, len), "getbitsl(%u,%u)=%lld want %lld", pos, len, (long long)getbitsl(b.p, pos, (u8)len), (long long)sext(e, len));
  CHECK(!memcmp(before.data(), b.p, bytes), "read modified the buffer");
  if (pos >= 8) {
    // memory safety at the front: hand out only the bytes containing the field
    size_t skip = pos / 8;
    Buf t(bytes - skip);
    memcpy(t.p, b.p + skip, bytes - skip);
    CHECK(getbitul(t.p - 0, pos % 8, (u8)len) == e, "front-trimmed read differs");
  }
}
extern "C" { s32 shim_sext32(unsigned, u32); s64 shim_sext64(unsigned, u64); }
SUB(P01, sign_extension, 0.3, 10000, "sign-extension macros at every width 1..32 and 1..64 on random and extreme ordinals, clean or with stray high bits; non-trivial: negative result") {
  unsigned n = (unsigned)c.range(1, 64);
  uint64_t v = c.u64();
  if (!c.chance(1, 4)) v = c.pick(std::vector<uint64_t>{0, 1, 1ull << (n - 1), (1ull << (n - 1)) - 1, ~0ull, v});
  uint64_t m = n == 64 ? v : v & ((1ull << n) - 1);
  if (c.coin()) v = m;
  int64_t e = sext(m, n);
  c.nontrivial(e < 0);
  c.note("width %u value %llx", n, (unsigned long long)v);
  CHECK(shim_sext64(n, v) == e, "BITS_SIGN_EXTEND_64(%u, %llx) = %lld want %lld", n, (unsigned long long)v, (long long)shim_sext64(n, v), (long long)e);
  if (n <= 32) CHECK(shim_sext32(n, (u32)v) == e, "BITS_SIGN_EXTEND_32(%u, %llx) = %d want %lld", n, (unsigned long long)v, shim_sext32(n, (u32)v), (long long)e);
}
SUB(P01, write_history, 1, 20000, "sequence of 1..12 field writes (all four writers) into one buffer, model bit vector compared after each; non-trivial: at least 2 writes, one unaligned") {
  size_t bytes = (size_t)bigsize(c, 1, 24, 40000, 200);
  if (c.chance(1, 2500)) { bytes = (size_t)c.range(65537, 140000); c.label("beyond 65536 bytes"); }
  Buf b(bytes);
  c.fill(b.p, bytes);
  std::vector<uint8_t> m(b.p, b.p + bytes);
  int n = (int)c.range(1, 12);
  bool una = false;
  for (int k = 0; k < n; k++) {
    unsigned total = (unsigned)bytes * 8;
    int op = (int)c.draw(3);
    unsigned maxlen = op < 2 ? 32 : 64;
    unsigned len = (unsigned)c.range(1, std::min(maxlen, total));
    unsigned pos = c.chance(1, 6) ? total - len : (unsigned)c.range(0, total - len);
    uint64_t v = c.bits(64);
    una |= pos % 8 != 0 && len > 8;
    c.note("op%d pos=%u len=%u v=%llx", op, pos, len, (unsigned long long)v);
    switch (op) {
      case 0: setbitu(b.p, pos, len, (u32)v); break;
      case 1: setbits(b.p, pos, len, (s32)v); break;
      case 2: setbitul(b.p, pos, len, v); break;
      default: setbitsl(b.p, pos, len, (s64)v);
    }
    if (op < 2) v &= 0xffffffffu;
    for (unsigned i = 0; i < len; i++) wbit(m.data(), pos + i, (int)((v >> (len - 1 - i)) & 1));
    CHECK(!memcmp(m.data(), b.p, bytes), "after write op%d pos=%u len=%u v=%llx buffer is %s want %s", op, pos, len, (unsigned long long)v, hex(b.p, std::min<size_t>(bytes, 100)).c_str(), hex(m.data(), std::min<size_t>(bytes, 100)).c_str());
    uint64_t trunc = len == 64 ? v : v & ((1ull << len) - 1);
    CHECK(getbitul(b.p, pos, (u8)len) == trunc, "read back differs");
    CHECK(getbitsl(b.p, pos, (u8)len) == sext(trunc, len), "signed read back differs");
  }
  c.nontrivial(n >= 2 && una);
}
// a sparse area longer than every 32-bit bit offset
static uint8_t *far_area() {
  static uint8_t *p = nullptr;
  if (!p) {
    p = (uint8_t *)mmap(nullptr, (1ull << 32) + 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
  }
  return p;
}
SUB(P01, far, 0.2, 2000, "one write and read of each kind in a sparse buffer of 512 MiB, offsets over the whole range of 32 bits (beside the powers of two, at the very end, and anywhere in a few pages), 16 bytes each side compared with the model; non-trivial: offset above 2^24") {
  uint8_t *b = far_area();
  unsigned wide = c.coin(), len = (unsigned)c.range(1, wide ? 64 : 32);
  uint64_t pos;
  switch (c.draw(2)) {
    case 0: { int k = (int)c.range(16, 32); pos = (1ull << k) - (uint64_t)c.draw(70) + (k < 32 ? c.draw(70) : 0); break; }
    case 1: pos = (1ull << 32) - len - c.draw(9); break;
    default: pos = c.draw(15) * 0x10000000ull + 0x8000000ull + c.draw(32767); break;
  }
  if (pos > UINT32_MAX) pos = UINT32_MAX;
  if (pos + len > (1ull << 32)) len = (unsigned)((1ull << 32) - pos);
  size_t lo = pos / 8 >= 16 ? pos / 8 - 16 : 0, hi = (pos + len + 7) / 8 + 16;
  uint64_t v = c.bits(64);
  uint8_t fillv = c.byte();
  memset(b + lo, fillv, hi - lo);
  std::vector<uint8_t> m(b + lo, b + hi);
  c.note("pos=%llu len=%u v=%llx", (unsigned long long)pos, len, (unsigned long long)v);
  c.nontrivial(pos > (1u << 24));
  bool sg = c.coin();
  if (wide) { if (sg) setbitsl(b, (u32)pos, len, (s64)v); else setbitul(b, (u32)pos, len, v); }
  else { if (sg) setbits(b, (u32)pos, len, (s32)v); else setbitu(b, (u32)pos, len, (u32)v); }
  for (unsigned i = 0; i < len; i++) wbit(m.data(), pos - (uint64_t)lo * 8 + i, (int)((v >> (len - 1 - i)) & 1));
  CHECK(!memcmp(m.data(), b + lo, hi - lo), "write at %llu: %s want %s", (unsigned long long)pos, hex(b + lo, hi - lo).c_str(), hex(m.data(), hi - lo).c_str());
  uint64_t e = len == 64 ? v : v & ((1ull << len) - 1);
  CHECK(getbitul(b, (u32)pos, (u8)len) == e, "getbitul(%llu,%u)=%llx want %llx", (unsigned long long)pos, len, (unsigned long long)getbitul(b, (u32)pos, (u8)len), (unsigned long long)e);
  CHECK(getbitsl(b, (u32)pos, (u8)len) == sext(e, len), "getbitsl(%llu,%u)", (unsigned long long)pos, len);
  if (!wide) {
    CHECK(getbitu(b, (u32)pos, (u8)len) == e, "getbitu(%llu,%u)=%x want %llx", (unsigned long long)pos, len, getbitu(b, (u32)pos, (u8)len), (unsigned long long)e);
    CHECK(getbits(b, (u32)pos, (u8)len) == (int32_t)sext(e, len), "getbits(%llu,%u)", (unsigned long long)pos, len);
  }
  // and copied to the front or from the front
  Buf s(24);
  memset(s.p, 0, 24);
  bitcopy(s.p, 3, b, (u32)pos, len);
  CHECK(rfield(s.p, 3, len) == e, "bitcopy from %llu", (unsigned long long)pos);
  memset(b + lo, 0, hi - lo);
}
SUB(P01, write_degenerate, 0.1, 500, "widths 0 and above the limit write nothing; non-trivial: width above limit") {
  Buf b(9);
  c.fill(b.p, 9);
  std::vector<uint8_t> m(b.p, b.p + 9);
  bool l = c.coin();
  unsigned len = c.coin() ? 0 : (unsigned)c.range(l ? 65 : 33, 300);
  unsigned pos = (unsigned)c.range(0, 7);
  if (l) { setbitul(b.p, pos, len, c.u64()); setbitsl(b.p, pos, len, (s64)c.u64()); }
  else { setbitu(b.p, pos, len, c.u32()); setbits(b.p, pos, len, (s32)c.u32()); }
  c.nontrivial(len > 0);
  CHECK(!memcmp(m.data(), b.p, 9), "write of width %u changed the buffer", len);
}

// ---- P02 ------------------------------------------------------------------
SUB(P02, bitcopy, 1, 20000, "copy of 0..300 bits between exactly sized buffers at arbitrary offsets; non-trivial: more than 32 bits with different alignments") {
  unsigned cnt = c.chance(1, 2000) ? (unsigned)c.range(2097000, 2300000) : (unsigned)bigsize(c, 0, 300, 300000, 150), di = (unsigned)bigsize(c, 0, 70, 100000, 300), si = (unsigned)bigsize(c, 0, 70, 100000, 300);
  size_t db = (di + cnt + 7) / 8 + (c.coin() ? (size_t)c.range(0, 4) : 0), sb = (si + cnt + 7) / 8;
  Buf d(db), s(sb);
  c.fill(d.p, db);
  c.fill(s.p, sb);
  std::vector<uint8_t> m(d.p, d.p + db), s0(s.p, s.p + sb);
  for (unsigned i = 0; i < cnt; i++) wbit(m.data(), di + i, rbit(s.p, si + i));
  c.note("count=%u dst=%u src=%u", cnt, di, si);
  c.nontrivial(cnt > 32 && (di % 8) != (si % 8));
  bitcopy(d.p, di, s.p, si, cnt);
  CHECK(!memcmp(m.data(), d.p, db), "bitcopy count=%u di=%u si=%u wrong: %s want %s", cnt, di, si, hex(d.p, std::min<size_t>(db, 100)).c_str(), hex(m.data(), std::min<size_t>(db, 100)).c_str());
  CHECK(!memcmp(s0.data(), s.p, sb), "bitcopy changed its source");
}
SUB(P02, bitshl, 1, 20000, "left shift of a 1..40 byte buffer by 0..beyond its size; non-trivial: shift not a multiple of 8 and below the size") {
  size_t n = (size_t)bigsize(c, 1, 40, 70000, 150);
  Buf b(n);
  c.fill(b.p, n);
  uint32_t sh = c.chance(1, 12) ? c.u32() : (uint32_t)c.range(0, (int64_t)n * 8 + 10);
  std::vector<uint8_t> m(n, 0);
  for (uint64_t i = 0; i < n * 8; i++) if (i + sh < n * 8) wbit(m.data(), i, rbit(b.p, i + sh));
  size_t nh = std::min<size_t>(n, 100);
  c.note("n=%zu shift=%u buf=%s", n, sh, hex(b.p, nh).c_str());
  c.nontrivial(sh % 8 && sh < n * 8);
  bitshl(b.p, (u32)n, sh);
  CHECK(!memcmp(m.data(), b.p, n), "bitshl(%zu,%u) = %s want %s", n, sh, hex(b.p, nh).c_str(), hex(m.data(), nh).c_str());
}
SUB(P02, words, 1, 20000, "64-bit word, counts of ones and zeros at all widths, parity, interleave, byte swaps; non-trivial: mixed word") {
  uint64_t v = c.u64();
  c.note("v=%llx", (unsigned long long)v);
  c.nontrivial(v != 0 && v != ~0ull);
  int ones = 0;
  for (int i = 0; i < 64; i++) {
    ones += (v >> i) & 1;
    if (i == 7) { CHECK(count_bits_u8((u8)v, 1) == ones, "count8"); CHECK(count_bits_u8((u8)v, 0) == 8 - ones, "count8 zeros"); }
    if (i == 15) { CHECK(count_bits_u16((u16)v, 1) == ones, "count16"); CHECK(count_bits_u16((u16)v, 0) == 16 - ones, "count16 zeros"); }
    if (i == 31) {
      CHECK(count_bits_u32((u32)v, 1) == ones, "count32(%x)=%d want %d", (u32)v, count_bits_u32((u32)v, 1), ones);
      CHECK(count_bits_u32((u32)v, 0) == 32 - ones, "count32 zeros");
      CHECK(parity((u32)v) == (ones & 1), "parity(%x)", (u32)v);
    }
  }
  CHECK(count_bits_u64(v, 1) == ones, "count64"); CHECK(count_bits_u64(v, 0) == 64 - ones, "count64 zeros");
  u8 x = (u8)v, y = (u8)(v >> 8);
  u16 z = 0;
  for (int i = 0; i < 8; i++) z |= (u16)(((x >> i) & 1) << (2 * i) | ((y >> i) & 1) << (2 * i + 1));
  CHECK(bytes_interleave(x, y) == z, "bytes_interleave(%x,%x)=%x want %x", x, y, bytes_interleave(x, y), z);
  uint8_t t[8];
  memcpy(t, &v, 8);
  uint64_t be = 0, le = 0;
  for (int i = 0; i < 8; i++) { be = be << 8 | t[i]; le |= (uint64_t)t[i] << (8 * i); }
  CHECK(betoh_64(v) == be && htobe_64(be) == v, "64-bit big-endian conversion");
  CHECK(letoh_64(v) == le && htole_64(le) == v, "64-bit little-endian conversion");
  uint32_t w; memcpy(&w, t, 4);
  uint32_t be4 = (uint32_t)(t[0] << 24) | (uint32_t)t[1] << 16 | (uint32_t)t[2] << 8 | t[3];
  uint32_t le4 = (uint32_t)(t[3] << 24) | (uint32_t)t[2] << 16 | (uint32_t)t[1] << 8 | t[0];
  CHECK(betoh_32(w) == be4 && htobe_32(be4) == w && letoh_32(w) == le4 && htole_32(le4) == w, "32-bit order conversion");
  uint16_t h; memcpy(&h, t, 2);
  uint16_t be2 = (uint16_t)(t[0] << 8 | t[1]), le2 = (uint16_t)(t[1] << 8 | t[0]);
  CHECK(betoh_16(h) == be2 && htobe_16(be2) == h && letoh_16(h) == le2 && htole_16(le2) == h, "16-bit order conversion");
  CHECK(byte_swap_64(byte_swap_64(v)) == v && byte_swap_32(byte_swap_32(w)) == w && byte_swap_16(byte_swap_16(h)) == h, "swap twice");
}
EXH(P02, all_u16, 65536, "every 16-bit word: counts and parity against a loop") {
  uint32_t v = (uint32_t)c.draw(65535);
  int ones = 0;
  for (int i = 0; i < 16; i++) ones += (v >> i) & 1;
  c.nontrivial();
  CHECK(count_bits_u16((u16)v, 1) == ones && count_bits_u16((u16)v, 0) == 16 - ones, "count16(%x)", v);
  CHECK(parity(v) == (ones & 1) && parity(v << 16) == (ones & 1), "parity(%x)", v);
  int lo = 0;
  for (int i = 0; i < 8; i++) lo += (v >> i) & 1;
  CHECK(count_bits_u8((u8)v, 1) == lo && count_bits_u8((u8)v, 0) == 8 - lo, "count8(%x)", v);
}

// ---- P03 ------------------------------------------------------------------
static uint32_t hugeish(Case &c, uint32_t around) {
  switch (c.draw(5)) {
    case 0: return (uint32_t)c.u(around + 8);
    case 1: return c.u32();
    case 2: return UINT32_MAX - (uint32_t)c.draw(100);
    case 3: return 0u - around - (uint32_t)c.draw(64) + (uint32_t)c.draw(64);
    default: return (uint32_t)c.u(around);
  }
}
SUB(P03, in_bitstream, 1, 20000, "history of peeks/removes on a bit reader over an exactly sized buffer, positions up to 2^32; non-trivial: a success and a refusal") {
  size_t bytes = (size_t)bigsize(c, 0, 24, 40000, 150);
  Buf b(bytes);
  c.fill(b.p, bytes);
  uint32_t total = (uint32_t)bytes * 8;
  if (total && c.chance(1, 3)) total -= (uint32_t)c.range(0, 7);
  swiftnav_in_bitstream_t s;
  swiftnav_in_bitstream_init(&s, b.p, total);
  uint64_t off = 0;  // ideal cursor, never wraps
  int n = (int)c.range(1, 20);
  bool ok1 = false, ref = false;
  for (int k = 0; k < n; k++) {
    int op = (int)c.draw(5);
    uint64_t rem = off > total ? 0 : total - off;
    CHECK(swiftnav_in_bitstream_remaining(&s) == rem, "remaining=%u want %llu", swiftnav_in_bitstream_remaining(&s), (unsigned long long)rem);
    if (op == 4) {
      uint32_t r = c.chance(1, 5) ? hugeish(c, total) : (uint32_t)c.u(rem + 2);
      c.note("remove %u", r);
      swiftnav_in_bitstream_remove(&s, r);
      off += r;
      continue;
    }
    uint32_t pos = c.chance(1, 3) ? hugeish(c, total) : (uint32_t)c.u(rem ? rem - 1 : 0);
    uint32_t len = (uint32_t)c.range(1, op < 2 ? 32 : 64);
    bool inside = off + pos + len <= total;
    c.note("get%d pos=%u len=%u", op, pos, len);
    bool got; int64_t v = 0; uint64_t e = inside ? rfield(b.p, off + pos, len) : 0; bool eq = true;
    if (op == 0) { u32 o = 0xdeadbeef; got = swiftnav_in_bitstream_getbitu(&s, &o, pos, len); v = o; eq = !inside || o == e; if (!got) eq = o == 0xdeadbeef; }
    else if (op == 1) { s32 o = 77; got = swiftnav_in_bitstream_getbits(&s, &o, pos, len); v = o; eq = !inside || o == (s32)sext(e, len); if (!got) eq = o == 77; }
    else if (op == 2) { u64 o = 77; got = swiftnav_in_bitstream_getbitul(&s, &o, pos, len); v = (int64_t)o; eq = !inside || o == e; if (!got) eq = o == 77; }
    else if (op == 3) { s64 o = 77; got = swiftnav_in_bitstream_getbitsl(&s, &o, pos, len); v = o; eq = !inside || o == sext(e, len); if (!got) eq = o == 77; }
    else { got = !swiftnav_in_bitstream_would_overflow(&s, pos, len); }
    CHECK(got == inside, "request pos=%u len=%u at cursor %llu of %u bits: %s, expected %s", pos, len, (unsigned long long)off, total, got ? "accepted" : "refused", inside ? "accepted" : "refused");
    CHECK(eq, "request pos=%u len=%u at cursor %llu returned %lld, want %llx", pos, len, (unsigned long long)off, (long long)v, (unsigned long long)e);
    ok1 |= got; ref |= !got;
  }
  uint64_t rem = off > total ? 0 : total - off;
  CHECK(swiftnav_in_bitstream_remaining(&s) == rem, "remaining=%u want %llu", swiftnav_in_bitstream_remaining(&s), (unsigned long long)rem);
  c.nontrivial(ok1 && ref);
}
SUB(P03, out_bitstream, 1, 20000, "history of writes/removes on a bit writer, model buffer compared after each; non-trivial: a success and a refusal") {
  size_t bytes = (size_t)bigsize(c, 0, 24, 40000, 150);
  Buf b(bytes);
  c.fill(b.p, bytes);
  std::vector<uint8_t> m(b.p, b.p + bytes);
  m.push_back(0);
  uint32_t total = (uint32_t)bytes * 8;
  swiftnav_out_bitstream_t s;
  swiftnav_out_bitstream_init(&s, b.p, total);
  uint64_t off = 0;
  int n = (int)c.range(1, 20);
  bool ok1 = false, ref = false;
  for (int k = 0; k < n; k++) {
    int op = (int)c.draw(5);
    uint64_t rem = off > total ? 0 : total - off;
    CHECK(swiftnav_out_bitstream_remaining(&s) == rem, "remaining");
    if (op >= 4) {
      uint32_t r = c.chance(1, 5) ? hugeish(c, total) : (uint32_t)c.u(rem + 2);
      c.note("remove %u", r);
      swiftnav_out_bitstream_remove(&s, r);
      off += r;
      continue;
    }
    uint32_t pos = c.chance(1, 3) ? hugeish(c, total) : (uint32_t)c.u(rem ? rem - 1 : 0);
    uint32_t len = (uint32_t)c.range(1, op < 2 ? 32 : 64);
    bool inside = off + pos + len <= total;
    uint64_t v = c.u64();
    bool got;
    c.note("set%d pos=%u len=%u v=%llx", op, pos, len, (unsigned long long)v);
    CHECK(swiftnav_out_bitstream_would_overflow(&s, pos, len) == !inside, "overflow query for %u at %u", len, pos);
    if (op == 0) { u32 x = (u32)v; got = swiftnav_out_bitstream_setbitu(&s, &x, pos, len); }
    else if (op == 1) { s32 x = (s32)v; got = swiftnav_out_bitstream_setbits(&s, &x, pos, len); }
    else if (op == 2) { u64 x = v; got = swiftnav_out_bitstream_setbitul(&s, &x, pos, len); }
    else { s64 x = (s64)v; got = swiftnav_out_bitstream_setbitsl(&s, &x, pos, len); }
    CHECK(got == inside, "write pos=%u len=%u at cursor %llu of %u bits: %s, expected %s", pos, len, (unsigned long long)off, total, got ? "accepted" : "refused", inside ? "accepted" : "refused");
    if (inside) for (unsigned i = 0; i < len; i++) wbit(m.data(), off + pos + i, (int)((v >> (len - 1 - i)) & 1));
    CHECK(!memcmp(m.data(), b.p, bytes), "buffer differs from model");
    ok1 |= got; ref |= !got;
  }
  c.nontrivial(ok1 && ref);
}
SUB(P03, bytestream, 1, 20000, "history of typed decodes, raw reads at positions and removes in either byte order; non-trivial: a success and a refusal") {
  size_t bytes = (size_t)bigsize(c, 0, 40, 200000, 150);
  Buf b(bytes);
  c.fill(b.p, bytes);
  uint32_t total = (uint32_t)bytes;
  swiftnav_bytestream_t s;
  memset(&s, 0, sizeof s);
  bool big = c.coin();
  bool dflt = !big && c.coin();  // a zeroed stream reads little endian
  swiftnav_bytestream_init(&s, b.p, total);
  if (!dflt) s.endianess = big ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
  uint64_t off = 0;
  int n = (int)c.range(1, 20);
  bool ok1 = false, ref = false;
  for (int k = 0; k < n; k++) {
    uint64_t rem = off > total ? 0 : total - off;
    CHECK(swiftnav_bytestream_remaining(&s) == rem, "remaining=%u want %llu", swiftnav_bytestream_remaining(&s), (unsigned long long)rem);
    int op = (int)c.draw(9);
    if (op == 8) {
      uint32_t r = c.chance(1, 5) ? hugeish(c, total) : (uint32_t)c.u(rem + 2);
      c.note("remove %u", r);
      swiftnav_bytestream_remove(&s, r);
      off += r;
      continue;
    }
    if (op == 9) {
      uint32_t pos = c.chance(1, 2) ? hugeish(c, total) : (uint32_t)c.u(rem);
      uint32_t len = (uint32_t)c.range(1, 16);
      if (c.chance(1, 6)) len = hugeish(c, total);
      if (len == 0) len = 1;
      bool inside = off + pos + len <= total;
      Buf d(!inside && len > 64 ? 64 : len);
      memset(d.p, 0x5a, d.n);
      c.note("bytes pos=%u len=%u", pos, len);
      bool got = swiftnav_bytestream_get_bytes(&s, pos, len, d.p);
      CHECK(got == inside, "raw read pos=%u len=%u at cursor %llu of %u: %s", pos, len, (unsigned long long)off, total, got ? "accepted" : "refused");
      if (inside) CHECK(!memcmp(d.p, b.p + off + pos, len), "raw read content");
      else for (size_t i = 0; i < d.n; i++) CHECK(d.p[i] == 0x5a, "refused read wrote output");
      CHECK(swiftnav_bytestream_would_overflow(&s, pos, len) == !inside, "overflow query");
      ok1 |= got; ref |= !got;
      continue;
    }
    unsigned w = 1u << (op / 2);
    bool inside = off + w <= total;
    uint64_t e = 0;
    if (inside) for (unsigned i = 0; i < w; i++) e |= (uint64_t)b.p[off + i] << (8 * (big ? w - 1 - i : i));
    uint64_t v = 0; bool got; const uint64_t mark = 0x5a5a5a5a5a5a5a5aull;
    u32 cur = s.offset;
    c.note("decode%d", op);
    switch (op) {
      case 0: { u8 x = (u8)mark; got = swiftnav_bytestream_decode_u8(&s, &x); v = x; break; }
      case 1: { s8 x = (s8)mark; got = swiftnav_bytestream_decode_s8(&s, &x); v = (uint8_t)x; break; }
      case 2: { u16 x = (u16)mark; got = swiftnav_bytestream_decode_u16(&s, &x); v = x; break; }
      case 3: { s16 x = (s16)mark; got = swiftnav_bytestream_decode_s16(&s, &x); v = (uint16_t)x; break; }
      case 4: { u32 x = (u32)mark; got = swiftnav_bytestream_decode_u32(&s, &x); v = x; break; }
      case 5: { s32 x = (s32)mark; got = swiftnav_bytestream_decode_s32(&s, &x); v = (uint32_t)x; break; }
      case 6: { u64 x = mark; got = swiftnav_bytestream_decode_u64(&s, &x); v = x; break; }
      default: { s64 x = (s64)mark; got = swiftnav_bytestream_decode_s64(&s, &x); v = (uint64_t)x; }
    }
    if (!inside) CHECK(s.offset == cur && s.len == total, "refused decode of %u bytes moved the cursor from %u to %u", w, cur, s.offset);
    CHECK(got == inside, "decode of %u bytes at cursor %llu of %u: %s", w, (unsigned long long)off, total, got ? "accepted" : "refused");
    uint64_t want = inside ? e : (w == 8 ? mark : mark & ((1ull << (8 * w)) - 1));
    CHECK(v == want, "decode of %u bytes gave %llx want %llx", w, (unsigned long long)v, (unsigned long long)want);
    if (inside) off += w;
    ok1 |= got; ref |= !got;
  }
  uint64_t rem = off > total ? 0 : total - off;
  CHECK(swiftnav_bytestream_remaining(&s) == rem, "remaining");
  c.nontrivial(ok1 && ref);
}

SUB(P03, far, 0.2, 2000, "bit and byte streams of up to 2^32 - 1 units over a sparse area: skips and positions over the whole 32-bit range, reads on both sides of the end; non-trivial: a success and a refusal") {
  uint8_t *b = far_area();
  bool bytes = c.coin();
  uint32_t total = c.coin() ? UINT32_MAX - (uint32_t)c.draw(80) : c.coin() ? (1u << c.range(16, 31)) + (uint32_t)c.draw(64) - 32 : (uint32_t)c.range(1 << 20, UINT32_MAX);
  // content beside the places that are read
  std::vector<std::pair<size_t, size_t>> dirty;
  auto prep = [&](uint64_t byte) {
    size_t lo = byte > 16 ? (size_t)byte - 16 : 0, n = 48;
    if (lo + n > (1ull << 32) + 4096) n = (size_t)((1ull << 32) + 4096 - lo);
    c.fill(b + lo, n);
    dirty.push_back({lo, n});
  };
  struct Clean { uint8_t *b; std::vector<std::pair<size_t, size_t>> *d; ~Clean() { for (auto &x : *d) madvise(b + (x.first & ~4095ull), 8192, MADV_DONTNEED); } } clean{b, &dirty};
  swiftnav_in_bitstream_t s;
  swiftnav_bytestream_t y;
  memset(&y, 0, sizeof y);
  if (bytes) swiftnav_bytestream_init(&y, b, total); else swiftnav_in_bitstream_init(&s, b, total);
  uint64_t off = 0;
  int n = (int)c.range(1, 6);
  bool ok1 = false, ref = false;
  for (int k = 0; k < n; k++) {
    uint64_t rem = off > total ? 0 : total - off;
    uint32_t r = bytes ? swiftnav_bytestream_remaining(&y) : swiftnav_in_bitstream_remaining(&s);
    CHECK(r == rem, "%u remaining, expected %llu of %u", r, (unsigned long long)rem, total);
    // a place near the end, near a power of two of the stream, or in a few pages
    uint64_t at = c.coin() ? (uint64_t)total - c.draw(80) : c.coin() ? (1ull << c.range(12, 31)) + c.draw(64) - 32 : c.draw(15) * 0x10000000ull + c.draw(4095);
    if (c.chance(1, 3)) {
      uint32_t m = at > off ? (uint32_t)(at - off) : (uint32_t)c.draw(100);
      c.note("remove %u", m);
      if (bytes) swiftnav_bytestream_remove(&y, m); else swiftnav_in_bitstream_remove(&s, m);
      off += m;
      continue;
    }
    uint32_t pos = at > off ? (uint32_t)(at - off) : (uint32_t)c.draw(100);
    if (bytes) {
      uint32_t len = (uint32_t)c.range(1, 16);
      bool inside = off + pos + len <= total, typed = c.coin();
      if (typed) { pos = 0; len = 4; inside = off + 4 <= total; }
      if (inside) prep(off + pos);
      Buf d(16);
      memset(d.p, 0x5a, 16);
      c.note("%s at %llu+%u len %u of %u", typed ? "decode" : "bytes", (unsigned long long)off, pos, len, total);
      bool got;
      if (typed) { u32 x = 0x5a5a5a5a; got = swiftnav_bytestream_decode_u32(&y, &x); memcpy(d.p, &x, 4); }
      else got = swiftnav_bytestream_get_bytes(&y, pos, len, d.p);
      CHECK(got == inside, "read of %u bytes at %llu of %u: %s", len, (unsigned long long)(off + pos), total, got ? "accepted" : "refused");
      if (inside) CHECK(!memcmp(d.p, b + off + pos, len), "content at %llu", (unsigned long long)(off + pos));
      else for (unsigned i = 0; i < 16; i++) CHECK(d.p[i] == (i < 4 || !typed ? 0x5a : d.p[i]), "refused read wrote output");
      if (typed && inside) off += 4;
      ok1 |= got; ref |= !got;
    } else {
      uint32_t len = (uint32_t)c.range(1, 64);
      bool inside = off + pos + len <= total;
      if (inside) prep((off + pos) / 8);
      c.note("get at %llu+%u len %u of %u", (unsigned long long)off, pos, len, total);
      u64 o = 77;
      bool got = swiftnav_in_bitstream_getbitul(&s, &o, pos, len);
      CHECK(got == inside, "read of %u bits at %llu of %u: %s", len, (unsigned long long)(off + pos), total, got ? "accepted" : "refused");
      CHECK(o == (inside ? rfield(b, off + pos, len) : 77), "bits at %llu: %llx", (unsigned long long)(off + pos), (unsigned long long)o);
      s64 so = 77;
      got = swiftnav_in_bitstream_getbitsl(&s, &so, pos, len);
      CHECK(got == inside && so == (inside ? sext(rfield(b, off + pos, len), len) : 77), "signed bits at %llu: %llx", (unsigned long long)(off + pos), (unsigned long long)so);
      ok1 |= got; ref |= !got;
    }
  }
  c.nontrivial(ok1 && ref);
}

// ---- P04 ------------------------------------------------------------------
static uint32_t crc_bit(uint32_t crc, int bit) {
  uint32_t fb = ((crc >> 23) & 1) ^ (uint32_t)bit;
  crc = (crc << 1) & 0xFFFFFF;
  return fb ? crc ^ 0x864CFB : crc;
}
static uint32_t crc_ref(const uint8_t *b, size_t n, uint32_t crc) {
  for (size_t i = 0; i < n * 8; i++) crc = crc_bit(crc, rbit(b, i));
  return crc;
}
EXH(P04, table, 65536, "every byte after every top byte of the checksum state") {
  uint32_t k = (uint32_t)c.draw(65535);
  uint8_t b = (uint8_t)k;
  uint32_t crc = (k >> 8) << 16 | ((k * 2654435761u) >> 16);
  c.nontrivial();
  CHECK(crc24q(&b, 1, crc) == crc_ref(&b, 1, crc), "crc24q([%02x],%06x)=%06x want %06x", b, crc, crc24q(&b, 1, crc), crc_ref(&b, 1, crc));
}
SUB(P04, message, 1, 10000, "message of 0..100 bytes, 24-bit start value, split point, burst/one/two-bit errors; non-trivial: at least 4 bytes") {
  size_t n = (size_t)bigsize(c, 0, 100, 70000, 300);
  Buf b(n);
  c.fill(b.p, n);
  uint32_t init = c.coin() ? 0 : (uint32_t)c.bits(24);
  c.nontrivial(n >= 4);
  c.note("n=%zu init=%06x msg=%s", n, init, hex(b.p, std::min<size_t>(n, 100)).c_str());
  uint32_t e = crc_ref(b.p, n, init), g = crc24q(b.p, (u32)n, init);
  CHECK(g == e, "crc24q of %zu bytes = %06x want %06x", n, g, e);
  size_t k = (size_t)c.u(n);
  CHECK(crc24q(b.p + k, (u32)(n - k), crc24q(b.p, (u32)k, init)) == e, "split at %zu differs", k);
  if (n) {
    uint64_t nb = n * 8;
    std::vector<uint8_t> t(b.p, b.p + n);
    int kind = (int)c.draw(2);
    uint64_t p1 = c.u(nb - 1);
    if (kind == 0) wbit(t.data(), p1, !rbit(t.data(), p1));
    else if (kind == 1) {
      uint64_t p2 = c.u(nb - 1);
      if (p2 == p1) return;
      wbit(t.data(), p1, !rbit(t.data(), p1));
      wbit(t.data(), p2, !rbit(t.data(), p2));
    } else {
      uint64_t pat = c.bits(24) | 1;
      for (int i = 0; i < 24; i++) if (((pat >> i) & 1) && p1 + i < nb) wbit(t.data(), p1 + i, !rbit(t.data(), p1 + i));
    }
    CHECK(crc24q(t.data(), (u32)n, init) != e, "error pattern kind %d at bit %llu not detected", kind, (unsigned long long)p1);
  }
}
SUB(P04, bit_message, 1, 10000, "message of 1..400 bits, inversion flag, start value; buffer sized exactly; non-trivial: not a whole number of bytes") {
  uint32_t nb = (uint32_t)bigsize(c, 1, 400, 600000, 300);
  size_t n = (nb + 7) / 8;
  Buf b(n);
  c.fill(b.p, n);
  bool inv = c.coin();
  uint32_t init = c.coin() ? 0 : (uint32_t)c.bits(24);
  c.nontrivial(nb % 8 != 0);
  c.note("bits=%u invert=%d init=%06x", nb, inv, init);
  uint32_t crc = init;
  for (uint32_t i = 0; i < (8 - nb % 8) % 8; i++) crc = crc_bit(crc, 0);
  for (uint32_t i = 0; i < nb; i++) crc = crc_bit(crc, rbit(b.p, i) ^ inv);
  uint32_t g = crc24q_bits(init, b.p, nb, inv);
  CHECK(g == crc, "crc24q_bits(%06x, %u bits, %d) = %06x want %06x", init, nb, inv, g, crc);
}

// ---- P05 ------------------------------------------------------------------
SUB(P05, history, 1, 10000, "sequence of 5..60 operations on a fifo of 1..256 bytes (rarely up to 256 KiB) against a deque, requests up to 2^32-1 bytes; non-trivial: data crossed the end of the buffer") {
  fifo_size_t cap = 1u << (c.chance(1, 1500) ? c.range(9, 18) : c.range(0, 8));
  Buf mem(cap);
  fifo_t f;
  memset(&f, 0xa5, sizeof f);
  fifo_init(&f, mem.p, cap);
  std::deque<uint8_t> m;
  int n = (int)c.range(5, 60);
  uint64_t through = 0;
  uint8_t seq = (uint8_t)c.draw(255);
  for (int k = 0; k < n; k++) {
    int op = (int)c.draw(9);
    fifo_size_t len = c.chance(1, 8) ? (fifo_size_t)(cap + c.u(cap)) : (fifo_size_t)c.u(cap);
    if (op <= 3) {
      Buf d(len);
      uint8_t first = seq;
      for (size_t i = 0; i < len; i++) d[i] = seq++;
      fifo_size_t e = std::min<fifo_size_t>(len, cap - (fifo_size_t)m.size());
      fifo_size_t g = fifo_write(&f, d.p, len);
      c.note("write %u", len);
      CHECK(g == e, "write(%u) with %zu/%u used returned %u want %u", len, m.size(), cap, g, e);
      for (size_t i = 0; i < len; i++) CHECK(d[i] == (uint8_t)(first + i), "write changed byte %zu of its input", i);
      for (size_t i = 0; i < e; i++) m.push_back((uint8_t)(first + i));
      through += e;
    } else if (op <= 7) {
      if (c.chance(1, 12)) len = c.coin() ? ~(fifo_size_t)c.u(300) : 1u << c.range(8, 31);
      fifo_size_t e = std::min<fifo_size_t>(len, (fifo_size_t)m.size());
      Buf d(len > 2 * cap ? e : len);  // exact capacity: more than e must not be written
      memset(d.p, 0x77, d.n);
      bool peek = op == 6;
      fifo_size_t g;
      if (op == 7) { g = fifo_remove(&f, len); }
      else g = peek ? fifo_peek(&f, d.p, len) : fifo_read(&f, d.p, len);
      c.note("%s %u", op == 7 ? "remove" : peek ? "peek" : "read", len);
      CHECK(g == e, "%s(%u) with %zu bytes returned %u", op == 7 ? "remove" : peek ? "peek" : "read", len, m.size(), g);
      if (op != 7) {
        for (size_t i = 0; i < e; i++) CHECK(d[i] == m[i], "byte %zu is %02x want %02x", i, d[i], m[i]);
        for (size_t i = e; i < d.n; i++) CHECK(d[i] == 0x77, "bytes past the reported count were written");
      }
      if (!peek) m.erase(m.begin(), m.begin() + e);
    } else if (op == 8) {
      CHECK(fifo_peek(&f, nullptr, 0) == 0 && fifo_remove(&f, 0) == 0 && fifo_write(&f, nullptr, 0) == 0, "empty operations");
    } else if (c.chance(1, 6)) {
      c.note("init");
      fifo_init(&f, mem.p, cap);
      m.clear();
    }
    CHECK(fifo_length(&f) == m.size(), "length %u want %zu", fifo_length(&f), m.size());
    CHECK(fifo_space(&f) == cap - m.size(), "space %u want %zu", fifo_space(&f), cap - m.size());
  }
  c.nontrivial(through > cap);
}
EXH(P05, counter_wrap, 4, "more than 2^32 bytes pushed through buffers of 8..64 KiB by the public operations, data checked around the wrap") {
  unsigned k = (unsigned)c.draw(3);
  fifo_size_t cap = 8192u << k;
  Buf mem(cap);
  fifo_t f;
  fifo_init(&f, mem.p, cap);
  std::vector<uint8_t> blk(cap), out(cap);
  for (size_t i = 0; i < cap; i++) blk[i] = (uint8_t)(i * 7 + 3);
  // fill to just below 2^32, leaving an unaligned level
  uint64_t done = 0;
  const uint64_t target = (1ull << 32) - 3 * (uint64_t)cap;
  while (done < target) {
    CHECK(fifo_write(&f, blk.data(), cap) == cap, "write refused after %llu bytes", (unsigned long long)done);
    CHECK(fifo_remove(&f, cap) == cap, "remove refused after %llu bytes", (unsigned long long)done);
    done += cap;
  }
  c.nontrivial();
  std::deque<uint8_t> m;
  uint8_t seq = 0;
  uint32_t r = 12345 + k;
  for (int i = 0; i < 400; i++) {
    r = r * 1664525u + 1013904223u;
    fifo_size_t len = (r >> 8) % (cap / 3);
    for (size_t j = 0; j < len; j++) blk[j] = seq++;
    fifo_size_t e = std::min<fifo_size_t>(len, cap - (fifo_size_t)m.size());
    CHECK(fifo_write(&f, blk.data(), len) == e, "write count near the wrap");
    m.insert(m.end(), blk.begin(), blk.begin() + e);
    r = r * 1664525u + 1013904223u;
    len = (r >> 8) % (cap / 3);
    e = std::min<fifo_size_t>(len, (fifo_size_t)m.size());
    CHECK(fifo_read(&f, out.data(), len) == e, "read count near the wrap");
    CHECK(std::equal(out.begin(), out.begin() + e, m.begin()), "data differs near the wrap");
    m.erase(m.begin(), m.begin() + e);
    CHECK(fifo_length(&f) == m.size() && fifo_space(&f) == cap - m.size(), "length/space near the wrap");
  }
}

// ---- P06 ------------------------------------------------------------------
// elements: 4-byte key + payload, several element sizes; order by key, optionally reversed
static bool g_rev;
static int cmp_key(const void *a, const void *b) {
  int32_t x, y;
  memcpy(&x, a, 4); memcpy(&y, b, 4);
  int r = (x > y) - (x < y);
  // any sign-correct magnitude must do
  return (g_rev ? -r : r) * 5;
}
struct Elems {
  size_t sz; Buf buf; std::vector<int32_t> keys;
  Elems(size_t sz_, std::vector<int32_t> k, Case &c) : sz(sz_), buf(k.size() * sz_), keys(std::move(k)) {
    for (size_t i = 0; i < keys.size(); i++) {
      memcpy(buf.p + i * sz, &keys[i], 4);
    }
    std::vector<uint8_t> pay(keys.size() * (sz - 4));
    c.fill(pay.data(), pay.size());
    for (size_t i = 0; i < keys.size(); i++) memcpy(buf.p + i * sz + 4, pay.data() + i * (sz - 4), sz - 4);
  }
};
static std::vector<int32_t> gen_keys(Case &c, int n, int span) {
  std::vector<int32_t> k;
  if (n > 200) {  // large sets from one choice
    uint64_t x = c.draw(UINT32_MAX);
    int32_t v = -(int32_t)(x & 0xffff);
    for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; v += 1 + (int32_t)((x >> 40) % 3); k.push_back(v); }
    if (g_rev) std::reverse(k.begin(), k.end());
    return k;
  }
  for (int i = 0; i < n; i++) {
    int32_t v = c.chance(1, 20) ? (c.coin() ? INT32_MAX : INT32_MIN) : (int32_t)c.range(-span, span);
    k.push_back(v);
  }
  std::sort(k.begin(), k.end());
  k.erase(std::unique(k.begin(), k.end()), k.end());
  if (g_rev) std::reverse(k.begin(), k.end());
  return k;
}
struct MapCtx { std::vector<std::pair<const void *, const void *>> got; bool order_ok = true; };
static void map_cb(void *ctx, u32 n, const void *a, const void *b) {
  MapCtx *m = (MapCtx *)ctx;
  if (n != m->got.size()) m->order_ok = false;
  m->got.push_back({a, b});
}
SUB(P06, intersection, 1, 10000, "two sets of 0..30 elements of 4..40 bytes with payloads, either order; non-trivial: both non-empty and a proper overlap") {
  g_rev = c.coin();
  int span = (int)c.pick({3, 10, 30, 1000});
  bool huge = c.chance(1, 1500), both = huge && c.coin();
  if (huge) c.label(both ? "more than 65536 common elements" : "more than 65536 elements");
  Elems a(both ? 4 : (size_t)bigsize(c, 4, 40, 600, 60), gen_keys(c, both ? 70000 : (int)bigsize(c, 0, 30, 3000, 150), span), c);
  std::vector<int32_t> bk;
  if (both) { bk = a.keys; for (int i = (int)c.range(1, 5); i > 0; i--) bk.erase(bk.begin() + (long)c.u(bk.size() - 1)); }
  else bk = gen_keys(c, huge ? 70000 : (int)bigsize(c, 0, 30, 3000, 150), span);
  Elems b(huge ? 5 : (size_t)bigsize(c, 4, 40, 600, 60), bk, c);
  std::vector<std::pair<size_t, size_t>> e;
  std::map<int32_t, size_t> where;
  for (size_t j = 0; j < b.keys.size(); j++) where[b.keys[j]] = j;
  for (size_t i = 0; i < a.keys.size(); i++) {
    auto it = where.find(a.keys[i]);
    if (it != where.end()) e.push_back({i, it->second});
  }
  c.note("na=%zu nb=%zu common=%zu", a.keys.size(), b.keys.size(), e.size());
  c.nontrivial(!e.empty() && (e.size() < a.keys.size() || e.size() < b.keys.size()));
  std::vector<uint8_t> a0(a.buf.p, a.buf.p + a.buf.n), b0(b.buf.p, b.buf.p + b.buf.n);
  MapCtx ctx;
  s32 n = intersection_map((u32)a.keys.size(), a.sz, a.buf.p, (u32)b.keys.size(), b.sz, b.buf.p, cmp_key, &ctx, map_cb);
  CHECK(n == (s32)e.size() && ctx.got.size() == e.size(), "intersection size %d want %zu", n, e.size());
  CHECK(ctx.order_ok, "callback counter wrong");
  for (size_t i = 0; i < e.size(); i++)
    CHECK(ctx.got[i].first == a.buf.p + e[i].first * a.sz && ctx.got[i].second == b.buf.p + e[i].second * b.sz, "callback pair %zu wrong", i);
  bool wa = !c.chance(1, 6), wb = !c.chance(1, 6);
  Buf oa(e.size() * a.sz), ob(e.size() * b.sz);
  n = intersection((u32)a.keys.size(), a.sz, a.buf.p, wa ? oa.p : nullptr, (u32)b.keys.size(), b.sz, b.buf.p, wb ? ob.p : nullptr, cmp_key);
  CHECK(n == (s32)e.size(), "intersection() returned %d want %zu", n, e.size());
  for (size_t i = 0; i < e.size(); i++) {
    if (wa) CHECK(!memcmp(oa.p + i * a.sz, a.buf.p + e[i].first * a.sz, a.sz), "A output %zu", i);
    if (wb) CHECK(!memcmp(ob.p + i * b.sz, b.buf.p + e[i].second * b.sz, b.sz), "B output %zu", i);
  }
  CHECK(!memcmp(a0.data(), a.buf.p, a.buf.n) && !memcmp(b0.data(), b.buf.p, b.buf.n), "inputs modified");
}
SUB(P06, is_set, 1, 5000, "arrays of up to 255 elements: sorted sets, with one duplicate, swapped pair or random; non-trivial: at least 3 elements") {
  g_rev = c.coin();
  int n = (int)c.size(0, c.chance(1, 8) ? 255 : 20);
  std::vector<int32_t> k = gen_keys(c, n, c.coin() ? 400 : 15);
  int kind = (int)c.draw(3);
  if (k.size() >= 2 && kind) {
    size_t i = (size_t)c.u(k.size() - 2);
    if (kind == 1) k[i + 1] = k[i];
    else if (kind == 2) std::swap(k[i], k[i + 1]);
    else c.shuffle(k);
  }
  bool e = true;
  for (size_t i = 1; i < k.size(); i++) e &= g_rev ? k[i - 1] > k[i] : k[i - 1] < k[i];
  Elems a((size_t)c.range(4, 24), k, c);
  c.note("n=%zu kind=%d", k.size(), kind);
  c.nontrivial(k.size() >= 3);
  CHECK(is_set((u8)k.size(), a.sz, a.buf.p, cmp_key) == e, "is_set over %zu elements, expected %d", k.size(), e);
}
SUB(P06, insert_remove_history, 1, 8000, "history of insertions and removals of present, absent, smallest and largest elements against a sorted vector; non-trivial: both kinds happened") {
  g_rev = c.coin();
  size_t sz = (size_t)bigsize(c, 4, 24, 600, 100);
  Elems st(sz, gen_keys(c, c.chance(1, 2000) ? 66000 : (int)bigsize(c, 0, 12, 1000, 150), 20), c);
  std::vector<std::vector<uint8_t>> m;
  for (size_t i = 0; i < st.keys.size(); i++) m.emplace_back(st.buf.p + i * sz, st.buf.p + (i + 1) * sz);
  int n = (int)c.range(1, m.size() > 2000 ? 3 : 12), ins = 0, rem = 0;
  for (int s = 0; s < n; s++) {
    Buf cur(m.size() * sz);
    for (size_t i = 0; i < m.size(); i++) memcpy(cur.p + i * sz, m[i].data(), sz);
    Buf el(sz);
    c.fill(el.p, sz);
    int32_t key = (int32_t)c.range(-22, 22);
    if (m.size() > 50 && c.coin()) { memcpy(&key, m[(size_t)c.u(m.size() - 1)].data(), 4); key += (int32_t)c.draw(2); }
    memcpy(el.p, &key, 4);
    size_t idx = 0;
    while (idx < m.size() && cmp_key(m[idx].data(), el.p) < 0) idx++;
    CHECK(insertion_index((u32)m.size(), sz, cur.p, el.p, cmp_key) == idx, "insertion index");
    bool present = idx < m.size() && cmp_key(m[idx].data(), el.p) == 0;
    std::vector<uint8_t> cur0(cur.p, cur.p + cur.n), el0(el.p, el.p + sz);
    if (!present && c.coin()) {
      Buf out((m.size() + 1) * sz);
      u32 r = insert_element((u32)m.size(), sz, cur.p, out.p, el.p, cmp_key);
      c.note("insert %d", key);
      CHECK(r == idx, "insert index %u want %zu", r, idx);
      m.insert(m.begin() + idx, std::vector<uint8_t>(el.p, el.p + sz));
      for (size_t i = 0; i < m.size(); i++) CHECK(!memcmp(out.p + i * sz, m[i].data(), sz), "element %zu after insert", i);
      ins++;
    } else if (!m.empty()) {
      // first element not less than the given one; the last one when all are less
      size_t at = std::min(idx, m.size() - 1);
      Buf out((m.size() - 1) * sz);
      c.note("remove %d of %zu", key, m.size());
      u32 r = remove_element((u32)m.size(), sz, cur.p, out.p, el.p, cmp_key);
      CHECK(r == at, "remove index %u want %zu", r, at);
      m.erase(m.begin() + at);
      for (size_t i = 0; i < m.size(); i++) CHECK(!memcmp(out.p + i * sz, m[i].data(), sz), "element %zu after remove", i);
      rem++;
    }
    CHECK(!memcmp(cur0.data(), cur.p, cur.n) && !memcmp(el0.data(), el.p, sz), "inputs modified");
  }
  c.nontrivial(ins && rem);
}
SUB(P06, sid_sets, 0.5, 3000, "arrays of signals: set test accepts exactly the arrays that strictly ascend in the library's signal order; non-trivial: at least 3 signals") {
  int n = (int)c.size(0, 20);
  std::vector<gnss_signal_t> k;
  for (int i = 0; i < n; i++) {
    gnss_signal_t s;
    memset(&s, 0, sizeof s);
    s.code = (code_t)c.range(0, CODE_COUNT - 1);
    s.sat = (u16)c.range(1, 36);
    k.push_back(s);
  }
  auto less = [](const gnss_signal_t &a, const gnss_signal_t &b) { return sid_compare(a, b) < 0; };
  auto same = [](const gnss_signal_t &a, const gnss_signal_t &b) { return a.code == b.code && a.sat == b.sat; };
  std::sort(k.begin(), k.end(), less);
  k.erase(std::unique(k.begin(), k.end(), same), k.end());
  int kind = (int)c.draw(2);
  bool e = true;
  if (k.size() >= 2 && kind) {
    size_t i = (size_t)c.u(k.size() - 2);
    if (kind == 1) k[i + 1] = k[i]; else std::swap(k[i], k[i + 1]);
    e = false;
  }
  Buf b(k.size() * sizeof(gnss_signal_t));
  if (k.size()) memcpy(b.p, k.data(), k.size() * sizeof(gnss_signal_t));
  c.nontrivial(k.size() >= 3);
  CHECK(is_sid_set((u8)k.size(), (const gnss_signal_t *)b.p) == e, "is_sid_set over %zu signals, expected %d", k.size(), e);
}
SUB(P06, membership, 0.3, 5000, "unsorted byte and 16-bit arrays of 0..255 elements in exactly sized buffers, values present, absent or differing by 256: found exactly when stored; non-trivial: present beyond the first element") {
  size_t n = c.chance(1, 8) ? 255 : c.size(0, 20);
  bool wide = c.coin();
  std::vector<u16> v(n);
  u16 mask = wide ? 0xffff : 0xff;
  for (auto &x : v) x = (u16)(c.u32() & mask & (c.coin() ? 0x0107 : 0xffff));
  u16 q = n && c.coin() ? v[(size_t)c.u(n - 1)] : (u16)(c.u32() & mask);
  if (wide && c.chance(1, 4)) q ^= 0x100;
  bool e = false;
  for (size_t i = 0; i < n; i++) if (v[i] == q) { e = true; c.nontrivial(i > 0); }
  c.note("n=%zu wide=%d q=%u", n, wide, q);
  Buf b(n * (wide ? 2 : 1));
  for (size_t i = 0; i < n; i++) if (wide) memcpy(b.p + 2 * i, &v[i], 2); else b.p[i] = (u8)v[i];
  bool got = wide ? is_value_in_array_u16((const u16 *)b.p, (u8)n, q) : is_value_in_array(b.p, (u8)n, (u8)q);
  CHECK(got == e, "value %u reported %s among %zu", q, got ? "present" : "absent", n);
}
SUB(P06, cmp_ints, 0.2, 2000, "integer comparison has the sign of the mathematical comparison; non-trivial: extreme operand") {
  int32_t a = (int32_t)c.u32(), b = c.chance(1, 4) ? a : (int32_t)c.u32();
  int r = cmp_s32_s32(&a, &b);
  c.nontrivial(a < -1000000000 || b < -1000000000);
  CHECK((r > 0) == (a > b) && (r < 0) == (a < b), "cmp(%d,%d)=%d", a, b, r);
}

// ---- P11 ------------------------------------------------------------------
SUB(P11, disjoint, 1, 10000, "copies between exactly sized separate buffers with counts below, at and above the destination size, zero sizes and nulls; non-trivial: a success of at least 2 bytes") {
  size_t ds = (size_t)bigsize(c, 0, 64, 200000, 150), cnt = (size_t)(c.chance(1, 20) ? (int64_t)ds : bigsize(c, 0, 70, 200000, 150));
  Buf d(ds), s(cnt);
  c.fill(d.p, ds);
  c.fill(s.p, cnt);
  std::vector<uint8_t> d0(d.p, d.p + ds), s0(s.p, s.p + cnt);
  bool nd = c.chance(1, 12), ns = c.chance(1, 12);
  if (c.chance(1, 10)) cnt = SIZE_MAX - (size_t)c.draw(70);
  c.note("destsize=%zu count=%zu nulls=%d%d", ds, cnt, nd, ns);
  int r = memcpy_s(nd ? nullptr : d.p, ds, ns ? nullptr : s.p, cnt);
  bool bad = nd || ns || ds == 0 || cnt == 0 || cnt > ds;
  CHECK((r == MEMCPY_S_OK) == !bad, "memcpy_s(dest%s,%zu,src%s,%zu) = %d", nd ? "=NULL" : "", ds, ns ? "=NULL" : "", cnt, r);
  if (r == MEMCPY_S_DEST_NULL) CHECK(nd, "wrong reason: dest null");
  if (r == MEMCPY_S_SRC_NULL) CHECK(ns, "wrong reason: src null");
  if (r == MEMCPY_S_DEST_SIZE_ZERO) CHECK(ds == 0, "wrong reason: dest size zero");
  if (r == MEMCPY_S_SRC_SIZE_ZERO) CHECK(cnt == 0, "wrong reason: src size zero");
  if (r == MEMCPY_S_OVERSIZED) CHECK(cnt > ds, "wrong reason: oversized");
  CHECK(r != MEMCPY_S_OVERLAP, "separate buffers reported as overlapping");
  CHECK(r >= MEMCPY_S_OK && r <= MEMCPY_S_OVERSIZED, "unknown code %d", r);
  if (!bad) memcpy(d0.data(), s.p, cnt);
  CHECK(!memcmp(d0.data(), d.p, ds), "destination content wrong");
  CHECK(!memcmp(s0.data(), s.p, s0.size()), "source modified");
  c.nontrivial(!bad && cnt >= 2);
}
SUB(P11, overlap, 1, 10000, "source and destination inside one block at every relative offset; non-trivial: ranges really overlap") {
  size_t n = (size_t)bigsize(c, 2, 48, 200000, 150);
  Buf b(n);
  c.fill(b.p, n);
  size_t d = (size_t)c.u(n - 1), s = (size_t)c.u(n - 1);
  size_t ds = (size_t)c.range(1, (int64_t)(n - d)), cnt = (size_t)c.range(1, (int64_t)(n - s));
  if (d == s) return;  // the same region is not two overlapping ones
  std::vector<uint8_t> b0(b.p, b.p + n);
  c.note("dest=%zu size=%zu src=%zu count=%zu", d, ds, s, cnt);
  int r = memcpy_s(b.p + d, ds, b.p + s, cnt);
  bool copy_overlap = s < d + cnt && d < s + cnt;      // bytes that would be copied overlap
  bool region_overlap = s < d + ds && d < s + cnt;     // source meets the destination buffer
  c.nontrivial(copy_overlap && cnt <= ds);
  if (cnt > ds) CHECK(r == MEMCPY_S_OVERSIZED, "oversized copy gave %d", r);
  else if (copy_overlap) CHECK(r == MEMCPY_S_OVERLAP, "overlapping copy gave %d", r);
  else if (!region_overlap) CHECK(r == MEMCPY_S_OK, "disjoint copy gave %d", r);
  else CHECK(r == MEMCPY_S_OK || r == MEMCPY_S_OVERLAP, "copy gave %d", r);
  if (r == MEMCPY_S_OK) { std::vector<uint8_t> t(b0.begin() + s, b0.begin() + s + cnt); std::copy(t.begin(), t.end(), b0.begin() + d); }
  CHECK(!memcmp(b0.data(), b.p, n), "memory content wrong after code %d", r);
}
SUB(P11, strnlen, 1, 10000, "strings with and without terminator in buffers that end at the bound; non-trivial: no terminator before the bound") {
  size_t n = (size_t)bigsize(c, 0, 40, 200000, 150);
  Buf b(n);
  if (n <= 40) for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(c.chance(1, 10) ? 0 : c.range(1, 255));
  else { c.fill(b.p, n); for (size_t i = 0; i < n; i++) b[i] |= 1; if (c.coin()) b[(size_t)c.u(n - 1)] = 0; }
  size_t e = 0;
  while (e < n && b[e]) e++;
  size_t bound = n;
  if (e < n && c.coin()) bound = c.coin() ? SIZE_MAX : n + 5;
  else if (c.coin()) { bound = (size_t)c.u(n); e = std::min(e, bound); }
  c.note("n=%zu bound=%zu len=%zu", n, bound, e);
  c.nontrivial(e == bound && bound > 0);
  CHECK(swift_strnlen((const char *)b.p, bound) == e, "strnlen bound %zu = %zu want %zu", bound, swift_strnlen((const char *)b.p, bound), e);
}
