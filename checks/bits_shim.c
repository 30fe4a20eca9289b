/* C-only library macros, one function per macro and width (generated once). */
#include <stdlib.h>
#include <swiftnav/bits.h>
s32 shim_sext32(unsigned n, u32 v) {
  switch (n) {
    case 1: return BITS_SIGN_EXTEND_32(1, v);
    case 2: return BITS_SIGN_EXTEND_32(2, v);
    case 3: return BITS_SIGN_EXTEND_32(3, v);
    case 4: return BITS_SIGN_EXTEND_32(4, v);
    case 5: return BITS_SIGN_EXTEND_32(5, v);
    case 6: return BITS_SIGN_EXTEND_32(6, v);
    case 7: return BITS_SIGN_EXTEND_32(7, v);
    case 8: return BITS_SIGN_EXTEND_32(8, v);
    case 9: return BITS_SIGN_EXTEND_32(9, v);
    case 10: return BITS_SIGN_EXTEND_32(10, v);
    case 11: return BITS_SIGN_EXTEND_32(11, v);
    case 12: return BITS_SIGN_EXTEND_32(12, v);
    case 13: return BITS_SIGN_EXTEND_32(13, v);
    case 14: return BITS_SIGN_EXTEND_32(14, v);
    case 15: return BITS_SIGN_EXTEND_32(15, v);
    case 16: return BITS_SIGN_EXTEND_32(16, v);
    case 17: return BITS_SIGN_EXTEND_32(17, v);
    case 18: return BITS_SIGN_EXTEND_32(18, v);
    case 19: return BITS_SIGN_EXTEND_32(19, v);
    case 20: return BITS_SIGN_EXTEND_32(20, v);
    case 21: return BITS_SIGN_EXTEND_32(21, v);
    case 22: return BITS_SIGN_EXTEND_32(22, v);
    case 23: return BITS_SIGN_EXTEND_32(23, v);
    case 24: return BITS_SIGN_EXTEND_32(24, v);
    case 25: return BITS_SIGN_EXTEND_32(25, v);
    case 26: return BITS_SIGN_EXTEND_32(26, v);
    case 27: return BITS_SIGN_EXTEND_32(27, v);
    case 28: return BITS_SIGN_EXTEND_32(28, v);
    case 29: return BITS_SIGN_EXTEND_32(29, v);
    case 30: return BITS_SIGN_EXTEND_32(30, v);
    case 31: return BITS_SIGN_EXTEND_32(31, v);
    case 32: return BITS_SIGN_EXTEND_32(32, v);
    default: abort();
  }
}
s64 shim_sext64(unsigned n, u64 v) {
  switch (n) {
    case 1: return BITS_SIGN_EXTEND_64(1, v);
    case 2: return BITS_SIGN_EXTEND_64(2, v);
    case 3: return BITS_SIGN_EXTEND_64(3, v);
    case 4: return BITS_SIGN_EXTEND_64(4, v);
    case 5: return BITS_SIGN_EXTEND_64(5, v);
    case 6: return BITS_SIGN_EXTEND_64(6, v);
    case 7: return BITS_SIGN_EXTEND_64(7, v);
    case 8: return BITS_SIGN_EXTEND_64(8, v);
    case 9: return BITS_SIGN_EXTEND_64(9, v);
    case 10: return BITS_SIGN_EXTEND_64(10, v);
    case 11: return BITS_SIGN_EXTEND_64(11, v);
    case 12: return BITS_SIGN_EXTEND_64(12, v);
    case 13: return BITS_SIGN_EXTEND_64(13, v);
    case 14: return BITS_SIGN_EXTEND_64(14, v);
    case 15: return BITS_SIGN_EXTEND_64(15, v);
    case 16: return BITS_SIGN_EXTEND_64(16, v);
    case 17: return BITS_SIGN_EXTEND_64(17, v);
    case 18: return BITS_SIGN_EXTEND_64(18, v);
    case 19: return BITS_SIGN_EXTEND_64(19, v);
    case 20: return BITS_SIGN_EXTEND_64(20, v);
    case 21: return BITS_SIGN_EXTEND_64(21, v);
    case 22: return BITS_SIGN_EXTEND_64(22, v);
    case 23: return BITS_SIGN_EXTEND_64(23, v);
    case 24: return BITS_SIGN_EXTEND_64(24, v);
    case 25: return BITS_SIGN_EXTEND_64(25, v);
    case 26: return BITS_SIGN_EXTEND_64(26, v);
    case 27: return BITS_SIGN_EXTEND_64(27, v);
    case 28: return BITS_SIGN_EXTEND_64(28, v);
    case 29: return BITS_SIGN_EXTEND_64(29, v);
    case 30: return BITS_SIGN_EXTEND_64(30, v);
    case 31: return BITS_SIGN_EXTEND_64(31, v);
    case 32: return BITS_SIGN_EXTEND_64(32, v);
    case 33: return BITS_SIGN_EXTEND_64(33, v);
    case 34: return BITS_SIGN_EXTEND_64(34, v);
    case 35: return BITS_SIGN_EXTEND_64(35, v);
    case 36: return BITS_SIGN_EXTEND_64(36, v);
    case 37: return BITS_SIGN_EXTEND_64(37, v);
    case 38: return BITS_SIGN_EXTEND_64(38, v);
    case 39: return BITS_SIGN_EXTEND_64(39, v);
    case 40: return BITS_SIGN_EXTEND_64(40, v);
    case 41: return BITS_SIGN_EXTEND_64(41, v);
    case 42: return BITS_SIGN_EXTEND_64(42, v);
    case 43: return BITS_SIGN_EXTEND_64(43, v);
    case 44: return BITS_SIGN_EXTEND_64(44, v);
    case 45: return BITS_SIGN_EXTEND_64(45, v);
    case 46: return BITS_SIGN_EXTEND_64(46, v);
    case 47: return BITS_SIGN_EXTEND_64(47, v);
    case 48: return BITS_SIGN_EXTEND_64(48, v);
    case 49: return BITS_SIGN_EXTEND_64(49, v);
    case 50: return BITS_SIGN_EXTEND_64(50, v);
    case 51: return BITS_SIGN_EXTEND_64(51, v);
    case 52: return BITS_SIGN_EXTEND_64(52, v);
    case 53: return BITS_SIGN_EXTEND_64(53, v);
    case 54: return BITS_SIGN_EXTEND_64(54, v);
    case 55: return BITS_SIGN_EXTEND_64(55, v);
    case 56: return BITS_SIGN_EXTEND_64(56, v);
    case 57: return BITS_SIGN_EXTEND_64(57, v);
    case 58: return BITS_SIGN_EXTEND_64(58, v);
    case 59: return BITS_SIGN_EXTEND_64(59, v);
    case 60: return BITS_SIGN_EXTEND_64(60, v);
    case 61: return BITS_SIGN_EXTEND_64(61, v);
    case 62: return BITS_SIGN_EXTEND_64(62, v);
    case 63: return BITS_SIGN_EXTEND_64(63, v);
    case 64: return BITS_SIGN_EXTEND_64(64, v);
    default: abort();
  }
}
