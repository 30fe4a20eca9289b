From 54fbe87276da8a00db21e6da2596abfb0b5209e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 01/47] fix: crc24q_bits reads past the end of whole-byte
 messages

---
 src/edc.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..fbe6261 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -99,7 +99,8 @@ u32 crc24q(const u8 *buf, u32 len, u32 crc) {
 u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
   u16 acc = 0;
   u8 b = 0;
-  u32 shift = 8 - n_bits % 8;
+  u32 tail_bits = n_bits % 8;
+  u32 shift = (tail_bits != 0) ? 8 - tail_bits : 0;
 
   for (u32 i = 0; i < n_bits / 8; ++i) {
     acc = (acc << 8) | *buf++;
@@ -109,12 +110,14 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
-  if (invert) {
-    acc ^= 0xFFu;
+  if (tail_bits != 0) {
+    acc = (acc << 8) | *buf;
+    if (invert) {
+      acc ^= 0xFFu;
+    }
+    b = (acc >> shift) & 0xFFu;
+    crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  b = (acc >> shift) & 0xFFu;
-  crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
 
   return crc;
 }
-- 
2.43.0


From 38358652094d6a497ba0b6dc2603aef6b741c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 02/47] fix: remove_element copies out of bounds when no
 element is >= b

---
 src/set.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..38c580b 100644
--- a/src/set.c
+++ b/src/set.c
@@ -226,6 +226,12 @@ u32 remove_element(
    * This element will be removed.
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
+  if (na == 0) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
 
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
-- 
2.43.0


From 298170b260cb271bcad30eb88762df96028ca136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 03/47] fix: bit and byte stream bounds checks wrap around at
 2^32

---
 include/swiftnav/bitstream.h  | 10 ++++++----
 include/swiftnav/bytestream.h |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..ea089ac 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -75,7 +75,8 @@ static inline bool swiftnav_in_bitstream_getbitsl(
 
 static inline void swiftnav_in_bitstream_remove(swiftnav_in_bitstream_t *buf,
                                                 u32 len) {
-  buf->offset += len;
+  /* saturate so that a huge skip cannot wrap back into the buffer */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_in_bitstream_remaining(
@@ -88,7 +89,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
@@ -139,7 +140,8 @@ static inline bool swiftnav_out_bitstream_setbitsl(
 
 static inline void swiftnav_out_bitstream_remove(swiftnav_out_bitstream_t *buf,
                                                  u32 len) {
-  buf->offset += len;
+  /* saturate so that a huge skip cannot wrap back into the buffer */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 static inline u32 swiftnav_out_bitstream_remaining(
     swiftnav_out_bitstream_t *buf) {
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..95df8e9 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
@@ -42,7 +42,8 @@ static inline bool swiftnav_bytestream_get_bytes(
 
 static inline void swiftnav_bytestream_remove(swiftnav_bytestream_t *buf,
                                               u32 len) {
-  buf->offset += len;
+  /* saturate so that a huge skip cannot wrap back into the buffer */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_bytestream_remaining(swiftnav_bytestream_t *buf) {
-- 
2.43.0


From 97bc4a463b195eec11b8601ff1355810ac5b43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 04/47] fix: code table read out of bounds for the invalid code

---
 src/signal.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..5040dc0 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -900,6 +900,11 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                     false},
 };
 
+/** Table entry for a code; the invalid entry for anything but a valid code. */
+static const code_table_element_t *code_table_entry(code_t code) {
+  return &code_table[code_valid(code) ? code : CODE_COUNT];
+}
+
 static const char *constellation_table[CONSTELLATION_COUNT] = {
     [CONSTELLATION_GPS] = "GPS",
     [CONSTELLATION_SBAS] = "SBAS",
@@ -1149,7 +1154,7 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  * \return Constellation to which sid belongs.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
-  return code_table[sid.code].constellation;
+  return code_table_entry(sid.code)->constellation;
 }
 
 /** Get the constellation to which a code belongs.
@@ -1288,7 +1293,9 @@ bool code_requires_decoder(code_t code) {
   return code_table[code].requires_data_decoder;
 }
 
-const char *code_to_string(const code_t code) { return code_table[code].str; }
+const char *code_to_string(const code_t code) {
+  return code_table_entry(code)->str;
+}
 
 /**
  * Returns number of SV belongs to a constellation
@@ -1333,7 +1340,7 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return (CONSTELLATION_GPS == code_table_entry(code)->constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1349,7 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return (CONSTELLATION_SBAS == code_table_entry(code)->constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1358,7 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return (CONSTELLATION_GLO == code_table_entry(code)->constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1367,7 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return (CONSTELLATION_BDS == code_table_entry(code)->constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1376,7 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return (CONSTELLATION_GAL == code_table_entry(code)->constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1385,7 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return (CONSTELLATION_QZS == code_table_entry(code)->constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From 501507cd3aa03b9b209f0630cbcee563c70e815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 05/47] fix: lock time on an indicator boundary encoded one
 step too low

DF402 indicator i covers [2^(i+4), 2^(i+5)) ms, so the upper bound belongs to
the next indicator and a decoded minimum encodes back to itself.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..a2cb93f 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From a9309fc8c7818e126bbabb3de3341ebeb1e66355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 06/47] fix: lock times above 2^32 ms overflow the conversion
 to milliseconds

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index a2cb93f..d3689b2 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From cfddb1f85d79e45a46d446156eb40ddec1a4c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 07/47] fix: floor_to_epoch skips back a whole epoch on
 rounding

At e.g. 25 or 100 Hz the product tow * freq of a time on an epoch can round
below the integer (0.29 * 100 = 28.999...), so flooring an epoch returned the
one before it; likewise the result could lie after the time.
---
 src/gnss_time.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..c957af5 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1130,7 +1130,14 @@ gps_time_t round_to_epoch(const gps_time_t *time, double soln_freq) {
 gps_time_t floor_to_epoch(const gps_time_t *time, double soln_freq) {
   gps_time_t rounded_time = GPS_TIME_UNKNOWN;
   /* round the time-of-week */
-  rounded_time.tow = floor(time->tow * soln_freq) / soln_freq;
+  double epoch = floor(time->tow * soln_freq);
+  /* the product may have been rounded across an epoch, e.g. 0.29 * 100 */
+  if ((epoch + 1) / soln_freq <= time->tow) {
+    epoch += 1;
+  } else if (epoch / soln_freq > time->tow) {
+    epoch -= 1;
+  }
+  rounded_time.tow = epoch / soln_freq;
   /* handle case where rounding caused tow roll-over */
   normalize_gps_time(&rounded_time);
   /* pick the correct week number */
-- 
2.43.0


From c01998764c24b09742b2c8bb7c3b2360ad5c2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 08/47] fix: UTC parameters without a leap second produce a
 false second 60

With dt_lsf == dt_ls (the normal broadcast) t_lse is no leap second event, yet
the second starting there was converted to 23:59:60 instead of 00:00:00.
---
 src/gnss_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index c957af5..13ee532 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1080,7 +1080,8 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    /* parameters without a pending leap second have equal offsets */
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From ecaa6c66b93eedd95ebc2752772cdfeaed30e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 09/47] fix: gps2utc aborts at the edges of a leap second with
 broadcast parameters

With fractional UTC parameters the time minus the offset can round to just
before 23:59:59 or to 00:00:00, which fails the assertions.
---
 src/gnss_time.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 13ee532..e839e7e 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -204,6 +204,15 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
      * subtract one second from time for now to make the conversion
      * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
     tow_utc = tow_utc - 1;
+
+    /* with fractional UTC parameters rounding can move the result just out of
+     * the last second of the day, so keep it there */
+    double day_end = round(tow_utc / DAY_SECS) * DAY_SECS;
+    if (tow_utc < day_end - 1) {
+      tow_utc = day_end - 1;
+    } else if (tow_utc > day_end - 1e-9) {
+      tow_utc = day_end - 1e-9;
+    }
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
-- 
2.43.0


From 913241370221c3d9b6fa2bcf78079688c2481938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 10/47] fix: normalised time duration can hold a whole week of
 seconds

One week minus a tiny amount rounds to {0 weeks, 604800 s}.
---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index e839e7e..ee557bf 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -178,6 +178,11 @@ void normalize_gps_time_duration(gps_time_duration_t *dt) {
   if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
     dt->weeks -= (s16)sign_weeks;
     dt->seconds += sign_weeks * WEEK_SECS;
+    /* tiny opposite seconds round to a whole week */
+    if (fabs(dt->seconds) >= WEEK_SECS) {
+      dt->weeks += (s16)sign_weeks;
+      dt->seconds = 0;
+    }
   }
 }
 
-- 
2.43.0


From bf5da8db611ba166467a9a15105023878d965eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 11/47] fix: Unix time conversions overflow 32 bits after week
 3550

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index ee557bf..3e3877d 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((time_t)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -324,7 +324,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -340,7 +340,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From a8c90b0d139177e33b19a95c51fbc5dad8f0abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 12/47] fix: URA index 16 reads past the end of the table

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..ac1f884 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 6aa59306779fe320e2661e7e74c55a4f822a35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 13/47] fix: GLONASS day number 0 decodes to a valid ephemeris
 without a reference time

---
 src/decode_glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_glo.c b/src/decode_glo.c
index a384346..2e838d7 100644
--- a/src/decode_glo.c
+++ b/src/decode_glo.c
@@ -472,7 +472,7 @@ bool decode_glo_string_4(const glo_string_t *string,
 
   /*extract Nt*/
   u16 nt_days = (u16)extract_word_glo(string, 16, 11);
-  if (GLO_NT_MAX_DAYS < nt_days) {
+  if ((0 == nt_days) || (GLO_NT_MAX_DAYS < nt_days)) {
     log_debug_sid(eph->sid, "GLO-NAV-ERR: nt=%" PRIu16 " days", nt_days);
     return false;
   }
-- 
2.43.0


From c7b3234e7038eb9d21ddf9ba3cf48c3095ea1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 14/47] fix: GLONASS health bits stick when an ephemeris is
 decoded again

---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index ac1f884..c3e7193 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1723,6 +1723,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->toe = GPS_TIME_UNKNOWN;
   eph->sid = sid;
   eph->valid = 0;
+  /* strings 2 and 3 only add to the health bits */
+  eph->health_bits = 0;
 
   glo_time_t tk;
   glo_time_t toe;
-- 
2.43.0


From a89a15bad587dfeecde7cb4cf19928b0cfbb3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 15/47] fix: GPS ephemeris with a clock reference time beyond
 the week reported valid

---
 src/ephemeris.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index c3e7193..3e9465a 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1330,6 +1330,14 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
   /* t_oc: Word 8, bits 8-24 */
   k->toc.tow =
       (frame_words[0][8 - 3] >> (30 - 24) & 0xFFFF) * GPS_LNAV_EPH_SF_TOC;
+  bool toc_valid = k->toc.tow <= GPS_LNAV_EPH_TOC_MAX;
+  if (!toc_valid) {
+    log_warn_sid(e->sid,
+                 "Latest ephemeris has faulty TOC: wn %d, tow %f."
+                 " Invalidating ephemeris.",
+                 k->toc.wn,
+                 k->toc.tow);
+  }
 
   /* a_f2: Word 9, bits 1-8 */
   k->af2 = (s8)(frame_words[0][9 - 3] >> (30 - 8) & 0xFF) * GPS_LNAV_EPH_SF_AF2;
@@ -1438,7 +1446,7 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
                  " Invalidating ephemeris.");
   }
 
-  e->valid = iode_valid && toe_valid;
+  e->valid = iode_valid && toe_valid && toc_valid;
   e->source = EPH_SOURCE_GPS_LNAV;
 }
 
-- 
2.43.0


From 5a98c986d50e9d2bcbb93c135ff03f45c9844c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 16/47] fix: BeiDou ephemeris checksum off by one in af2 for
 every decoded ephemeris

---
 include/swiftnav/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/swiftnav/constants.h b/include/swiftnav/constants.h
index 72b200f..e121263 100644
--- a/include/swiftnav/constants.h
+++ b/include/swiftnav/constants.h
@@ -115,7 +115,7 @@ extern "C" {
 /** 2^-59 */
 #define C_1_2P59 1.73472347597681e-018
 /** 2^-66 */
-#define C_1_2P66 1.35525271560688e-020
+#define C_1_2P66 1.3552527156068805e-20
 /** 2^-68 */
 #define C_1_2P68 3.3881317890172014e-21
 
-- 
2.43.0


From 81201df7c5e71cee51497bb0946dc1afca4adcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 17/47] fix: B1C pilot and combined signals get the B2I group
 delay

---
 src/ephemeris.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 3e9465a..44adbf2 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -2077,7 +2077,9 @@ s8 get_tgd_correction(const ephemeris_t *eph,
       // As BeiDou CNAV ephemeris is not yet available, use BeiDou B1i group
       // delay for B1C. It is not a perfect way and there may still be a meter
       // level error.
-      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code) {
+      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code ||
+          CODE_BDS3_B1CQ == sid->code || CODE_BDS3_B1CX == sid->code ||
+          CODE_AUX_BDS == sid->code) {
         *tgd = eph->data.kepler.tgd.bds_s[0];
       } else if (CODE_BDS3_B3I == sid->code || CODE_BDS3_B3Q == sid->code ||
                  CODE_BDS3_B3X == sid->code) {
-- 
2.43.0


From b5d518b6651ac050b30f01f21e6c75997d3ce451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 18/47] fix: predicted Doppler adds the receiver velocity
 instead of subtracting it

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 44adbf2..17036a4 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -808,7 +808,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From e26fbc2a4e816926b6d43e8802b6a624e43a7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 19/47] fix: satellite acceleration has two terms with the
 wrong sign

---
 src/ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 17036a4..206cc3a 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From f73ea1ab3bfdaf8854c97675e3485a0789c064bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 20/47] fix: BeiDou GEO velocity and acceleration not rotated
 into the Earth-fixed frame

---
 src/ephemeris.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 206cc3a..740e81b 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -543,23 +543,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -581,6 +564,27 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  /* transform GEO user-defined inertial system to BDCS: rotate position,
+   * velocity and acceleration, and add the motion of the rotating frame */
+  if (orbit_type == GEO) {
+    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
+    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
+    double *vectors[3] = {pos, vel, acc};
+    for (u8 i = 0; i < 3; i++) {
+      double *v = vectors[i];
+      double v_x = v[0];
+      double v_y = v[1] * COS_5 + v[2] * (-SIN_5);
+      double v_z = -v[1] * (-SIN_5) + v[2] * COS_5;
+      v[0] = v_x * cos_ome + v_y * sin_ome;
+      v[1] = -v_x * sin_ome + v_y * cos_ome;
+      v[2] = v_z;
+    }
+    vel[0] += BDS2_OMEGAE_DOT * pos[1];
+    vel[1] -= BDS2_OMEGAE_DOT * pos[0];
+    acc[0] += BDS2_OMEGAE_DOT * (2 * vel[1] + BDS2_OMEGAE_DOT * pos[0]);
+    acc[1] -= BDS2_OMEGAE_DOT * (2 * vel[0] - BDS2_OMEGAE_DOT * pos[1]);
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 1a352588321cfe86f80b6a82c5088c548e2ff00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 21/47] fix: almanac state queries ignore the almanac's own
 validity and health

---
 src/almanac.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/almanac.c b/src/almanac.c
index df28a36..2998ad2 100644
--- a/src/almanac.c
+++ b/src/almanac.c
@@ -78,7 +78,7 @@ static s8 calc_sat_state_xyz_almanac(const almanac_t *a,
   e.ura = a->ura;
   e.fit_interval = a->fit_interval;
   e.valid = a->valid;
-  e.health_bits = a->health_bits;
+  e.health_bits = 0; /* checked by almanac_valid() */
   memcpy(e.data.xyz.pos, a->data.xyz.pos, sizeof(e.data.xyz.pos));
   memcpy(e.data.xyz.vel, a->data.xyz.vel, sizeof(e.data.xyz.vel));
   memcpy(e.data.xyz.acc, a->data.xyz.acc, sizeof(e.data.xyz.acc));
@@ -117,7 +117,7 @@ static s8 calc_sat_state_kepler_almanac(const almanac_t *a,
   e.ura = a->ura;
   e.fit_interval = a->fit_interval;
   e.valid = a->valid;
-  e.health_bits = a->health_bits;
+  e.health_bits = 0; /* checked by almanac_valid() */
   e.data.kepler.m0 = a->data.kepler.m0;
   e.data.kepler.ecc = a->data.kepler.ecc;
   e.data.kepler.sqrta = a->data.kepler.sqrta;
@@ -156,6 +156,10 @@ s8 calc_sat_state_almanac(const almanac_t *a,
                           double acc[3],
                           double *clock_err,
                           double *clock_rate_err) {
+  if (!almanac_valid(a, t)) {
+    return -1;
+  }
+
   switch (sid_to_constellation(a->sid)) {
     case CONSTELLATION_GPS:
       return calc_sat_state_kepler_almanac(
-- 
2.43.0


From 18827b7a2a88dc3d2b9d009b16dc844176b1f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 22/47] fix: geoid lookup with a NaN coordinate reads outside
 the grid

---
 src/geoid_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoid_model.c b/src/geoid_model.c
index dca6549..212d3a1 100644
--- a/src/geoid_model.c
+++ b/src/geoid_model.c
@@ -87,7 +87,7 @@ geoid_model_t get_geoid_model(void) { return GEOID_MODEL_EGM2008; }
 float get_geoid_offset(double lat_rad, double lon_rad) {
   /* Convert to degrees, returning 0.0 if out of bounds */
   float lat_deg = (float)(R2D * lat_rad);
-  if (lat_deg > MAX_LAT || lat_deg < MIN_LAT) {
+  if (!(lat_deg <= MAX_LAT && lat_deg >= MIN_LAT)) {
     log_error("Invalid latitude passed to get_geoid_offset: %lf", lat_rad);
     return 0.0;
   }
@@ -96,7 +96,7 @@ float get_geoid_offset(double lat_rad, double lon_rad) {
   if (lon_deg < 0.) {
     lon_deg += 360.f;
   }
-  if (lon_deg > MAX_LON || lon_deg < MIN_LON) {
+  if (!(lon_deg <= MAX_LON && lon_deg >= MIN_LON)) {
     log_error("Invalid longitude passed to get_geoid_offset: %lf", lon_rad);
     return 0.0;
   }
-- 
2.43.0


From febdfc99c6632b3d9e1a21bea4b9aaf75a49a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 23/47] fix: tall pseudo-inverse sums the normal matrix and
 indexes its inverse wrongly

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From 6909b8ef50d9e7a2e00342ca489dadc568789a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 24/47] fix: wide (least-norm) pseudo-inverse always fails

---
 src/linear_algebra.c | 46 +++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..79fce7d 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -749,16 +749,16 @@ inline int matrix_atwaiat(
  *  Compute \f$ B := A^T (A W A^{T})^{-1} \f$, where \f$ A \f$ is a
  *  matrix on \f$\mathbb{R}^{n \times m}\f$, \f$ W \f$ is a diagonal
  *  weighting matrix on \f$\mathbb{R}^{m \times m}\f$ and \f$B\f$ is
- *  (therefore) a matrix on \f$\mathbb{R}^{n \times n}\f$, for \f$ n <
+ *  (therefore) a matrix on \f$\mathbb{R}^{m \times n}\f$, for \f$ n <
  *  m \f$.
  *
- *  \param n            Number of rows in a and rows and columns in b
- *  \param m            Number of columns in a
+ *  \param n            Number of rows in a and columns in b
+ *  \param m            Number of columns in a and rows in b
  *  \param a            Input matrix
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From c5575c412d86d3500e750579f10ae61b9e530b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 25/47] fix: clock drift variance is uninitialised when
 velocity is disabled

---
 src/single_epoch_solver.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..b13ec59 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -564,6 +564,7 @@ static s8 pvt_solve(const u8 n_used,
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
+    memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   } else {
     /* Perform the velocity solution. */
     vel_solve(n_used, n_states, nav_meas, G, lsq_data);
-- 
2.43.0


From 2f667de1cefdc6cfe7addaac5587e74e17c2a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 26/47] fix: Doppler residuals use the first constellation's
 clock drift for all

---
 src/single_epoch_solver.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index b13ec59..62e9f85 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -243,6 +243,8 @@ static void sagnac_rotation(const double sat_pos[3],
 
 /** Compute the predicted Doppler measurement
  *
+ * \param n_states  Number of states in the position and in the velocity solution
+ * \param clock_map Index of the clock state of each constellation
  * \param rx_state  Assumed state vector
  * \param nav_meas  Pointer to the navigation measurement
  *
@@ -250,11 +252,14 @@ static void sagnac_rotation(const double sat_pos[3],
  */
 static double compute_predicted_doppler(
     const u8 n_states,
+    const s8 clock_map[CONSTELLATION_COUNT],
     const double *rx_state,
     const navigation_measurement_t *nav_meas) {
   const double *user_pos = &rx_state[0];
   const double *user_vel = &rx_state[n_states];
-  const double clock_drift_m_s = rx_state[n_states + 3];
+  const s8 clock_index = clock_map[sid_to_constellation(nav_meas->sid)];
+  assert(clock_index != -1);
+  const double clock_drift_m_s = rx_state[n_states + clock_index];
   double sat_vel_new[3] = {0.0};
   double line_of_sight[3] = {0.0};
   double relative_velocity[3] = {0.0};
@@ -281,6 +286,7 @@ static double compute_predicted_doppler(
  */
 static s8 vel_solve(const u8 n_used,
                     const u8 n_states,
+                    const s8 clock_map[CONSTELLATION_COUNT],
                     const navigation_measurement_t **nav_meas,
                     const double *G,
                     lsq_data_t *lsq_data) {
@@ -320,8 +326,8 @@ static s8 vel_solve(const u8 n_used,
     /* Calculate predicted pseudorange rates from the satellite velocity
      * and the assumed user position/velocity.
      */
-    pdot_pred =
-        compute_predicted_doppler(n_states, lsq_data->rx_state, nav_meas[j]);
+    pdot_pred = compute_predicted_doppler(
+        n_states, clock_map, lsq_data->rx_state, nav_meas[j]);
 
     double doppler_var = 0.0;
     calc_measurement_noises(nav_meas[j], NULL, &doppler_var);
@@ -359,7 +365,8 @@ static s8 vel_solve(const u8 n_used,
       lsq_data->omp_doppler[j] =
           -nav_meas_cor_sat_clk_on_measured_doppler(nav_meas[j]) *
               sid_to_lambda(nav_meas[j]->sid) -
-          compute_predicted_doppler(n_states, lsq_data->rx_state, nav_meas[j]);
+          compute_predicted_doppler(
+              n_states, clock_map, lsq_data->rx_state, nav_meas[j]);
     }
   }
 
@@ -567,7 +574,7 @@ static s8 pvt_solve(const u8 n_used,
     memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   } else {
     /* Perform the velocity solution. */
-    vel_solve(n_used, n_states, nav_meas, G, lsq_data);
+    vel_solve(n_used, n_states, clock_map, nav_meas, G, lsq_data);
   }
 
   /* Prepare a separate un-weighted geometry matrix for DOP computations in H */
@@ -760,7 +767,7 @@ static bool flag_outliers(const u8 n_used,
       /* check velocity residual only if velocity solution is enabled and
        * there already was no range residual */
       double pdot_pred =
-          compute_predicted_doppler(n_states, rx_state, nav_meas[i]);
+          compute_predicted_doppler(n_states, clock_map, rx_state, nav_meas[i]);
       double doppler_residual =
           -nav_meas_cor_sat_clk_on_measured_doppler(nav_meas[i]) *
               sid_to_lambda(sid) -
@@ -1084,7 +1091,7 @@ static s8 pvt_repair(const u8 n_used,
 
         if (!disable_velocity) {
           double pdot_pred = compute_predicted_doppler(
-              n_states, lsq_data->rx_state, nav_meas[bad_sat]);
+              n_states, clock_map, lsq_data->rx_state, nav_meas[bad_sat]);
 
           vel_residual =
               -nav_meas_cor_sat_clk_on_measured_doppler(nav_meas[bad_sat]) *
-- 
2.43.0


From 5965902ae61fec7322946c8c20739c49f65ca675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 27/47] fix: predicted Doppler mixes a rotated velocity with an
 unrotated line of sight

---
 src/single_epoch_solver.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 62e9f85..2ae1ac2 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -260,6 +260,7 @@ static double compute_predicted_doppler(
   const s8 clock_index = clock_map[sid_to_constellation(nav_meas->sid)];
   assert(clock_index != -1);
   const double clock_drift_m_s = rx_state[n_states + clock_index];
+  double sat_pos_new[3] = {0.0};
   double sat_vel_new[3] = {0.0};
   double line_of_sight[3] = {0.0};
   double relative_velocity[3] = {0.0};
@@ -272,6 +273,11 @@ static double compute_predicted_doppler(
    * satellite's velocity at time t-tau. */
   sagnac_rotation(nav_meas->sat_vel, tau, sat_vel_new);
 
+  /* The line of sight points to the rotated position, as in the geometry
+   * matrix. */
+  sagnac_rotation(nav_meas->sat_pos, tau, sat_pos_new);
+  vector_subtract(3, sat_pos_new, user_pos, line_of_sight);
+
   /* Predicted Doppler measurement is the relative user-satellite velocity
    * projected onto the unit line-of-sight vector, plus clock drift */
   vector_subtract(3, sat_vel_new, user_vel, relative_velocity);
-- 
2.43.0


From 952578705b8c269d18cee7ad82e99bdf061a8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 28/47] fix: RAIM fallback to GPS alone is always singular with
 other constellations

---
 src/single_epoch_solver.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 2ae1ac2..3e71fac 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -929,11 +929,12 @@ static s8 pvt_iter_masked(const u8 n_meas,
  *   - `-5`: not enough satellites to attempt repair
  *   - `-6`: pvt_iter didn't converge
  *
- *  Results stored in the lsq_data, removed_sid
+ *  Results stored in the lsq_data, removed_sid. The solution has no clock states
+ *  but that of GPS, so n_states and clock_map are updated accordingly.
  */
 static s8 pvt_solve_gps_only(const u8 n_meas,
-                             const u8 n_states,
-                             const s8 clock_map[CONSTELLATION_COUNT],
+                             u8 *n_states,
+                             s8 clock_map[CONSTELLATION_COUNT],
                              const navigation_measurement_t **nav_meas,
                              const bool disable_velocity,
                              lsq_data_t *lsq_data,
@@ -949,7 +950,12 @@ static s8 pvt_solve_gps_only(const u8 n_meas,
   }
   u8 n_used = n_meas - sid_set_get_sig_count(removed_sids);
 
-  if (n_used <= n_states) {
+  /* The clocks of the excluded constellations are not observable */
+  *n_states = 4;
+  memset(clock_map, -1, CONSTELLATION_COUNT * sizeof(clock_map[0]));
+  clock_map[CONSTELLATION_GPS] = 3;
+
+  if (n_used <= *n_states) {
     /* not enough measurements for constellation RAIM */
     log_info(
         "RAIM failed: %d measurements not enough for constellation RAIM, "
@@ -960,7 +966,7 @@ static s8 pvt_solve_gps_only(const u8 n_meas,
   }
 
   if (0 == pvt_iter_masked(n_meas,
-                           n_states,
+                           *n_states,
                            clock_map,
                            disable_velocity,
                            nav_meas,
@@ -1008,12 +1014,13 @@ static s8 pvt_solve_gps_only(const u8 n_meas,
  *   - `-1`: no reasonable solution possible
  */
 static s8 pvt_repair(const u8 n_used,
-                     const u8 n_states,
-                     const s8 clock_map[CONSTELLATION_COUNT],
+                     u8 *p_n_states,
+                     s8 clock_map[CONSTELLATION_COUNT],
                      const bool disable_velocity,
                      const navigation_measurement_t **nav_meas,
                      lsq_data_t *lsq_data,
                      gnss_sid_set_t *removed_sids) {
+  const u8 n_states = *p_n_states;
   /* If removed_sids is null, point it to a local variable */
   gnss_sid_set_t local_removed_sids;
   if (!removed_sids) {
@@ -1163,7 +1170,7 @@ static s8 pvt_repair(const u8 n_used,
   /* Loop exhausted, cannot remove any more measurements. As a last-ditch
    * effort, try removing all but GPS signals */
   return pvt_solve_gps_only(n_used,
-                            n_states,
+                            p_n_states,
                             clock_map,
                             nav_meas,
                             disable_velocity,
@@ -1201,14 +1208,15 @@ static s8 pvt_repair(const u8 n_used,
  *  Results stored in lsq_data, removed_sid, metric
  */
 static s8 pvt_solve_raim(const u8 n_used,
-                         const u8 n_states,
-                         const s8 clock_map[CONSTELLATION_COUNT],
+                         u8 *p_n_states,
+                         s8 clock_map[CONSTELLATION_COUNT],
                          const navigation_measurement_t **nav_meas_ptrs,
                          const bool disable_raim,
                          const bool disable_velocity,
                          lsq_data_t *lsq_data,
                          gnss_sid_set_t *removed_sids,
                          double *metric) {
+  const u8 n_states = *p_n_states;
   assert(n_used <= MAX_CHANNELS);
 
   s8 flag = pvt_iter(
@@ -1244,7 +1252,7 @@ static s8 pvt_solve_raim(const u8 n_used,
 
   /* Otherwise, try RAIM repair */
   return pvt_repair(n_used,
-                    n_states,
+                    p_n_states,
                     clock_map,
                     disable_velocity,
                     nav_meas_ptrs,
@@ -1430,7 +1438,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
     raim_flag = pvt_solve_raim(n_processed_meas_used,
-                               n_states,
+                               &n_states,
                                clock_map,
                                processed_nav_meas_ptrs,
                                disable_raim,
-- 
2.43.0


From c53927e91622bfe25e7c93bd59d9f5b9b795b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 29/47] fix: a failed SPP epoch leaves the previous solution
 marked valid

---
 src/single_epoch_solver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 3e71fac..4126e8d 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1421,6 +1421,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   s8 raim_flag = PVT_CONVERGED_RAIM_OK;
 
+  soln->valid = 0;
+  soln->velocity_valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
+
   if (n_states > sid_set_get_sat_count(&sids_used)) {
     raim_flag = PVT_INSUFFICENT_MEAS;
   }
@@ -1430,10 +1435,6 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   lsq_data_t lsq_data;
 
   if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
-
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From 20cca849e8e8c5dd827e3a04fa34b9c410f5f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 30/47] fix: SPP without measurements declares arrays of zero
 length

---
 src/single_epoch_solver.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 4126e8d..0e30c61 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1374,8 +1374,10 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   u8 n_processed_meas_used = 0;
   gnss_sid_set_t sids_used;
   sid_set_init(&sids_used);
-  LSN_NEW_ARRAY(
-      processed_nav_meas_ptrs, n_meas, const navigation_measurement_t *);
+  /* An array cannot have zero elements */
+  LSN_NEW_ARRAY(processed_nav_meas_ptrs,
+                MAX(n_meas, 1),
+                const navigation_measurement_t *);
 
   for (u8 i = 0; i < n_meas; ++i) {
     if (!pred(nav_meas[i]->sid, sids_used, n_states)) {
@@ -1592,7 +1594,9 @@ s8 calc_PVT_pred(const u8 n_meas,
                  gnss_solution *soln,
                  dops_t *dops,
                  gnss_sid_set_t *raim_removed_sids) {
-  LSN_NEW_ARRAY(nav_meas_ptrs, n_meas, const navigation_measurement_t *);
+  /* An array cannot have zero elements */
+  LSN_NEW_ARRAY(
+      nav_meas_ptrs, MAX(n_meas, 1), const navigation_measurement_t *);
   for (u8 i = 0; i < n_meas; i++) {
     nav_meas_ptrs[i] = nav_meas + i;
   }
-- 
2.43.0


From 011ae9476d0ba3aac4a9666adcd53c64015d8ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 31/47] fix: SPP takes a NaN correction for convergence

---
 src/single_epoch_solver.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 0e30c61..6932c08 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -848,6 +848,13 @@ static s8 pvt_iter(const u8 n_used,
     return -1;
   }
 
+  /* A correction that is not a number passes for a small one */
+  for (u8 i = 0; i < 2 * n_states; i++) {
+    if (!isfinite(lsq_data->rx_state[i])) {
+      return -1;
+    }
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 3ce07239818c5f42da1bc7879ab0b56c2b8b89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 32/47] fix: SPP reports a valid velocity when signals have no
 Doppler

---
 src/single_epoch_solver.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 6932c08..5bc4281 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1333,7 +1333,7 @@ static bool obs_mask_check_passed(const obs_mask_config_t *obs_mask_config,
  * Try to calculate a single point GNSS solution
  *
  * Note: Observations must have SPP OK flag set, and a valid pseudorange.
- * A valid Doppler value is required if `disable_velocity` is `false`.
+ * The velocity is computed only if every signal has a valid measured Doppler.
  *
  * \param n_meas - number of measurements
  * \param nav_meas - array of measurements of length `n_meas`
@@ -1364,7 +1364,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                  const navigation_measurement_t **nav_meas,
                                  const gps_time_t *tor,
                                  const bool disable_raim,
-                                 const bool disable_velocity,
+                                 bool disable_velocity,
                                  const obs_mask_config_t *obs_mask_config,
                                  sat_sel_predicate pred,
                                  gnss_solution *soln,
@@ -1417,14 +1417,10 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
           "SPP attempted on measurements that did not have valid pseudorange");
     }
 
-    /* if velocity output is requested, every signal must have valid Doppler */
-    if (!disable_velocity &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_COMP_DOPPLER_VALID)) {
-      assert(
-          "SPP velocity requested but not all measurements have valid Doppler");
+    /* the velocity solution needs a measured Doppler from every signal */
+    if (!(processed_nav_meas_ptrs[i]->flags &
+          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) {
+      disable_velocity = true;
     }
   }
 
-- 
2.43.0


From 970ea38b5438b67559f69755c0d63d0986182f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 33/47] fix: RAIM keeps a failed exclusion over a successful
 one

---
 src/single_epoch_solver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 5bc4281..fb125d5 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1078,6 +1078,10 @@ static s8 pvt_repair(const u8 n_used,
                                          &metric[i]);
       if (0 == solution_flag) {
         /* at least one exclusion is successful */
+        if (!successful_exclusion_found) {
+          /* forget the unsuccessful ones, whatever their metric */
+          best_metric = INFINITY;
+        }
         successful_exclusion_found = true;
         log_debug_sid(nav_meas[i]->sid,
                       "RAIM exclusion successful, metric %.2g",
-- 
2.43.0


From 621197ac8879c26ec740d2012102f1aadac7656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 34/47] fix: SPP ignores a failed velocity solution

---
 src/single_epoch_solver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index fb125d5..36289ec 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -580,7 +580,10 @@ static s8 pvt_solve(const u8 n_used,
     memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   } else {
     /* Perform the velocity solution. */
-    vel_solve(n_used, n_states, clock_map, nav_meas, G, lsq_data);
+    if (vel_solve(n_used, n_states, clock_map, nav_meas, G, lsq_data) < 0) {
+      log_warn("Velocity solution failed, n_used = %u", n_used);
+      return -1;
+    }
   }
 
   /* Prepare a separate un-weighted geometry matrix for DOP computations in H */
-- 
2.43.0


From 7266c253094ec98941bc0744470f8eefa5f95057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 35/47] fix: SPP hangs or aborts normalising the time of a wild
 clock solution

---
 src/single_epoch_solver.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 36289ec..a314128 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1530,7 +1530,13 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   /* Correct the time of reception with the solved bias to get solution time */
   soln->time = *tor;
   soln->time.tow -= lsq_data.rx_state[3] / GPS_C;
-  normalize_gps_time(&soln->time);
+  if (fabs(soln->clock_offset) > WEEK_SECS ||
+      !normalize_gps_time_safe(&soln->time)) {
+    /* Measurements this far off leave no usable time of solution */
+    memset(soln, 0, sizeof(*soln));
+    LSN_FREE_ARRAY(processed_nav_meas_ptrs);
+    return PVT_UNCONVERGED;
+  }
 
   /* filter out solutions with bad DOP, unlikely altitude, or ITAR violation */
   s8 ret = filter_solution(soln, dops);
-- 
2.43.0


From 87bf8e6d107add1cdd6802a348c101ed7d846fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 36/47] fix: registering a status callback twice makes the list
 circular, null callback is called

---
 src/subsystem_status_report.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..c49db8d 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,17 +20,26 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  if (callback == NULL) {
+    swiftnav_subsystem_status_report_callback_deregister(callback_node);
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
-  callback_node->next = NULL;
 
   swiftnav_subsystem_status_report_callback_node_t* previous = NULL;
   swiftnav_subsystem_status_report_callback_node_t* current =
       root_callback_node;
 
   for (; current != NULL; previous = current, current = current->next) {
+    if (current == callback_node) {
+      /* already registered, appending it again would make the list circular */
+      return;
+    }
   }
 
+  callback_node->next = NULL;
   if (previous != NULL) {
     previous->next = callback_node;
   } else {
-- 
2.43.0


From 1d9508c3abc60606401da23f18bd8ada8f32310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 37/47] fix: nav_meas_flags_valid accepted undefined flags and
 rejected an empty mask

---
 src/nav_meas.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index d3689b2..9690b80 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -123,10 +123,10 @@ int nav_meas_cmp(const void *a, const void *b) {
 
 bool nav_meas_flags_valid(nav_meas_flags_t flags) {
   const nav_meas_flags_t all_valid =
-      NAV_MEAS_FLAG_CODE_VALID & NAV_MEAS_FLAG_PHASE_VALID &
-      NAV_MEAS_FLAG_MEAS_DOPPLER_VALID & NAV_MEAS_FLAG_COMP_DOPPLER_VALID &
-      NAV_MEAS_FLAG_HALF_CYCLE_KNOWN & NAV_MEAS_FLAG_CN0_VALID;
-  return ~all_valid & flags;
+      NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID |
+      NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_COMP_DOPPLER_VALID |
+      NAV_MEAS_FLAG_HALF_CYCLE_KNOWN | NAV_MEAS_FLAG_CN0_VALID;
+  return 0 == (flags & ~all_valid);
 }
 
 bool pseudorange_valid(const navigation_measurement_t *meas) {
-- 
2.43.0


From 76e027f3e030bf0909df161acd1b5c6bcabe3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 38/47] fix: glo_map_fill_dummy_data stored a channel outside
 1..14

---
 src/glo_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glo_map.c b/src/glo_map.c
index 3a98e6e..ecc11a2 100644
--- a/src/glo_map.c
+++ b/src/glo_map.c
@@ -121,7 +121,7 @@ void glo_map_clear_all(void) {
  */
 void glo_map_fill_dummy_data(void) {
   for (u16 i = 1; i < NUM_GLO_MAP_INDICES; ++i) {
-    glo_sv_id_fcn_map[i] = -1;
+    glo_sv_id_fcn_map[i] = GLO_FCN_OFFSET - 1;
   }
 }
 
-- 
2.43.0


From 3a06731b4fc32003ddadd7f66ef4d16805b77e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 39/47] fix: glo_map_fill_dummy_data updated the map without
 the lock

---
 src/glo_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glo_map.c b/src/glo_map.c
index ecc11a2..999471a 100644
--- a/src/glo_map.c
+++ b/src/glo_map.c
@@ -120,9 +120,11 @@ void glo_map_clear_all(void) {
  * GLONASS observations (but don't rely on actual wavelength values) can run.
  */
 void glo_map_fill_dummy_data(void) {
+  glo_map_lock();
   for (u16 i = 1; i < NUM_GLO_MAP_INDICES; ++i) {
     glo_sv_id_fcn_map[i] = GLO_FCN_OFFSET - 1;
   }
+  glo_map_unlock();
 }
 
 /**
-- 
2.43.0


From 37eac90634deec4ddab34598c70f4c4fd2adc6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 40/47] fix: satellite clock rate correction of the Doppler had
 the wrong sign

---
 src/nav_meas.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 9690b80..957dc3b 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -198,7 +198,9 @@ double nav_meas_cor_sat_clk_on_pseudorange(
 double nav_meas_cor_sat_clk_on_measured_doppler(
     const navigation_measurement_t *nav_meas) {
   double carrier_freq = sid_to_carr_freq(nav_meas->sid);
-  return (nav_meas->raw_measured_doppler +
+  /* The Doppler is positive when the range decreases, so the correction has
+   * the opposite sign of those of the pseudorange and the carrier phase. */
+  return (nav_meas->raw_measured_doppler -
           nav_meas->sat_clock_err_rate * carrier_freq);
 }
 
-- 
2.43.0


From 9c6cc436e681a151f7c3dbe5b9f091167075a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 41/47] fix: GPS clock reference time had the wrong week next
 to a week roll-over

---
 src/ephemeris.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 740e81b..a906a94 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1341,6 +1341,9 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
                  " Invalidating ephemeris.",
                  k->toc.wn,
                  k->toc.tow);
+  } else if (toe_valid) {
+    /* TOC can be on the other side of a week roll-over than TOE */
+    gps_time_match_weeks(&k->toc, &e->toe);
   }
 
   /* a_f2: Word 9, bits 1-8 */
-- 
2.43.0


From 717f45c5d8d19d843edcdb4d867ee7d9a215bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 42/47] fix: BeiDou orbits with toe in the last 14 s of the
 BeiDou week were rotated by a week of Earth rotation

---
 src/ephemeris.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index a906a94..da47909 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -518,15 +518,20 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
       om_dot = k->omegadot - GPS_OMEGAE_DOT;
       om = k->omega0 + dt * om_dot - GPS_OMEGAE_DOT * e->toe.tow;
       break;
-    case CONSTELLATION_BDS:
+    case CONSTELLATION_BDS: {
+      /* The week of BeiDou time starts after the GPS week. */
+      double toe_bdt = e->toe.tow - BDS_SECOND_TO_GPS_SECOND;
+      if (toe_bdt < 0) {
+        toe_bdt += WEEK_SECS;
+      }
       if (orbit_type == GEO) {
         om_dot = k->omegadot;
       } else {
         om_dot = k->omegadot - BDS2_OMEGAE_DOT;
       }
-      om = k->omega0 + dt * om_dot -
-           BDS2_OMEGAE_DOT * (e->toe.tow - BDS_SECOND_TO_GPS_SECOND);
+      om = k->omega0 + dt * om_dot - BDS2_OMEGAE_DOT * toe_bdt;
       break;
+    }
     case CONSTELLATION_SBAS:
     case CONSTELLATION_GLO:
     case CONSTELLATION_COUNT:
-- 
2.43.0


From 1f575e52c3d27284851e71f12e2219534e2308cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 43/47] fix: GPS to UTC conversion was a second off around a
 negative leap second

---
 src/gnss_time.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 3e3877d..dfc7aa5 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1018,8 +1018,9 @@ double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
     double dt_utc = p->a0 + p->a1 * dt + p->a2 * dt * dt;
 
     /* the new UTC offset takes effect exactly 1 second after the start of
-     * (a positive) leap second event */
-    if (gpsdifftime(t, &p->t_lse) >= 1.0) {
+     * a positive leap second event, and 1 second before the regular end of the
+     * day if the leap second is negative */
+    if (gpsdifftime(t, &p->t_lse) >= (double)(p->dt_lsf - p->dt_ls)) {
       dt_utc += (double)p->dt_lsf;
     } else {
       dt_utc += (double)p->dt_ls;
-- 
2.43.0


From ae52889f3fe8d6c7dfdeba045a120d040c7baf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 44/47] fix: GLONASS to GPS time was a second off in the week
 of a negative leap second

---
 src/gnss_time.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index dfc7aa5..aadc0ab 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -587,14 +587,6 @@ gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
   /* offset from UTC time to GPS time */
   double d_utc = get_utc_gps_offset(&gps_t, utc_params);
 
-  /* check if there was a leap second during this week */
-  gps_time_t week_start = {.wn = gps_t.wn, .tow = 0.0};
-
-  /* there was a leap second during this week, add that in */
-  if (get_utc_gps_offset(&week_start, utc_params) < d_utc - 1) {
-    gps_t.tow += 1;
-  }
-
   /* add back the ongoing leap second subtracted earlier */
   if (is_leap_second) {
     gps_t.tow += 1;
-- 
2.43.0


From f365c493420860ba24eebf96689c06208ebdc25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 45/47] fix: the leap second event time was off by the drift of
 the UTC polynomial over the offset

t_lse is documented as the exact GPS time of the start of the event, but the
polynomial was evaluated at the GPS label of midnight, dt_ls seconds before
the event, so that UTC went back by a second in a window around the event.
---
 src/gnss_time.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index aadc0ab..d65e81d 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -792,8 +792,11 @@ bool decode_utc_parameters_with_wn_ref(const u32 words[8],
 
     /* t_lse now points to the midnight near the leap second event. Add
      * the current leap second value and polynomial UTC correction to set t_lse
-     * to the beginning of the leap second event */
-    u->t_lse.tow += u->dt_ls + u->a0 + u->a1 * gpsdifftime(&u->t_lse, &u->tot);
+     * to the beginning of the leap second event. The polynomial has to hold at
+     * the event itself, hence the division by (1 - a1) */
+    u->t_lse.tow += (u->dt_ls + u->a0 +
+                     u->a1 * gpsdifftime(&u->t_lse, &u->tot)) /
+                    (1.0 - u->a1);
     normalize_gps_time(&u->t_lse);
 
     retval = true;
-- 
2.43.0


From 61adb166a94d5be08683a3a9ce9d84cdab0a00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 46/47] fix: bit fields ending at bit 2^32 of a buffer were
 read as zero

The end position of the reading loop overflowed 32 bits, while the writers
handle the position.
---
 src/bits.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bits.c b/src/bits.c
index 3853567..3e0c216 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -71,7 +71,8 @@ u16 bytes_interleave(const u8 x, const u8 y) {
 u32 getbitu(const u8 *buff, u32 pos, u8 len) {
   u32 bits = 0;
 
-  for (u32 i = pos; i < pos + len; i++) {
+  /* 64-bit index: a field may end at bit 2^32 */
+  for (u64 i = pos; i < (u64)pos + len; i++) {
     bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
   }
 
@@ -90,7 +91,8 @@ u32 getbitu(const u8 *buff, u32 pos, u8 len) {
 u64 getbitul(const u8 *buff, u32 pos, u8 len) {
   u64 bits = 0;
 
-  for (u32 i = pos; i < pos + len; i++) {
+  /* 64-bit index: a field may end at bit 2^32 */
+  for (u64 i = pos; i < (u64)pos + len; i++) {
     bits = (bits << 1) + ((buff[i / 8] >> (7 - i % 8)) & 1u);
   }
 
-- 
2.43.0


From 6fd8336b334aa9f2880d11a741690c18c18747f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 47/47] fix: a time less than rounding before a leap second
 became the midnight after it

Normalising the negative UTC second of the week rounded up to 00:00:00 of the
next day, a second ahead of the next moment's 23:59:60.
---
 src/gnss_time.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index d65e81d..fd4b0f4 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -223,6 +223,17 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
   normalize_gps_time(&t_u);
 
+  if (!is_lse && fmod(t_u.tow, DAY_SECS) == 0) {
+    /* a time just before a leap second event rounds up to the midnight after
+     * it, so hold it at the start of the event */
+    gps_time_t t_next = {.wn = t->wn, .tow = t->tow + 1e-9};
+    if (is_leap_second_event(&t_next, p)) {
+      is_lse = true;
+      t_u.tow -= 1;
+      normalize_gps_time(&t_u);
+    }
+  }
+
   /* break the time into components */
   make_utc_tm(&t_u, u);
 
-- 
2.43.0

