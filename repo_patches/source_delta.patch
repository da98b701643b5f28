From 23bf218fa7318dd60dd99b87fc683336deeba45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 01/35] fix: get_sbas_system attributes out-of-range satellite
 numbers to a system

---
 src/signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..c5d91ea 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -1310,6 +1310,10 @@ const u8 *get_sbas_prn_list(sbas_system_t sbas_system) {
 /** Which system a given SBAS PRN belongs to */
 sbas_system_t get_sbas_system(const gnss_signal_t sid) {
   assert(IS_SBAS(sid));
+  /* PRN lists are 8 bits wide and zero padded */
+  if (!sid_valid(sid)) {
+    return SBAS_NONE;
+  }
   for (sbas_system_t sbas_system = (sbas_system_t)0; sbas_system < SBAS_COUNT;
        sbas_system = sbas_system + 1) {
     if (is_value_in_array(sbas_prn_table[sbas_system].prn_list,
-- 
2.43.0


From 2ed84b8bdf03744b2368fb34d6908064a0578957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 02/35] fix: remove_element overruns when the key is larger
 than every element

---
 src/set.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..b2d15cb 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,6 +227,13 @@ u32 remove_element(
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
 
+  if (na == 0) {
+    return index;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
+
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
          (const char *)as + (index + 1) * sa,
-- 
2.43.0


From 8d0242049c169c29d3544b82dc4dcf36ad367808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:35 +0000
Subject: [PATCH 03/35] fix: registering a status callback twice corrupts the
 list, NULL callback crashes on send

---
 src/subsystem_status_report.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..c941cf0 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,17 +20,26 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  if (callback == NULL) {
+    swiftnav_subsystem_status_report_callback_deregister(callback_node);
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
-  callback_node->next = NULL;
 
   swiftnav_subsystem_status_report_callback_node_t* previous = NULL;
   swiftnav_subsystem_status_report_callback_node_t* current =
       root_callback_node;
 
   for (; current != NULL; previous = current, current = current->next) {
+    if (current == callback_node) {
+      /* already registered, the callback has been replaced */
+      return;
+    }
   }
 
+  callback_node->next = NULL;
   if (previous != NULL) {
     previous->next = callback_node;
   } else {
-- 
2.43.0


From c67ab6f1038774b1e416345c06ed65c8b2ea082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 04/35] fix: crc24q_bits reads one byte past messages of whole
 bytes

---
 src/edc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..36a5bc0 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,8 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  /* the buffer ends here when the last byte is complete */
+  acc = (acc << 8) | (n_bits % 8 != 0 ? *buf : 0);
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From a419e072f5771ad2a530edfbaac58656d356d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 05/35] fix: stream overflow checks wrap for positions and
 lengths near 2^32

---
 include/swiftnav/bitstream.h  | 6 ++++--
 include/swiftnav/bytestream.h | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..3eaac41 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,8 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return buf->offset > buf->len || pos > buf->len - buf->offset ||
+         len > buf->len - buf->offset - pos;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -88,7 +89,8 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return buf->offset > buf->len || pos > buf->len - buf->offset ||
+         len > buf->len - buf->offset - pos;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..dfc0d4c 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,8 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return buf->offset > buf->len || index > buf->len - buf->offset ||
+         len > buf->len - buf->offset - index;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
-- 
2.43.0


From 94d82e6088d038d5ad14199cc31a2d235f066e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 06/35] fix: Unix time conversions overflow from GPS week 3551
 on

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..fe6f415 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((time_t)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -310,7 +310,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -326,7 +326,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From 85b0b8d97f95f660ac4b9e2f4682f37863763638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 07/35] fix: no leap second event when the broadcast offset
 does not change

---
 src/gnss_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index fe6f415..eb1e0e4 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1080,7 +1080,7 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From f86135cb355bb630d1fcadc1a06e976b1ee6e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 08/35] fix: GLONASS dates from 2101 to 2103 convert one day
 early

---
 src/gnss_time.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index eb1e0e4..14396c7 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -517,8 +517,6 @@ u16 gps_adjust_week_cycle256(u16 wn_raw, u16 wn_ref) {
  */
 
 gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
-  u8 year_of_cycle = 0;
-  u16 day_of_year = 0;
   u32 glo_year = 0;
   gps_time_t gps_t = GPS_TIME_UNKNOWN;
 
@@ -526,29 +524,16 @@ gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
     return GPS_TIME_UNKNOWN;
   }
 
-  if (glo_t->nt < GLO_NT_0_FLOOR) {
-    return GPS_TIME_UNKNOWN;
-  }
-  if (glo_t->nt <= GLO_NT_0_CEILING) {
-    year_of_cycle = 1;
-    day_of_year = glo_t->nt;
-  } else if (glo_t->nt <= GLO_NT_1_CEILING) {
-    year_of_cycle = 2;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_2_CEILING) {
-    year_of_cycle = 3;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_3_CEILING) {
-    year_of_cycle = 4;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS * 2;
-  } else {
+  if (glo_t->nt < GLO_NT_0_FLOOR || glo_t->nt > GLO_NT_3_CEILING) {
     return GPS_TIME_UNKNOWN;
   }
 
-  glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1) + (year_of_cycle - 1);
+  /* first year of the four-year cycle, NT counts days from its start (the
+   * first year is not a leap year in the cycle that starts in 2100) */
+  glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1);
 
   /* Calculate days since GPS epoch */
-  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + day_of_year - 1;
+  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + glo_t->nt - 1;
   u32 y = GPS_EPOCH_YEAR;
   while (++y < glo_year) {
     days_gps_epoch += is_leap_year(y) ? LEAP_YEAR_DAYS : YEAR_DAYS;
-- 
2.43.0


From 7eeb95514b79476068092f891de8e9a0ceea3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 09/35] fix: do not mark a GLONASS ephemeris valid when its
 reference time is unknown

Day number 0 and day 1461 of the last cycle cannot be converted to a GPS
time, so toe is GPS_TIME_UNKNOWN while the ephemeris was marked valid.
---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..553a4c0 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1737,7 +1737,7 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
 
   if (ret) {
     eph->toe = glo2gps(&toe, utc_params);
-    eph->valid = 1;
+    eph->valid = gps_time_valid(&eph->toe);
   }
 
   eph->source = EPH_SOURCE_GLO_FDMA;
-- 
2.43.0


From 69c23e53ef2e741840d0b68754f47d44c6665aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 10/35] fix: refuse GPS URA index 16 instead of reading past
 the table

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 553a4c0..e8eec6a 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 42923b38f4804b353c854c325ae3fc6609459943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 11/35] fix: encode a lock time of exactly a code's minimum as
 that code

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..a2cb93f 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From 9053f2d23afb4630eaf50b5069ad740d29d8e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 12/35] fix: do not overflow the millisecond conversion of long
 lock times

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index a2cb93f..d3689b2 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From e128a315b8f682132aa0a3419df47041396d7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 13/35] fix: clear the validity of the solution before an epoch
 is refused

---
 src/single_epoch_solver.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..15f8290 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1349,6 +1349,13 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   assert(tor != NULL);
   assert(soln != NULL);
   assert(dops != NULL);
+
+  /* A refused epoch must not leave an earlier solution marked as valid */
+  soln->valid = 0;
+  soln->velocity_valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
+
   u8 n_processed_meas_used = 0;
   gnss_sid_set_t sids_used;
   sid_set_init(&sids_used);
@@ -1408,10 +1415,6 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   lsq_data_t lsq_data;
 
   if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
-
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From 8cf5268d0d8c15e6dad77ddb7aef614b2a0e4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 14/35] fix: do not claim a velocity when a measurement lacks
 measured Doppler

---
 src/single_epoch_solver.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 15f8290..626e3f5 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1341,6 +1341,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                  gnss_solution *soln,
                                  dops_t *dops,
                                  gnss_sid_set_t *raim_removed_sids) {
+  bool no_velocity = disable_velocity;
   u8 n_states = 3;
 
   s8 clock_map[CONSTELLATION_COUNT];
@@ -1393,14 +1394,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
           "SPP attempted on measurements that did not have valid pseudorange");
     }
 
-    /* if velocity output is requested, every signal must have valid Doppler */
-    if (!disable_velocity &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_COMP_DOPPLER_VALID)) {
-      assert(
-          "SPP velocity requested but not all measurements have valid Doppler");
+    /* The velocity is solved from measured Doppler: if any signal lacks it, do
+     * not compute (or claim) a velocity */
+    if (!(processed_nav_meas_ptrs[i]->flags &
+          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) {
+      no_velocity = true;
     }
   }
 
@@ -1423,7 +1421,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                clock_map,
                                processed_nav_meas_ptrs,
                                disable_raim,
-                               disable_velocity,
+                               no_velocity,
                                &lsq_data,
                                &removed_sids,
                                /* metric = */ NULL);
@@ -1466,7 +1464,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   soln->err_cov[5] = lsq_data.V[2 * n_states + 2];
   soln->err_cov[6] = dops->gdop;
 
-  if (!disable_velocity) {
+  if (!no_velocity) {
     /* Populate the velocity covariances similarly to err_cov  */
     soln->vel_cov[0] = lsq_data.V_vel[0 * n_states + 0];
     soln->vel_cov[1] = lsq_data.V_vel[0 * n_states + 1];
@@ -1524,7 +1522,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   soln->valid = 1;
 
-  if (!disable_velocity) {
+  if (!no_velocity) {
     soln->velocity_valid = 1;
   } else {
     soln->velocity_valid = 0;
@@ -1541,7 +1539,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                       clock_map,
                       processed_nav_meas_ptrs,
                       lsq_data.rx_state,
-                      disable_velocity,
+                      no_velocity,
                       &sid_set,
                       &removed_sids)) {
       raim_flag = PVT_CONVERGED_RAIM_REPAIR;
-- 
2.43.0


From fb47bd33809a6242882f3c7000e70719fd1aaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:08 +0000
Subject: [PATCH 15/35] fix: sum the off-diagonal terms of the weighted
 pseudo-inverse

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From d28fae25c54ed90c7451aa018dc4ad6bcf0ccca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 16/35] fix: compute the least-norm pseudo-inverse instead of
 refusing every wide matrix

---
 src/linear_algebra.c | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..3e1ca66 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -758,7 +758,7 @@ inline int matrix_atwaiat(
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
-  /* The resulting matrix is symmetric, so compute both halves at
+  /* The matrix to invert is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From 0d55dd35b987ee4a13965d6a5400bf736fec19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 17/35] fix: use the squared eccentricity in the Halley term of
 wgsecef2llh

---
 src/coord_system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coord_system.c b/src/coord_system.c
index 7b2159a..64a3e7d 100644
--- a/src/coord_system.c
+++ b/src/coord_system.c
@@ -168,7 +168,8 @@ void wgsecef2llh(const double ecef[3], double llh[3]) {
     A_n = sqrt(S * S + C * C);
     D_n = Z * A_n * A_n * A_n + WGS84_E * WGS84_E * S * S * S;
     F_n = P * A_n * A_n * A_n - WGS84_E * WGS84_E * C * C * C;
-    B_n = 1.5 * WGS84_E * S * C * C * (A_n * (P * S - Z * C) - WGS84_E * S * C);
+    B_n = 1.5 * WGS84_E * WGS84_E * S * C * C *
+          (A_n * (P * S - Z * C) - WGS84_E * WGS84_E * S * C);
 
     /* Update step. */
     S = D_n * F_n - B_n * S;
-- 
2.43.0


From fd924e06d322452b2e5677f39ae04eb1a677a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 18/35] fix: signs of the second derivatives in the Keplerian
 acceleration

---
 src/ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index e8eec6a..6119fbc 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From 57621c83211d304ead6704e3e3fe5163576b3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 19/35] fix: transform velocity and acceleration of BeiDou GEO
 satellites with the position

---
 src/ephemeris.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 6119fbc..a2fd0d8 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -543,23 +543,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -581,6 +564,27 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  /* Transform GEO user-defined inertial system to BDCS: rotate position,
+   * velocity and acceleration, then account for the rotation of the frame. */
+  if (orbit_type == GEO) {
+    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
+    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
+    double *vec[3] = {pos, vel, acc};
+    for (u8 i = 0; i < 3; i++) {
+      double v[3] = {vec[i][0],
+                     vec[i][1] * COS_5 + vec[i][2] * (-SIN_5),
+                     -vec[i][1] * (-SIN_5) + vec[i][2] * COS_5};
+      vec[i][0] = v[0] * cos_ome + v[1] * sin_ome;
+      vec[i][1] = -v[0] * sin_ome + v[1] * cos_ome;
+      vec[i][2] = v[2];
+    }
+    double omega = BDS2_OMEGAE_DOT;
+    acc[0] += 2 * omega * vel[1] - omega * omega * pos[0];
+    acc[1] += -2 * omega * vel[0] - omega * omega * pos[1];
+    vel[0] += omega * pos[1];
+    vel[1] -= omega * pos[0];
+  }
+
   return 0;
 }
 
-- 
2.43.0


From bc49634a55f8dabfaf24f7f68b9a0b48b976257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 20/35] fix: apply the BeiDou GEO frame to BeiDou satellites
 only

---
 src/ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index a2fd0d8..4ebab3e 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -566,7 +566,8 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
 
   /* Transform GEO user-defined inertial system to BDCS: rotate position,
    * velocity and acceleration, then account for the rotation of the frame. */
-  if (orbit_type == GEO) {
+  if (orbit_type == GEO &&
+      sid_to_constellation(e->sid) == CONSTELLATION_BDS) {
     double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
     double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
     double *vec[3] = {pos, vel, acc};
-- 
2.43.0


From 5ccc6dbfc8e50bab4543e0ba87767bd6f646329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 21/35] fix: subtract the receiver velocity in calc_sat_doppler

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 4ebab3e..650f9b0 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -813,7 +813,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From 16400e87ebea15fe0f0933d6b45e2ed39a9a13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 22/35] fix: keep the BeiDou reference epoch within its own
 week

---
 src/ephemeris.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 650f9b0..cc1117d 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -511,6 +511,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Corrected longitude of ascenting node. */
   double om_dot;
   double om;
+  double toe_sow;
   switch (sid_to_constellation(e->sid)) {
     case CONSTELLATION_GPS:
     case CONSTELLATION_QZS:
@@ -524,8 +525,12 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
       } else {
         om_dot = k->omegadot - BDS2_OMEGAE_DOT;
       }
-      om = k->omega0 + dt * om_dot -
-           BDS2_OMEGAE_DOT * (e->toe.tow - BDS_SECOND_TO_GPS_SECOND);
+      /* seconds of the BDT week */
+      toe_sow = e->toe.tow - BDS_SECOND_TO_GPS_SECOND;
+      if (toe_sow < 0) {
+        toe_sow += WEEK_SECS;
+      }
+      om = k->omega0 + dt * om_dot - BDS2_OMEGAE_DOT * toe_sow;
       break;
     case CONSTELLATION_SBAS:
     case CONSTELLATION_GLO:
-- 
2.43.0


From c6f209daffd9425c50644dd56216902a7cb09dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 23/35] fix: subtract the satellite clock rate in the Doppler
 correction

With raw_measured_doppler = -(pseudorange rate)/wavelength, as the velocity
solver takes it, a satellite clock running fast raises the measured Doppler by
rate * carrier frequency, so removing it subtracts. The added term doubled the
error instead, against the pseudorange and carrier phase corrections.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index d3689b2..ea43f2a 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -198,7 +198,7 @@ double nav_meas_cor_sat_clk_on_pseudorange(
 double nav_meas_cor_sat_clk_on_measured_doppler(
     const navigation_measurement_t *nav_meas) {
   double carrier_freq = sid_to_carr_freq(nav_meas->sid);
-  return (nav_meas->raw_measured_doppler +
+  return (nav_meas->raw_measured_doppler -
           nav_meas->sat_clock_err_rate * carrier_freq);
 }
 
-- 
2.43.0


From f5ec4e550d35804a1236de7f83029626b2b769aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 24/35] fix: keep the sidereal time of dates before 2000 within
 0 and 2*pi

---
 src/gnss_time.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 14396c7..f73697e 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -600,8 +600,12 @@ double utc2gmst(utc_tm u, double ut1_utc) {
   gmst0 = 24110.54841 + 8640184.812866 * t1 + 0.093104 * t2 - 6.2E-6 * t3;
   gmst = gmst0 + 1.002737909350795 * ut;
 
-  return fmod(gmst, (double)DAY_SECS) * M_PI /
-         (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
+  gmst = fmod(gmst, (double)DAY_SECS);
+  if (gmst < 0) {
+    gmst += (double)DAY_SECS;
+  }
+
+  return gmst * M_PI / (double)(DAY_SECS / 2); /* 0 <= gmst <= 2*PI */
 }
 
 /** Transform GPS time into GLONASS time
-- 
2.43.0


From 226bc234d467350917c1cd66927a1c0f26ce87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 25/35] fix: exact value of 2^-66

The rounded constant made the decoded BeiDou af2 fall short of its multiple of
2^-66, and get_bds2_iod_crc, which truncates, took the next smaller number: the
CRC of every ephemeris with a non-zero af2 was that of other data.
---
 include/swiftnav/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/swiftnav/constants.h b/include/swiftnav/constants.h
index 72b200f..2ce02b9 100644
--- a/include/swiftnav/constants.h
+++ b/include/swiftnav/constants.h
@@ -115,7 +115,7 @@ extern "C" {
 /** 2^-59 */
 #define C_1_2P59 1.73472347597681e-018
 /** 2^-66 */
-#define C_1_2P66 1.35525271560688e-020
+#define C_1_2P66 1.3552527156068805e-020
 /** 2^-68 */
 #define C_1_2P68 3.3881317890172014e-21
 
-- 
2.43.0


From 0e8d94ad823f5bf7d2a2cf568303da6c406b5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 26/35] fix: count the last week of the 1024-week cycle as
 current

gps_adjust_week_cycle resolves a truncated week number to wn_ref .. wn_ref +
1023; gps_current_time_valid_with_wn_ref refused the last of them.
---
 src/gnss_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index f73697e..be5b44f 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -71,7 +71,7 @@ bool gps_current_time_valid(const gps_time_t *t) {
  * \return true if the time is valid
  */
 bool gps_current_time_valid_with_wn_ref(const gps_time_t *t, u16 wn_ref) {
-  return gps_time_valid(t) && t->wn >= wn_ref && t->wn < (wn_ref + 1023);
+  return gps_time_valid(t) && t->wn >= wn_ref && t->wn < (wn_ref + 1024);
 }
 
 /** Normalize a `gps_time_t` GPS time struct in place.
-- 
2.43.0


From 8e09f87721856151e311faa3f0bec31b6c2cff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 27/35] fix: no uninitialised clock drift variance when no
 velocity is solved

V_vel is only filled by the velocity solution; without it clock_drift_var was
read from uninitialised memory.
---
 src/single_epoch_solver.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 626e3f5..3928bf1 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1491,7 +1491,9 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   soln->clock_offset = lsq_data.rx_state[3] / GPS_C;
   soln->clock_drift = lsq_data.rx_state[3 + n_states] / GPS_C;
   soln->clock_offset_var = lsq_data.V[3 * n_states + 3] / GPS_C / GPS_C;
-  soln->clock_drift_var = lsq_data.V_vel[3 * n_states + 3] / GPS_C / GPS_C;
+  soln->clock_drift_var =
+      no_velocity ? 0.0
+                  : lsq_data.V_vel[3 * n_states + 3] / GPS_C / GPS_C;
 
   /* Correct the time of reception with the solved bias to get solution time */
   soln->time = *tor;
-- 
2.43.0


From f9f132a87e2f6e87549bc067843e14c76a02378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 28/35] fix: no uninitialised Doppler residuals in the first
 integrity test

When the position does not converge, the Doppler residuals are never computed,
yet they entered the metric that decides whether an exclusion improves it.
---
 src/single_epoch_solver.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 3928bf1..6d5f3bb 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -801,6 +801,8 @@ static s8 pvt_iter(const u8 n_used,
   assert(n_used > 0);
   /* Reset state to zero */
   memset(lsq_data->rx_state, 0, 2 * n_states * sizeof(double));
+  /* Doppler residuals are only computed once the position has converged */
+  memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
 
   /* G is a geometry matrix tells us how our pseudoranges relate to
    * our state estimates -- it's the Jacobian of d(p_i)/d(x_j) where
-- 
2.43.0


From 6047e57d27b3cd11d0c95dc6dce3c06a571b781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 29/35] fix: normalise Doppler residuals in the unit of their
 variance

The integrity test divided range-rate residuals in m/s by standard
deviations in Hz, so Doppler errors of several deviations passed.
---
 src/single_epoch_solver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 6d5f3bb..b698555 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -667,7 +667,8 @@ static bool residual_test(const u8 n_used,
       residual[i] /= sqrt(pr_var);
     }
     if (!disable_velocity && !double_equal(dop_var, 0)) {
-      residual[n_used + i] /= sqrt(dop_var);
+      /* the residual is in m/s, the variance in Hz^2 */
+      residual[n_used + i] /= sqrt(dop_var) * sid_to_lambda(nav_meas[i]->sid);
     }
   }
   double metric = vector_norm(n_meas, residual) / sqrt(n_meas - raim_n_state);
-- 
2.43.0


From 571f2f3634cd991e55b18c206b83435a319bf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 30/35] fix: predict Doppler along the line of sight to the
 rotated satellite

The satellite's velocity was rotated for the time of flight but projected
on the line of sight to its unrotated position, an error of up to 2 cm/s
per signal.
---
 src/single_epoch_solver.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index b698555..c63c00a 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -267,6 +267,11 @@ static double compute_predicted_doppler(
    * satellite's velocity at time t-tau. */
   sagnac_rotation(nav_meas->sat_vel, tau, sat_vel_new);
 
+  /* The line of sight is the one to the rotated satellite position */
+  double sat_pos_new[3] = {0.0};
+  sagnac_rotation(nav_meas->sat_pos, tau, sat_pos_new);
+  vector_subtract(3, sat_pos_new, user_pos, line_of_sight);
+
   /* Predicted Doppler measurement is the relative user-satellite velocity
    * projected onto the unit line-of-sight vector, plus clock drift */
   vector_subtract(3, sat_vel_new, user_vel, relative_velocity);
-- 
2.43.0


From 7a0e7f014e97c84e02dde4323089587e785f4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 31/35] fix: detailed debug messages honour DEBUG like plain
 ones

---
 include/swiftnav/logging.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/swiftnav/logging.h b/include/swiftnav/logging.h
index 9cf9e93..f53b0ab 100644
--- a/include/swiftnav/logging.h
+++ b/include/swiftnav/logging.h
@@ -255,7 +255,7 @@ extern const char *level_string[];
  */
 #define detailed_log_debug(...)                                            \
   do {                                                                     \
-    if (LOG_LEVEL >= LOG_DEBUG) {                                          \
+    if (DEBUG || LOG_LEVEL >= LOG_DEBUG) {                                 \
       detailed_log_truncated_(LOG_DEBUG, __FILE__, __LINE__, __VA_ARGS__); \
     }                                                                      \
   } while (false)
-- 
2.43.0


From 422a4e6e404fb8c2d32352d6b7b2b89be849ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 32/35] fix: the UTC midnight ending a leap second is after it
 with broadcast parameters

---
 src/gnss_time.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index be5b44f..ac3ef5a 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -19,6 +19,9 @@
 #include <swiftnav/constants.h>
 #include <swiftnav/gnss_time.h>
 
+/* Rounding error allowed for next to a leap second event [s] */
+#define LEAP_SECOND_ROUNDING 1e-9
+
 /** \defgroup time Time functions
  * Functions to handle GPS and UTC time values.
  * \{ */
@@ -1033,8 +1036,10 @@ double get_utc_gps_offset(const gps_time_t *utc_time, const utc_params_t *p) {
     /* The polynomial UTC to GPS correction */
     double dt_utc = p->a0 + p->a1 * dt + p->a2 * dt * dt;
 
-    /* the new UTC offset takes effect after the leap second event */
-    if (gpsdifftime(utc_time, &p->t_lse) >= -p->dt_ls - dt_utc) {
+    /* the new UTC offset takes effect after the leap second event, at a UTC
+     * midnight; the event time is only known to within rounding */
+    if (gpsdifftime(utc_time, &p->t_lse) >=
+        -p->dt_ls - dt_utc - LEAP_SECOND_ROUNDING) {
       dt_utc += (double)p->dt_lsf;
     } else {
       dt_utc += (double)p->dt_ls;
-- 
2.43.0


From 1afd2d7e343a3fb3822c6041cac04a89de59775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 33/35] fix: rounding next to a leap second does not lead out
 of it or into it

---
 src/gnss_time.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index ac3ef5a..0e261dc 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -11,6 +11,7 @@
  */
 
 #include <assert.h>
+#include <float.h>
 #include <math.h>
 #include <stdio.h>
 #include <string.h>
@@ -200,18 +201,35 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
   /* Is it during a (positive) leap second event */
   bool is_lse = is_leap_second_event(t, p);
 
-  double tow_utc = t->tow - dt_utc;
+  gps_time_t t_u = {.wn = t->wn, .tow = t->tow - dt_utc};
+  normalize_gps_time(&t_u);
+  double midnight = round(t_u.tow / DAY_SECS) * DAY_SECS;
+  double lse_frac = 0.0;
+
+  if (!is_lse) {
+    /* rounding may have moved a time right before or after the leap second
+     * event across the start or end of it */
+    gps_time_t before = {.wn = t->wn, .tow = t->tow - LEAP_SECOND_ROUNDING};
+    gps_time_t after = {.wn = t->wn, .tow = t->tow + LEAP_SECOND_ROUNDING};
+    if (t_u.tow >= midnight && is_leap_second_event(&after, p)) {
+      is_lse = true;
+    } else if (t_u.tow < midnight && is_leap_second_event(&before, p)) {
+      t_u.tow = midnight;
+      normalize_gps_time(&t_u);
+    }
+  }
 
   if (is_lse) {
     /* positive leap second event ongoing, so we are at 23:59:60.xxxx
-     * subtract one second from time for now to make the conversion
-     * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
-    tow_utc = tow_utc - 1;
+     * go back to 23:59:59 for now to make the conversion
+     * into yyyy/mm/dd HH:MM:SS.sssss format, and add the rest back later.
+     * No rounding of the fraction (nor of 60 plus it) may lead out of the leap
+     * second. */
+    lse_frac = MIN(MAX(t_u.tow - midnight, 0.0), 1.0 - 64 * DBL_EPSILON);
+    t_u.tow = midnight - 1;
+    normalize_gps_time(&t_u);
   }
 
-  gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
-  normalize_gps_time(&t_u);
-
   /* break the time into components */
   make_utc_tm(&t_u, u);
 
@@ -221,6 +239,7 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
     assert(u->second_int == 59);
     /* add the extra second back in*/
     u->second_int += 1;
+    u->second_frac = lse_frac;
   }
 }
 
-- 
2.43.0


From 2e596d639a0a593a57e15218a69ee3bf2f777d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 34/35] fix: UTC and GLONASS times right before a leap second
 convert to the second they are in

---
 src/gnss_time.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 0e261dc..8ba835b 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -561,7 +561,9 @@ gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
     days_gps_epoch += is_leap_year(y) ? LEAP_YEAR_DAYS : YEAR_DAYS;
   }
 
-  double sec = glo_t->s;
+  /* the offset changes at whole seconds, so no rounding of the fraction can
+   * change it */
+  double sec = floor(glo_t->s);
   bool is_leap_second = (sec >= 60);
   /* if leap second is ongoing, subtract the extra second and add it back
    * after the conversion */
@@ -595,7 +597,7 @@ gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
 
   /* use just the integer part of the time difference to convert GLO time to
    * GPS time (see GLO ICD, Section 4.5)*/
-  gps_t.tow -= round(d_utc);
+  gps_t.tow += glo_t->s - floor(glo_t->s) - round(d_utc);
   normalize_gps_time(&gps_t);
   return gps_t;
 }
@@ -910,15 +912,24 @@ void utc2date(const utc_tm *utc_time,
 }
 
 void utc2gps(const utc_tm *utc, gps_time_t *gps, const utc_params_t *p) {
-  bool is_lse = utc->second_int >= 60;
-  const double mjd = utc2mjd(utc);
-  *gps = mjd2gps_params(mjd, p);
+  /* During a leap second event the offset is still that of the second before
+   */
+  double leap = utc->second_int >= 60 ? 1.0 : 0.0;
+
+  /* The offset changes at whole seconds, so no rounding of the fraction can
+   * change it */
+  double utc_days =
+      date2mjd(utc->year, utc->month, utc->month_day, 0, 0, 0.0) -
+      MJD_JAN_6_1980;
+  gps_time_t utc_time;
+  utc_time.wn = (s16)(utc_days / WEEK_DAYS);
+  utc_time.tow = (utc_days - utc_time.wn * WEEK_DAYS) * (double)DAY_SECS +
+                 utc->hour * HOUR_SECS + utc->minute * MINUTE_SECS +
+                 utc->second_int - leap;
+  double leap_secs = get_utc_gps_offset(&utc_time, p);
 
-  /* During a leap second event the MJD is wrong by a second, so remove the
-   * erroneous second here */
-  if (is_lse) {
-    add_secs(gps, -1.0);
-  }
+  *gps = utc_time;
+  add_secs(gps, leap - leap_secs + utc->second_frac);
 }
 
 /* NOTE: This function will be inaccurate by up to a second on the week of a
-- 
2.43.0


From 953f956b05970e4a89e305b7fddbe57ca5846a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 35/35] fix: the seconds of a normalized time duration stay
 below a week

---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 8ba835b..72b49d7 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -182,6 +182,11 @@ void normalize_gps_time_duration(gps_time_duration_t *dt) {
   if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
     dt->weeks -= (s16)sign_weeks;
     dt->seconds += sign_weeks * WEEK_SECS;
+    /* a tiny difference may have rounded up to a full week */
+    if (fabs(dt->seconds) >= WEEK_SECS) {
+      dt->seconds -= sign_weeks * WEEK_SECS;
+      dt->weeks += (s16)sign_weeks;
+    }
   }
 }
 
-- 
2.43.0

