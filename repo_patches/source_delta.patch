From c46b6e080f10da23612b1085f686e37ac1be8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:19 +0000
Subject: [PATCH 1/7] fix: do not read past log2Ml when the previous frame has
 56 harmonics

---
 src/ambe/ambe3600x2400.c | 5 +++--
 src/ambe/ambe3600x2450.c | 5 +++--
 src/imbe/imbe7200x4400.c | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..21aa1ad 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -537,7 +537,8 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -557,7 +558,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..5c6a6a3 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -556,7 +556,8 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -576,7 +577,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..2baa0bb 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -505,7 +505,8 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 77
         Sum77 = Sum77
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]])
+                   + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum77 = ((rho / (float)cur_mp->L) * Sum77);
 
@@ -516,7 +517,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 2
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = (rho * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
         cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
 #ifdef IMBE_DEBUG
-- 
2.43.0


From 6445d25e9158382cbfcef95ee253baa47c0b68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 2/7] fix: keep the rendered D-STAR tone instead of overwriting
 it with comfort noise

---
 src/ambe/ambe3600x2400.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 21aa1ad..0b5c0c7 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -604,6 +604,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
     int i, bad;
+    int tone_rendered = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -645,6 +646,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_rendered = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -672,7 +674,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_rendered) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From 805687a59181d7efd74052dc99b34aa377cedff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 3/7] fix: keep spectral magnitudes finite when the fundamental
 is zero

---
 src/core/mbelib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..124c93b 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -369,6 +369,11 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
+    /* The weights are undefined for a zero fundamental (AMBE erasure model): keep the magnitudes as they are. */
+    if (cur_mp->w0 == 0.0f) {
+        return;
+    }
+
     R2m0 = (Rm0 * Rm0);
     R2m1 = (Rm1 * Rm1);
 
-- 
2.43.0


From 796937f4489844b123deb1ad5aeb9a0b63b36bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 4/7] fix: saturate the adaptive amplitude threshold instead of
 overflowing

---
 src/core/mbe_adaptive.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..9e25320 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -252,7 +253,9 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     } else {
-        Tm = MBE_AMPLITUDE_BASE - (MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal) + prevThreshold;
+        /* The recurrence has no upper bound while errors persist: saturate instead of overflowing. */
+        int64_t next = MBE_AMPLITUDE_BASE - ((int64_t)MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal) + prevThreshold;
+        Tm = (next > INT_MAX) ? INT_MAX : (next < INT_MIN) ? INT_MIN : (int)next;
     }
     cur_mp->amplitudeThreshold = Tm;
 
-- 
2.43.0


From 354cf19cbc8335d51c996e990789da7dc58e885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 5/7] fix: unvoiced synthesis window had 110 flat samples and a
 duplicated ramp sample

The table documents 111 flat samples (-55..+55) and a linear ramp from +56
to +105; samples +55..+89 were 0.02 too low because one 1.0 was missing and
0.300 was listed twice.
---
 src/core/mbe_unvoiced_fft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/mbe_unvoiced_fft.c b/src/core/mbe_unvoiced_fft.c
index 2002e98..2842b3c 100644
--- a/src/core/mbe_unvoiced_fft.c
+++ b/src/core/mbe_unvoiced_fft.c
@@ -58,11 +58,11 @@ static const float Ws_synthesis[211] = {
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
-    1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
+    1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     /* Indices +56 to +105: linear ramp down from ~0.98 to 0.0 */
     0.980f, 0.960f, 0.940f, 0.920f, 0.900f, 0.880f, 0.860f, 0.840f, 0.820f, 0.800f, 0.780f, 0.760f, 0.740f, 0.720f,
     0.700f, 0.680f, 0.660f, 0.640f, 0.620f, 0.600f, 0.580f, 0.560f, 0.540f, 0.520f, 0.500f, 0.480f, 0.460f, 0.440f,
-    0.420f, 0.400f, 0.380f, 0.360f, 0.340f, 0.320f, 0.300f, 0.300f, 0.280f, 0.260f, 0.240f, 0.220f, 0.200f, 0.180f,
+    0.420f, 0.400f, 0.380f, 0.360f, 0.340f, 0.320f, 0.300f, 0.280f, 0.260f, 0.240f, 0.220f, 0.200f, 0.180f,
     0.160f, 0.140f, 0.120f, 0.100f, 0.080f, 0.060f, 0.040f, 0.020f, 0.000f};
 
 /**
-- 
2.43.0


From d3142ddad325d40ce1a2f1bf3183db6a374fe38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 6/7] fix: pffft_new_setup returns NULL when memory runs out

---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..fc21e8c 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1369,6 +1369,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
         return 0;
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
+    if (!s) {
+        return 0;
+    }
     int k, m;
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0


From c14e5fd5d0641d00a35ff2b1f9c219d7af4be755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 7/7] fix: spectral weights overflowed to NaN for frames of
 very high energy

---
 src/core/mbelib.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 124c93b..5ab0839 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -272,7 +272,7 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 void
 mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
 
-    float Rm0, Rm1, R2m0, R2m1, Wl[57];
+    float Rm0, Rm1, r1, r2, Wl[57];
     int l;
     float sum, gamma;
     const int L = cur_mp->L;
@@ -369,13 +369,14 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
-    /* The weights are undefined for a zero fundamental (AMBE erasure model): keep the magnitudes as they are. */
-    if (cur_mp->w0 == 0.0f) {
+    /* The weights are undefined for a zero fundamental (AMBE erasure model) and for no energy: keep the magnitudes. */
+    if (cur_mp->w0 == 0.0f || Rm0 == 0.0f) {
         return;
     }
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* Only the ratio enters the squares, as Rm0 * Rm0 overflows (or underflows) long before Rm0 itself does. */
+    r1 = Rm1 / Rm0;
+    r2 = r1 * r1;
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
@@ -383,8 +384,8 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
             Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((1.0f + r2) - ((float)2 * r1 * cos_w0l)))
+                                  / (cur_mp->w0 * Rm0 * (1.0f - r2))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0

