From c56c5573d4d86a173c46c266a70f94af0c859112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 1/7] fix: ignore bits above the 23-bit codeword in
 mbe_checkGolayBlock

The upper bits of the packed block leaked into the extracted data
although the public header documents them as ignored.
---
 src/ecc/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc/ecc.c b/src/ecc/ecc.c
index 5ce7b80..3a69a17 100644
--- a/src/ecc/ecc.c
+++ b/src/ecc/ecc.c
@@ -45,7 +45,7 @@ mbe_checkGolayBlock(long int* block) {
     uint32_t mask;
     uint32_t block_u;
 
-    block_u = (uint32_t)(*block);
+    block_u = (uint32_t)(*block) & 0x7fffffu; /* upper bits are ignored */
 
     mask = 0x400000u; /* MSB of 23-bit codeword */
     eccexpected = 0;
-- 
2.43.0


From 81b648d479f49ab5310c15c0eb6a40cedabd444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 2/7] fix: do not read past harmonic 56 of the previous frame
 in amplitude prediction

---
 src/ambe/ambe3600x2400.c | 9 ++++++---
 src/ambe/ambe3600x2450.c | 9 ++++++---
 src/imbe/imbe7200x4400.c | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..8f407c4 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -158,7 +158,7 @@ int
 mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_mp) {
 
     int ji, i, j, k, l, L = 0, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], nextkl;
     int b0, b1, b2, b3, b4, b5, b6, b7, b8;
     float f0, Cik[5][18], flokl[57], deltal[57];
     float Sum42, Sum43, Tl[57] = {0}, Gm[9], Ri[9], sum, c1, c2;
@@ -532,12 +532,14 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq. 41
         deltal[l] = flokl[l] - (float)intkl[l];
+        /* harmonic 56 is the last one: it has no right neighbour to interpolate with */
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef AMBE_DEBUG
         fprintf(stderr, "delta%i: %f ", l, deltal[l]);
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[nextkl]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -556,8 +558,9 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[nextkl]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..172e231 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -177,7 +177,7 @@ static int
 mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_mp, int total_errors) {
 
     int ji, i, j, k, l, L = 0, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], nextkl;
     int b0, b1, b2, b3, b4, b5, b6, b7, b8;
     float f0, Cik[5][18], flokl[57], deltal[57];
     float Sum42, Sum43, Tl[57] = {0}, Gm[9], Ri[9], sum, c1, c2;
@@ -551,12 +551,14 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq. 41
         deltal[l] = flokl[l] - (float)intkl[l];
+        /* harmonic 56 is the last one: it has no right neighbour to interpolate with */
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef AMBE_DEBUG
         fprintf(stderr, "delta%i: %f ", l, deltal[l]);
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[nextkl]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -575,8 +577,9 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[nextkl]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..63c62d2 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -276,7 +276,7 @@ int
 mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_mp) {
 
     int Bm, ji, b, i, j, k, l, L, K, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], nextkl;
     int b0, b2, bm;
     float Cik[7][11], rho, flokl[57], deltal[57];
     float Sum77, Tl[57] = {0.0f}, Gm[7], Ri[7], sum, c1, c2;
@@ -500,12 +500,14 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq. 76
         deltal[l] = flokl[l] - (float)intkl[l];
+        /* harmonic 56 is the last one: it has no right neighbour to interpolate with */
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef IMBE_DEBUG
         fprintf(stderr, "deltal: %e ", deltal[l]);
 #endif
         // eq 77
         Sum77 = Sum77
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[nextkl]));
     }
     Sum77 = ((rho / (float)cur_mp->L) * Sum77);
 
@@ -515,8 +517,9 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 
     // Part 2
     for (l = 1; l <= cur_mp->L; l++) {
+        nextkl = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
         c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = (rho * deltal[l] * prev_mp->log2Ml[nextkl]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
         cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
 #ifdef IMBE_DEBUG
-- 
2.43.0


From baf861ff66f2b2930b9012dc8261ccb824d76259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 3/7] fix: do not replace a synthesized D-STAR tone with
 comfort noise

---
 src/ambe/ambe3600x2400.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 8f407c4..74db9a4 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -605,7 +605,7 @@ void
 mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, char* err_str, const char ambe_d[49],
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
-    int i, bad;
+    int i, bad, tone_done = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -647,6 +647,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_done = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -674,7 +675,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_done) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From a4189c4a8cda85f22bacd08e6a1520eecf3328ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 4/7] fix: keep spectral enhancement weights finite for loud
 frames and after erasures

---
 src/core/mbelib.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..8f54ac8 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -272,7 +272,8 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 void
 mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
 
-    float Rm0, Rm1, R2m0, R2m1, Wl[57];
+    float Rm0, Rm1, Wl[57];
+    double R2m0, R2m1;
     int l;
     float sum, gamma;
     const int L = cur_mp->L;
@@ -369,17 +370,20 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* The third powers of Rm0 below exceed the range of float for loud frames. */
+    R2m0 = (double)Rm0 * (double)Rm0;
+    R2m1 = (double)Rm1 * (double)Rm1;
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
     for (l = 1; l <= L; l++) {
         if (cur_mp->Ml[l] != 0.0f) {
-            const float cos_w0l = cos_tab[l];
-            Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+            const double num = 0.96 * M_PI * ((R2m0 + R2m1) - (2.0 * (double)Rm0 * (double)Rm1 * (double)cos_tab[l]));
+            const double den = (double)cur_mp->w0 * (double)Rm0 * (R2m0 - R2m1);
+            if (!(num >= 0.0 && den > 0.0)) {
+                continue; /* no spectral shape to enhance (e.g. w0 == 0 after an erasure) */
+            }
+            Wl[l] = sqrtf(cur_mp->Ml[l]) * sqrtf(sqrtf((float)(num / den)));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From afbbe8585acafc0ff7678fd87dac63b2343ff1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 5/7] fix: restore the symmetry of the unvoiced synthesis
 window

---
 src/core/mbe_unvoiced_fft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/mbe_unvoiced_fft.c b/src/core/mbe_unvoiced_fft.c
index 2002e98..2842b3c 100644
--- a/src/core/mbe_unvoiced_fft.c
+++ b/src/core/mbe_unvoiced_fft.c
@@ -58,11 +58,11 @@ static const float Ws_synthesis[211] = {
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
-    1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
+    1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f, 1.000f,
     /* Indices +56 to +105: linear ramp down from ~0.98 to 0.0 */
     0.980f, 0.960f, 0.940f, 0.920f, 0.900f, 0.880f, 0.860f, 0.840f, 0.820f, 0.800f, 0.780f, 0.760f, 0.740f, 0.720f,
     0.700f, 0.680f, 0.660f, 0.640f, 0.620f, 0.600f, 0.580f, 0.560f, 0.540f, 0.520f, 0.500f, 0.480f, 0.460f, 0.440f,
-    0.420f, 0.400f, 0.380f, 0.360f, 0.340f, 0.320f, 0.300f, 0.300f, 0.280f, 0.260f, 0.240f, 0.220f, 0.200f, 0.180f,
+    0.420f, 0.400f, 0.380f, 0.360f, 0.340f, 0.320f, 0.300f, 0.280f, 0.260f, 0.240f, 0.220f, 0.200f, 0.180f,
     0.160f, 0.140f, 0.120f, 0.100f, 0.080f, 0.060f, 0.040f, 0.020f, 0.000f};
 
 /**
-- 
2.43.0


From c130586e3907ceb7a3d5ff959855dc4c8a038f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 6/7] fix: saturate the adaptive amplitude threshold instead of
 overflowing

---
 src/core/mbe_adaptive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..70c5030 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -248,6 +249,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (prevThreshold <= 0) {
         prevThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     }
+    /* The threshold grows with every frame that has few errors: saturate instead of overflowing. */
+    if (prevThreshold > INT_MAX - MBE_AMPLITUDE_BASE) {
+        prevThreshold = INT_MAX - MBE_AMPLITUDE_BASE;
+    }
 
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
-- 
2.43.0


From 0f7447805b24b1e07acb1157fe686c29f3f0d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:01 +0000
Subject: [PATCH 7/7] fix: check allocations in pffft_new_setup

Both callers handle a NULL setup, but a failed allocation of the setup
or of its data was dereferenced.
---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..5cc2479 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1380,11 +1380,18 @@ pffft_new_setup(int N, pffft_transform_t transform) {
         assert((N % (SIMD_SZ * SIMD_SZ)) == 0 && N > 0);
     }
     //assert((N % 32) == 0);
+    if (!s) {
+        return 0;
+    }
     s->N = N;
     s->transform = transform;
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0

